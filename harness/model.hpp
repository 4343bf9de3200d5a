// Reference model: polynomials as maps from exponent vectors (over a fixed pool of
// symbols) to exact rationals. It shares no code with the library.
#ifndef VF_MODEL_HPP
#define VF_MODEL_HPP

#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <vector>

#include <gmpxx.h>

#include "vf.hpp"

namespace vf
{

using i128 = __int128_t;
using u128 = __uint128_t;
using Q = mpq_class;

inline constexpr std::size_t NP = 12;
// Sorted lexicographically (byte order).
inline const std::array<std::string, NP> &pool()
{
    // Never destroyed: it is used until the very end of the programs of C25.
    static const auto &p = *new const std::array<std::string, NP>{"A", "a", "aa", "b", "b1", "b2", "c", "x", "x_1", "y", "z", "zz"};
    return p;
}
inline std::size_t pool_idx(const std::string &s)
{
    const auto &p = pool();
    const auto it = std::find(p.begin(), p.end(), s);
    if (it == p.end()) {
        throw std::runtime_error("model: unknown symbol '" + s + "'");
    }
    return static_cast<std::size_t>(it - p.begin());
}

using Mono = std::array<i64, NP>;
using Syms = std::set<std::string>;

struct MP {
    std::map<Mono, Q> t;

    MP() = default;
    explicit MP(const Q &q)
    {
        add(Mono{}, q);
    }
    static MP var(const std::string &s)
    {
        MP r;
        Mono m{};
        m[pool_idx(s)] = 1;
        r.t[m] = 1;
        return r;
    }
    void add(const Mono &m, const Q &q)
    {
        auto &x = t[m];
        x += q;
        if (x == 0) {
            t.erase(m);
        }
    }
    bool operator==(const MP &o) const
    {
        return t == o.t;
    }
    bool operator!=(const MP &o) const
    {
        return !(t == o.t);
    }
    std::size_t size() const
    {
        return t.size();
    }
};

inline MP operator+(const MP &a, const MP &b)
{
    MP r(a);
    for (const auto &[m, q] : b.t) {
        r.add(m, q);
    }
    return r;
}
inline MP operator-(const MP &a)
{
    MP r(a);
    for (auto &p : r.t) {
        p.second = -p.second;
    }
    return r;
}
inline MP operator-(const MP &a, const MP &b)
{
    MP r(a);
    for (const auto &[m, q] : b.t) {
        r.add(m, -q);
    }
    return r;
}
inline Mono operator+(const Mono &a, const Mono &b)
{
    Mono r;
    for (std::size_t i = 0; i < NP; ++i) {
        r[i] = a[i] + b[i];
    }
    return r;
}
inline MP operator*(const MP &a, const MP &b)
{
    MP r;
    for (const auto &[m1, q1] : a.t) {
        for (const auto &[m2, q2] : b.t) {
            r.add(m1 + m2, q1 * q2);
        }
    }
    return r;
}
inline MP operator*(const MP &a, const Q &q)
{
    MP r;
    for (const auto &[m, c] : a.t) {
        r.add(m, c * q);
    }
    return r;
}
inline MP mpow(const MP &a, unsigned n)
{
    MP r(Q(1));
    for (unsigned i = 0; i < n; ++i) {
        r = r * a;
    }
    return r;
}
inline i64 mdegree(const Mono &m)
{
    return std::accumulate(m.begin(), m.end(), i64(0));
}
inline i64 mpdegree(const Mono &m, const Syms &s)
{
    i64 r = 0;
    for (std::size_t i = 0; i < NP; ++i) {
        if (s.count(pool()[i])) {
            r += m[i];
        }
    }
    return r;
}
inline MP mfilter(const MP &a, const std::function<bool(const Mono &, const Q &)> &f)
{
    MP r;
    for (const auto &[m, q] : a.t) {
        if (f(m, q)) {
            r.t[m] = q;
        }
    }
    return r;
}
inline MP mtrunc(const MP &a, i64 d)
{
    return mfilter(a, [&](const Mono &m, const Q &) { return mdegree(m) <= d; });
}
inline MP mtrunc(const MP &a, i64 d, const Syms &s)
{
    return mfilter(a, [&](const Mono &m, const Q &) { return mpdegree(m, s) <= d; });
}
inline Q qpow(const Q &b, i64 n)
{
    if (n < 0) {
        return 1 / qpow(b, -n);
    }
    Q r(1);
    for (i64 i = 0; i < n; ++i) {
        r *= b;
    }
    return r;
}
inline Q meval(const MP &a, const std::map<std::string, Q> &v)
{
    Q r(0);
    for (const auto &[m, q] : a.t) {
        Q x(q);
        for (std::size_t i = 0; i < NP; ++i) {
            if (m[i]) {
                x *= qpow(v.at(pool()[i]), m[i]);
            }
        }
        r += x;
    }
    return r;
}
inline MP mdiff(const MP &a, const std::string &s)
{
    MP r;
    const auto i = pool_idx(s);
    for (const auto &[m, q] : a.t) {
        if (m[i]) {
            auto m2 = m;
            m2[i] -= 1;
            r.add(m2, q * Q(mpz_class(static_cast<long>(m[i]))));
        }
    }
    return r;
}
// The exponent of s must never be -1.
inline MP mintegrate(const MP &a, const std::string &s)
{
    MP r;
    const auto i = pool_idx(s);
    for (const auto &[m, q] : a.t) {
        auto m2 = m;
        m2[i] += 1;
        r.add(m2, q / Q(mpz_class(static_cast<long>(m2[i]))));
    }
    return r;
}
// Substitution of polynomials for symbols (nonnegative exponents of those symbols).
inline MP msubs(const MP &a, const std::map<std::string, MP> &v)
{
    MP r;
    for (const auto &[m, q] : a.t) {
        MP x;
        Mono rest(m);
        MP acc(Q(1));
        for (const auto &[s, p] : v) {
            const auto i = pool_idx(s);
            acc = acc * mpow(p, static_cast<unsigned>(m[i]));
            rest[i] = 0;
        }
        x.t[rest] = q;
        r = r + x * acc;
    }
    return r;
}
inline std::string mstr(const MP &a)
{
    std::string r = "{";
    unsigned n = 0;
    for (const auto &[m, q] : a.t) {
        if (n++ == 12u) {
            r += " ...(" + std::to_string(a.t.size()) + " terms)";
            break;
        }
        r += (n > 1 ? " + " : "") + q.get_str();
        for (std::size_t i = 0; i < NP; ++i) {
            if (m[i]) {
                r += "*" + pool()[i] + "^" + std::to_string(m[i]);
            }
        }
    }
    return r + "}";
}
inline u64 mhash(const MP &a)
{
    u64 h = a.t.size();
    for (const auto &[m, q] : a.t) {
        for (auto e : m) {
            h = mix64(h ^ static_cast<u64>(e));
        }
        h = mix64(h ^ hash_str(q.get_str()));
    }
    return h;
}

} // namespace vf

#endif
