// Large polynomials with an exact reference: exponents packed into 128 bit integers, integral coefficients.
#ifndef VF_BIG_HPP
#define VF_BIG_HPP

#include <unordered_map>

#include <obake/polynomials/polynomial.hpp>

#include "polyk.hpp"

namespace vf
{

struct Term {
    std::vector<i64> e;
    i64 c;
};

// A plain description of a polynomial over an ordered list of symbols.
struct Plain {
    std::vector<std::string> syms;
    std::vector<Term> t;
};

struct U128Hash {
    std::size_t operator()(u128 x) const
    {
        return static_cast<std::size_t>(mix64(static_cast<u64>(x) ^ mix64(static_cast<u64>(x >> 64))));
    }
};
using RefMap = std::unordered_map<u128, i128, U128Hash>;

// 20 bits per symbol, at most 6 symbols.
inline u128 ref_key(const std::vector<i64> &e)
{
    u128 k = 0;
    for (auto x : e) {
        if (x < -(1 << 19) || x >= (1 << 19)) {
            throw std::runtime_error("reference: exponent out of range");
        }
        k = (k << 20) | static_cast<u128>(static_cast<u64>(x + (1 << 19)));
    }
    return k;
}

// Number of distinct symbols supported: 6. idx: position of the symbols of p within all.
inline std::vector<i64> spread(const Plain &p, const Term &t, const std::vector<std::string> &all)
{
    std::vector<i64> r(all.size(), 0);
    for (std::size_t i = 0; i < p.syms.size(); ++i) {
        const auto it = std::find(all.begin(), all.end(), p.syms[i]);
        r[static_cast<std::size_t>(it - all.begin())] = t.e[i];
    }
    return r;
}

inline std::vector<std::string> union_syms(const Plain &a, const Plain &b)
{
    Syms s(a.syms.begin(), a.syms.end());
    s.insert(b.syms.begin(), b.syms.end());
    return {s.begin(), s.end()};
}

// The product, with the terms for which keep(exponents) is false left out.
template <typename Keep>
inline RefMap ref_mul(const Plain &a, const Plain &b, const std::vector<std::string> &all, Keep &&keep)
{
    RefMap r;
    std::vector<std::vector<i64>> ea, eb;
    for (const auto &t : a.t) {
        ea.push_back(spread(a, t, all));
    }
    for (const auto &t : b.t) {
        eb.push_back(spread(b, t, all));
    }
    std::vector<i64> e(all.size());
    for (std::size_t i = 0; i < ea.size(); ++i) {
        for (std::size_t j = 0; j < eb.size(); ++j) {
            for (std::size_t k = 0; k < e.size(); ++k) {
                e[k] = ea[i][k] + eb[j][k];
            }
            if (keep(e)) {
                r[ref_key(e)] += static_cast<i128>(a.t[i].c) * b.t[j].c;
            }
        }
    }
    for (auto it = r.begin(); it != r.end();) {
        if (it->second == 0) {
            it = r.erase(it);
        } else {
            ++it;
        }
    }
    return r;
}

inline bool cf_equals(const int_t &a, i128 b)
{
    return a == int_t(b);
}
inline bool cf_equals(const rat_t &a, i128 b)
{
    return a == rat_t(int_t(b));
}
inline bool cf_equals(double a, i128 b)
{
    return a == static_cast<double>(b);
}
inline bool cf_equals(long a, i128 b)
{
    return static_cast<i128>(a) == b;
}
inline bool cf_equals(int a, i128 b)
{
    return static_cast<i128>(a) == b;
}

inline std::string i128s(i128 x)
{
    if (x == 0) {
        return "0";
    }
    const bool neg = x < 0;
    u128 u = neg ? -static_cast<u128>(x) : static_cast<u128>(x);
    std::string s;
    while (u) {
        s += static_cast<char>('0' + static_cast<int>(u % 10u));
        u /= 10u;
    }
    if (neg) {
        s += '-';
    }
    return {s.rbegin(), s.rend()};
}

template <typename C>
inline std::string cf_str(const C &c)
{
    std::ostringstream oss;
    oss << c;
    return oss.str();
}

// Compare the series to the reference, term by term.
template <typename S>
inline bool check_ref(Case &c, const S &s, const RefMap &ref, const std::vector<std::string> &all, const char *key,
                      const std::string &ctx)
{
    const auto &ss = s.get_symbol_set();
    std::vector<std::string> got(ss.begin(), ss.end());
    if (!c.check(got == all, (std::string(key) + ":symbols").c_str(), [&] { return ctx; })) {
        return false;
    }
    if (!check_invariants(c, s, key)) {
        return false;
    }
    std::size_t n = 0;
    bool ok = true;
    std::string what;
    for (const auto &t : s) {
        const auto u = unpack(t.first, all.size());
        std::vector<i64> e(u.begin(), u.end());
        const auto it = ref.find(ref_key(e));
        if (it == ref.end()) {
            ok = false;
            what = "a term which does not belong to the result, coefficient " + cf_str(t.second);
            break;
        }
        if (!cf_equals(t.second, it->second)) {
            ok = false;
            what = "coefficient " + cf_str(t.second) + " instead of " + i128s(it->second);
            break;
        }
        ++n;
    }
    if (ok && n != ref.size()) {
        ok = false;
        what = "terms missing: " + std::to_string(n) + " of " + std::to_string(ref.size());
    }
    return c.check(ok, key, [&] { return ctx + ": " + what; });
}

template <typename S>
inline S from_plain(const Plain &p, unsigned log2_seg)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using T = typename K::value_type;
    S r;
    r.set_symbol_set(obake::symbol_set(p.syms.begin(), p.syms.end()));
    r.set_n_segments(log2_seg);
    r.reserve(p.t.size());
    std::vector<T> v;
    for (const auto &t : p.t) {
        v.clear();
        for (auto x : t.e) {
            v.push_back(static_cast<T>(x));
        }
        r.add_term(K(v.begin(), v.end()), C(t.c));
    }
    return r;
}

inline std::vector<std::string> some_syms(Rng &r, unsigned n, const std::vector<std::string> &from)
{
    Syms s;
    while (s.size() < n) {
        s.insert(r.pick(from));
    }
    return {s.begin(), s.end()};
}

// nt distinct terms.
inline Plain gen_plain(Rng &r, const std::vector<std::string> &syms, std::size_t nt, i64 emin, i64 emax, i64 cmax)
{
    Plain p;
    p.syms = syms;
    std::set<std::vector<i64>> seen;
    for (std::size_t att = 0; p.t.size() < nt && att < nt * 4u; ++att) {
        Term t;
        for (std::size_t i = 0; i < syms.size(); ++i) {
            t.e.push_back(r.range(emin, emax));
        }
        if (!seen.insert(t.e).second) {
            continue;
        }
        do {
            t.c = r.range(-cmax, cmax);
        } while (t.c == 0);
        p.t.push_back(std::move(t));
    }
    return p;
}

// All the monomials with exponents in [0, side) (n symbols).
inline Plain gen_box(Rng &r, const std::vector<std::string> &syms, i64 side, i64 cmax)
{
    Plain p;
    p.syms = syms;
    std::vector<i64> e(syms.size(), 0);
    for (;;) {
        i64 q;
        do {
            q = r.range(-cmax, cmax);
        } while (q == 0);
        p.t.push_back({e, q});
        std::size_t i = 0;
        while (i < e.size() && ++e[i] == side) {
            e[i++] = 0;
        }
        if (i == e.size()) {
            return p;
        }
    }
}

struct Pair {
    Plain a, b;
    std::string shape;
};

// Pairs of large operands of several shapes. lo: smallest exponent allowed; scale: relative size.
inline Pair gen_pair(Rng &r, i64 lo, unsigned max_syms, double scale)
{
    const std::vector<std::string> P{"a", "b", "c", "x", "y", "z"};
    std::vector<std::string> U = some_syms(r, max_syms, P);
    Pair p;
    const auto sc = [&](double x) { return static_cast<std::size_t>(std::max(1., x * scale)); };
    const auto hi = max_syms <= 2u ? i64(4000) : 200;
    switch (r.below(7)) {
        case 0: {
            p.shape = "sparse";
            p.a = gen_plain(r, some_syms(r, max_syms, U), sc(150 + r.below(200)), lo ? -hi : 0, hi, 9);
            p.b = gen_plain(r, some_syms(r, max_syms, U), sc(700 + r.below(700)), lo ? -hi : 0, hi, 9);
            break;
        }
        case 1: {
            p.shape = "dense";
            const auto n = std::min<unsigned>(max_syms, 2u + static_cast<unsigned>(r.below(2)));
            const auto s = some_syms(r, n, U);
            const i64 side = n == 2u ? 26 : 9;
            p.a = gen_box(r, s, side, 9);
            p.b = gen_box(r, s, side + r.range(2, 6), 9);
            break;
        }
        case 2: {
            p.shape = "rectangular";
            p.a = gen_plain(r, some_syms(r, max_syms, U), 1 + r.below(4), lo ? -20 : 0, 20, 9);
            p.b = gen_plain(r, some_syms(r, max_syms, U), sc(12000 + r.below(12000)), lo ? -hi : 0, hi, 9);
            break;
        }
        case 3: {
            // f(x) * f(-x): half of the terms cancel.
            p.shape = "cancelling";
            p.a = gen_plain(r, some_syms(r, max_syms, U), sc(500), lo ? -20 : 0, 20, 5);
            p.b = p.a;
            for (auto &t : p.b.t) {
                if (t.e[0] % 2) {
                    t.c = -t.c;
                }
            }
            break;
        }
        case 4: {
            p.shape = "different symbols";
            const auto n = std::max(1u, max_syms - 1u);
            p.a = gen_plain(r, some_syms(r, n, U), sc(200), lo ? -hi : 0, hi, 9);
            p.b = gen_plain(r, some_syms(r, n, U), sc(900), lo ? -hi : 0, hi, 9);
            break;
        }
        case 5: {
            // Few residues of the hashes: both operands have terms in a few segments only,
            // and so has the product.
            p.shape = "strided";
            const i64 stride = max_syms <= 2u ? i64(1) << (4u + r.below(3)) : 16;
            const auto kmax = hi / stride - 1;
            const auto one = [&](std::size_t nt) {
                auto q = gen_plain(r, some_syms(r, max_syms, U), nt, lo ? -kmax : 0, kmax, 9);
                std::vector<i64> res{0};
                for (const auto n = r.below(4); res.size() <= n;) {
                    res.push_back(r.range(0, stride - 1));
                }
                for (auto &t : q.t) {
                    for (auto &e : t.e) {
                        e *= stride;
                    }
                    t.e[0] += r.pick(res);
                }
                return q;
            };
            p.a = one(sc(150 + r.below(250)));
            p.b = one(sc(700 + r.below(900)));
            break;
        }
        default: {
            // Clustered exponents (poor distribution of the hashes).
            p.shape = "clustered";
            p.a = gen_plain(r, some_syms(r, max_syms, U), sc(300), 0, 3, 9);
            for (auto &t : p.a.t) {
                for (auto &e : t.e) {
                    e *= 16;
                }
            }
            p.b = gen_plain(r, some_syms(r, max_syms, U), sc(1200), 0, 12, 9);
            for (auto &t : p.b.t) {
                for (auto &e : t.e) {
                    e *= 16;
                }
            }
            break;
        }
    }
    if (r.chance(1, 2)) {
        std::swap(p.a, p.b);
    }
    return p;
}

// Few terms with very large coefficients (those of the description, times 2^shift): there are more parts
// of the product than there are terms, and nothing ends up in most of the parts.
struct Heavy {
    Pair p;
    unsigned shift;
};
inline Heavy gen_heavy(Rng &r, i64 lo, unsigned max_syms)
{
    const std::vector<std::string> P{"a", "b", "c", "x", "y", "z"};
    const auto U = some_syms(r, max_syms, P);
    Heavy h;
    const i64 hi = max_syms <= 2u ? 2000 : 200;
    const auto one = [&](std::size_t nt) {
        auto q = gen_plain(r, some_syms(r, max_syms, U), nt, lo ? -hi : 0, hi, 9);
        if (r.chance(1, 3)) {
            for (auto &t : q.t) {
                t.e[0] -= t.e[0] % 8;
            }
        }
        std::set<std::vector<i64>> seen;
        std::vector<Term> left;
        for (auto &t : q.t) {
            if (seen.insert(t.e).second) {
                left.push_back(t);
            }
        }
        q.t = left;
        return q;
    };
    h.p.a = one(40 + r.below(90));
    h.p.b = one(40 + r.below(90));
    h.p.shape = "heavy";
    h.shift = 12000u + static_cast<unsigned>(r.below(12000));
    return h;
}
template <typename S>
inline void weigh(S &s, unsigned shift)
{
    for (auto &t : s) {
        t.second = t.second << shift;
    }
}
// The inverse: false if a coefficient is not a multiple.
template <typename S>
inline bool unweigh(S &s, unsigned shift)
{
    const auto w = int_t(1) << shift;
    for (auto &t : s) {
        const int_t q = t.second / w;
        if (q * w != t.second) {
            return false;
        }
        t.second = q;
    }
    return true;
}

} // namespace vf

#endif
