// A monomial type of our own, which holds plain exponents and watches how it is used: every function
// checks that what it is given satisfies what the library promises to the authors of keys.
#ifndef VF_USERMONO_HPP
#define VF_USERMONO_HPP

#include "polyk.hpp"

#include <atomic>
#include <mutex>
#include <stdexcept>

#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>

#include <obake/math/pow.hpp>
#include <obake/ranges.hpp>

namespace um
{

using vf::i64;
using vf::u64;

// What went wrong, and how many times each function was called.
struct Watch {
    std::mutex m;
    std::map<std::string, u64> bad;
    enum fn { ctor, zero, one, compat, equal, hashed, print, tex, merge, mul, over, degree, p_degree, pow, eval, subs, identify, trim, diff, integ, size, nfn };
    std::atomic<u64> n[nfn] = {};
};
inline Watch &watch()
{
    static Watch w;
    return w;
}
inline void want(bool ok, const char *what)
{
    if (!ok) {
        auto &w = watch();
        std::lock_guard lk(w.m);
        ++w.bad[what];
    }
}
inline void called(Watch::fn f)
{
    watch().n[f].fetch_add(1, std::memory_order_relaxed);
}

// The exponents must be within these limits (if F says so).
inline constexpr i64 limit = 1000000;

// F: 1 for a homomorphic hash, 2 for limited exponents with a check of the overflows, 4 for a measure of the size.
template <typename T, unsigned F>
class mono
{
    friend class boost::serialization::access;
    std::vector<T> e;
    bool gone = false;

    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &e;
    }

public:
    using value_type = T;
    static constexpr unsigned flags = F;
    mono() = default;
    explicit mono(const obake::symbol_set &s) : e(s.size(), T(0))
    {
        called(Watch::ctor);
    }
    template <typename It>
        requires requires(It i) { typename std::iterator_traits<It>::iterator_category; }
    explicit mono(It b, It f)
    {
        for (; b != f; ++b) {
            e.push_back(static_cast<T>(*b));
        }
    }
    explicit mono(std::vector<T> v) : e(std::move(v)) {}
    mono(const mono &o) : e(o.e)
    {
        want(!o.gone, "copy of a key moved from");
    }
    mono(mono &&o) noexcept : e(std::move(o.e))
    {
        want(!o.gone, "move of a key moved from");
        o.gone = true;
        o.e.clear();
    }
    mono &operator=(const mono &o)
    {
        want(!o.gone, "assignment of a key moved from");
        e = o.e;
        gone = false;
        return *this;
    }
    mono &operator=(mono &&o) noexcept
    {
        want(!o.gone, "move of a key moved from");
        if (this != &o) {
            e = std::move(o.e);
            gone = false;
            o.gone = true;
            o.e.clear();
        }
        return *this;
    }
    const std::vector<T> &get() const
    {
        want(!gone, "use of a key moved from");
        return e;
    }
    std::vector<T> &_get()
    {
        // NOTE: those moved from may be written to.
        gone = false;
        return e;
    }
};

template <typename T, unsigned F>
inline bool operator==(const mono<T, F> &a, const mono<T, F> &b)
{
    called(Watch::equal);
    want(a.get().size() == b.get().size(), "comparison of keys of different sizes");
    return a.get() == b.get();
}
inline u64 weight(std::size_t i)
{
    return vf::mix64(i * 0x9e3779b97f4a7c15ull + 12345u) | 1u;
}
template <typename T>
inline u64 as_u64(const T &x)
{
    if constexpr (std::is_integral_v<T>) {
        return static_cast<u64>(x);
    } else {
        return static_cast<u64>(static_cast<i64>(x));
    }
}
template <typename T>
inline vf::int_t to_int(const T &x)
{
    if constexpr (std::is_constructible_v<vf::int_t, const T &>) {
        return vf::int_t(x);
    } else {
        return vf::int_t(static_cast<i64>(x));
    }
}
template <typename T, unsigned F>
inline std::size_t hash(const mono<T, F> &m)
{
    called(Watch::hashed);
    u64 h = 0;
    for (std::size_t i = 0; i < m.get().size(); ++i) {
        if constexpr (F & 1u) {
            h += weight(i) * as_u64(m.get()[i]);
        } else {
            h = vf::mix64(h ^ as_u64(m.get()[i]));
        }
    }
    return h;
}
template <typename T, unsigned F>
inline bool fits(const mono<T, F> &m)
{
    if constexpr (F & 2u) {
        for (const auto &x : m.get()) {
            if (x > T(limit) || x < T(-limit)) {
                return false;
            }
        }
    }
    return true;
}
template <typename T, unsigned F>
inline bool good(const mono<T, F> &m, const obake::symbol_set &s)
{
    return m.get().size() == s.size() && fits(m);
}
template <typename T, unsigned F>
inline bool key_is_compatible(const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::compat);
    return good(m, s);
}
template <typename T, unsigned F>
inline bool key_is_zero(const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::zero);
    want(good(m, s), "key_is_zero() of an incompatible key");
    return false;
}
template <typename T, unsigned F>
inline bool key_is_one(const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::one);
    want(good(m, s), "key_is_one() of an incompatible key");
    return std::all_of(m.get().begin(), m.get().end(), [](const T &x) { return x == T(0); });
}
template <typename T, unsigned F>
inline void key_stream_insert(std::ostream &os, const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::print);
    want(good(m, s), "key_stream_insert() of an incompatible key");
    bool any = false;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (const auto &x = m.get()[i]; x != T(0)) {
            os << (any ? "*" : "") << *s.nth(i);
            any = true;
            if (x != T(1)) {
                os << "**" << x;
            }
        }
    }
    if (!any) {
        os << '1';
    }
}
template <typename T, unsigned F>
inline void key_tex_stream_insert(std::ostream &os, const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::tex);
    want(good(m, s), "key_tex_stream_insert() of an incompatible key");
    std::string num, den;
    for (std::size_t i = 0; i < s.size(); ++i) {
        const auto &x = m.get()[i];
        if (x != T(0)) {
            auto &d = x > T(0) ? num : den;
            d += "{" + *s.nth(i) + "}";
            const auto y = abs(to_int(x));
            if (!y.is_one()) {
                std::ostringstream oss;
                oss << y;
                d += "^{" + oss.str() + "}";
            }
        }
    }
    if (den.empty()) {
        os << (num.empty() ? "1" : num);
    } else {
        os << "\\frac{" << (num.empty() ? "1" : num) << "}{" << den << "}";
    }
}
template <typename T, unsigned F>
inline mono<T, F> key_merge_symbols(const mono<T, F> &m, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &s)
{
    called(Watch::merge);
    want(good(m, s), "key_merge_symbols() of an incompatible key");
    // The symbols inserted in their places must give a set of symbols.
    std::vector<T> v;
    std::vector<std::string> names;
    auto it = im.begin();
    for (std::size_t i = 0; i <= s.size(); ++i) {
        for (; it != im.end() && it->first <= i; ++it) {
            want(it->first == i, "key_merge_symbols() with unordered insertions");
            want(!it->second.empty(), "key_merge_symbols() with an empty insertion");
            for (const auto &n : it->second) {
                names.push_back(n);
                v.push_back(T(0));
            }
        }
        if (i < s.size()) {
            names.push_back(*s.nth(i));
            v.push_back(m.get()[i]);
        }
    }
    want(it == im.end(), "key_merge_symbols() with insertions beyond the end");
    want(std::is_sorted(names.begin(), names.end(), [](const auto &a, const auto &b) { return a <= b; }),
         "key_merge_symbols() with symbols out of place");
    return mono<T, F>(std::move(v));
}
template <typename T, unsigned F>
inline void monomial_mul(mono<T, F> &out, const mono<T, F> &a, const mono<T, F> &b, const obake::symbol_set &s)
{
    called(Watch::mul);
    want(good(a, s) && good(b, s) && good(out, s), "monomial_mul() of incompatible keys");
    auto &v = out._get();
    for (std::size_t i = 0; i < v.size(); ++i) {
        v[i] = a.get()[i] + b.get()[i];
    }
    want(fits(out), "monomial_mul() of keys beyond the limits");
}
template <typename R>
using range_key = std::decay_t<decltype(*obake::begin(std::declval<R>()))>;
template <typename T>
struct is_limited : std::false_type {
};
template <typename T, unsigned F>
struct is_limited<mono<T, F>> : std::bool_constant<(F & 2u) != 0u> {
};
template <typename R1, typename R2>
    requires is_limited<range_key<R1>>::value && std::is_same_v<range_key<R1>, range_key<R2>>
inline bool monomial_range_overflow_check(R1 &&r1, R2 &&r2, const obake::symbol_set &s)
{
    called(Watch::over);
    using K = range_key<R1>;
    using T = typename K::value_type;
    const auto n = s.size();
    std::vector<T> lo[2], hi[2];
    bool any[2] = {false, false};
    auto scan = [&](auto b, auto e, int w) {
        for (; b != e; ++b) {
            const auto &k = *b;
            want(good(k, s), "monomial_range_overflow_check() of an incompatible key");
            if (!any[w]) {
                lo[w] = hi[w] = k.get();
                any[w] = true;
            }
            for (std::size_t i = 0; i < n; ++i) {
                lo[w][i] = std::min(lo[w][i], k.get()[i]);
                hi[w][i] = std::max(hi[w][i], k.get()[i]);
            }
        }
    };
    scan(obake::begin(r1), obake::end(r1), 0);
    scan(obake::begin(r2), obake::end(r2), 1);
    if (any[0] && any[1]) {
        for (std::size_t i = 0; i < n; ++i) {
            if (lo[0][i] + lo[1][i] < T(-limit) || hi[0][i] + hi[1][i] > T(limit)) {
                return false;
            }
        }
    }
    return true;
}
template <typename T, unsigned F>
inline T key_degree(const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::degree);
    want(good(m, s), "key_degree() of an incompatible key");
    T r(0);
    for (const auto &x : m.get()) {
        r += x;
    }
    return r;
}
template <typename T, unsigned F>
inline T key_p_degree(const mono<T, F> &m, const obake::symbol_idx_set &si, const obake::symbol_set &s)
{
    called(Watch::p_degree);
    want(good(m, s), "key_p_degree() of an incompatible key");
    T r(0);
    for (const auto i : si) {
        want(i < s.size(), "key_p_degree() with an index out of range");
        r += m.get().at(i);
    }
    return r;
}
template <typename T, unsigned F, typename U>
    requires std::is_integral_v<U> || std::is_same_v<U, vf::int_t> || std::is_same_v<U, vf::rat_t>
inline mono<T, F> monomial_pow(const mono<T, F> &m, const U &n, const obake::symbol_set &s)
{
    called(Watch::pow);
    want(good(m, s), "monomial_pow() of an incompatible key");
    auto v(m.get());
    for (auto &x : v) {
        if constexpr (std::is_same_v<U, vf::rat_t>) {
            if (!n.get_den().is_one()) {
                throw std::invalid_argument("not an integral exponent");
            }
            x = static_cast<T>(to_int(x) * n.get_num());
        } else {
            x = static_cast<T>(to_int(x) * vf::int_t(n));
        }
    }
    mono<T, F> r(std::move(v));
    if (!fits(r)) {
        throw std::overflow_error("exponents beyond the limits");
    }
    return r;
}
template <typename U, typename T>
using pow_ret = std::decay_t<decltype(obake::pow(std::declval<const U &>(), std::declval<const T &>()))>;
template <typename T, unsigned F, typename U, typename R = pow_ret<U, T>>
    requires std::is_constructible_v<R, int>
inline R key_evaluate(const mono<T, F> &m, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &s)
{
    called(Watch::eval);
    want(good(m, s), "key_evaluate() of an incompatible key");
    want(sm.size() == s.size(), "key_evaluate() with values missing");
    R r(1);
    std::size_t i = 0;
    for (const auto &[j, x] : sm) {
        want(i++ == j, "key_evaluate() with wrong indices");
        r *= obake::pow(x, m.get().at(j));
    }
    return r;
}
template <typename T, unsigned F, typename U, typename R = pow_ret<U, T>>
    requires std::is_constructible_v<R, int>
inline std::pair<R, mono<T, F>> monomial_subs(const mono<T, F> &m, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &s)
{
    called(Watch::subs);
    want(good(m, s), "monomial_subs() of an incompatible key");
    auto v(m.get());
    R r(1);
    for (const auto &[j, x] : sm) {
        want(j < s.size(), "monomial_subs() with an index out of range");
        r *= obake::pow(x, std::as_const(v.at(j)));
        v.at(j) = T(0);
    }
    return {std::move(r), mono<T, F>(std::move(v))};
}
template <typename T, unsigned F>
inline void key_trim_identify(std::vector<int> &w, const mono<T, F> &m, const obake::symbol_set &s)
{
    called(Watch::identify);
    want(good(m, s), "key_trim_identify() of an incompatible key");
    want(w.size() == s.size(), "key_trim_identify() with a vector of another size");
    for (std::size_t i = 0; i < w.size(); ++i) {
        want(w[i] == 0 || w[i] == 1, "key_trim_identify() with a wrong mark");
        if (m.get().at(i) != T(0)) {
            w[i] = 0;
        }
    }
}
template <typename T, unsigned F>
inline mono<T, F> key_trim(const mono<T, F> &m, const obake::symbol_idx_set &si, const obake::symbol_set &s)
{
    called(Watch::trim);
    want(good(m, s), "key_trim() of an incompatible key");
    std::vector<T> v;
    for (const auto i : si) {
        want(i < s.size(), "key_trim() with an index out of range");
        want(m.get().at(i) == T(0), "key_trim() of an exponent in use");
    }
    for (std::size_t i = 0; i < m.get().size(); ++i) {
        if (si.find(i) == si.end()) {
            v.push_back(m.get()[i]);
        }
    }
    return mono<T, F>(std::move(v));
}
template <typename T, unsigned F>
inline std::pair<T, mono<T, F>> monomial_diff(const mono<T, F> &m, const obake::symbol_idx &i, const obake::symbol_set &s)
{
    called(Watch::diff);
    want(good(m, s), "monomial_diff() of an incompatible key");
    want(i < s.size(), "monomial_diff() with an index out of range");
    auto v(m.get());
    const T n(v.at(i));
    if (n != T(0)) {
        v[i] -= T(1);
    }
    return {n, mono<T, F>(std::move(v))};
}
template <typename T, unsigned F>
inline std::pair<T, mono<T, F>> monomial_integrate(const mono<T, F> &m, const obake::symbol_idx &i, const obake::symbol_set &s)
{
    called(Watch::integ);
    want(good(m, s), "monomial_integrate() of an incompatible key");
    want(i < s.size(), "monomial_integrate() with an index out of range");
    auto v(m.get());
    if (v.at(i) == T(-1)) {
        throw std::domain_error("the antiderivative is a logarithm");
    }
    v[i] += T(1);
    const T n(v[i]);
    return {n, mono<T, F>(std::move(v))};
}
template <typename T, unsigned F>
    requires((F & 4u) != 0u)
inline std::size_t byte_size(const mono<T, F> &m)
{
    called(Watch::size);
    return sizeof(m) + sizeof(T) * m.get().capacity();
}

// Used by a case: what was seen in the meantime is reported at the end.
struct Scope {
    vf::Case &c;
    u64 before[Watch::nfn];
    explicit Scope(vf::Case &cc) : c(cc)
    {
        auto &w = watch();
        for (int i = 0; i < Watch::nfn; ++i) {
            before[i] = w.n[i];
        }
        std::lock_guard lk(w.m);
        w.bad.clear();
    }
    Scope(const Scope &) = delete;
    ~Scope()
    {
        static const char *const names[Watch::nfn]
            = {"constructions", "zero tests", "tests for one", "compatibility tests", "comparisons", "hashes", "forms printed",
               "TeX forms printed", "merges", "multiplications", "overflow tests", "degrees", "partial degrees", "powers",
               "evaluations", "substitutions", "identifications of unused symbols", "removals of unused symbols", "derivatives",
               "antiderivatives", "sizes"};
        auto &w = watch();
        std::map<std::string, u64> bad;
        {
            std::lock_guard lk(w.m);
            bad.swap(w.bad);
        }
        for (int i = 0; i < Watch::nfn; ++i) {
            if (const auto n = w.n[i] - before[i]) {
                c.event((std::string("keys: ") + names[i]).c_str(), n);
            }
        }
        vf::rec().evals.fetch_add(1, std::memory_order_relaxed);
        for (const auto &[k, n] : bad) {
            c.fail(k, std::to_string(n) + " times");
        }
    }
};

} // namespace um

namespace obake
{
template <typename T, unsigned F>
inline constexpr bool monomial_hash_is_homomorphic<um::mono<T, F>> = (F & 1u) != 0u;
}

namespace um
{
template <typename T, unsigned F>
inline std::vector<vf::i128> unpack(const um::mono<T, F> &m, std::size_t n)
{
    if (m.get().size() != n) {
        throw std::runtime_error("a monomial which does not have as many exponents as there are symbols");
    }
    std::vector<vf::i128> r;
    for (const auto &x : m.get()) {
        if constexpr (std::is_integral_v<T>) {
            r.push_back(x);
        } else {
            r.push_back(static_cast<i64>(x));
        }
    }
    return r;
}
} // namespace um

#endif
