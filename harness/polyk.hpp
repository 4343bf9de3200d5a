// Bridge between the library's series/polynomials and the reference model.
#ifndef VF_POLYK_HPP
#define VF_POLYK_HPP

#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/hash.hpp>
#include <obake/kpack.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

#include "model.hpp"

namespace vf
{

using int_t = mppp::integer<1>;
using rat_t = mppp::rational<1>;

template <typename T>
inline constexpr bool is_series_v = obake::series_rank<T> > 0u;

template <typename T>
using pm_t = obake::polynomials::packed_monomial<T>;
template <typename T, unsigned P>
using dpm_t = obake::polynomials::d_packed_monomial<T, P>;

// ---- Unpacking of the monomials.
template <typename T>
inline std::vector<i128> unpack(const pm_t<T> &m, std::size_t n)
{
    std::vector<i128> r;
    obake::kunpacker<T> ku(m.get_value(), static_cast<unsigned>(n));
    for (std::size_t i = 0; i < n; ++i) {
        T t{};
        ku >> t;
        r.push_back(static_cast<i128>(t));
    }
    return r;
}
template <typename T, unsigned P>
inline std::vector<i128> unpack(const dpm_t<T, P> &m, std::size_t n)
{
    std::vector<i128> r;
    for (const auto &v : m._container()) {
        obake::kunpacker<T> ku(v, P);
        for (unsigned j = 0; j < P && r.size() < n; ++j) {
            T t{};
            ku >> t;
            r.push_back(static_cast<i128>(t));
        }
    }
    if (r.size() != n) {
        throw std::runtime_error("the container of a dynamic monomial is too small for its symbol set");
    }
    return r;
}

// ---- Conversion of coefficients to the model.
inline Q to_q(const int_t &n)
{
    return Q(mpz_class(n.get_mpz_t()));
}
inline Q to_q(const rat_t &q)
{
    Q r(mpz_class(q.get_num().get_mpz_t()), mpz_class(q.get_den().get_mpz_t()));
    return r;
}
inline Q to_q(double d)
{
    return Q(d);
}
inline Q to_q(long n)
{
    return Q(n);
}
inline Q to_q(int n)
{
    return Q(n);
}

inline Q to_q(i128 n)
{
    const bool neg = n < 0;
    const u128 a = neg ? -static_cast<u128>(n) : static_cast<u128>(n);
    mpz_class r = (mpz_class(static_cast<unsigned long>(a >> 64)) << 64) + mpz_class(static_cast<unsigned long>(a));
    if (neg) {
        r = -r;
    }
    return Q(r);
}

template <typename C>
inline C from_q(const Q &q)
{
    if constexpr (std::is_same_v<C, i128>) {
        const mpz_class a = abs(q.get_num());
        const mpz_class hi = a >> 64;
        const auto r = static_cast<i128>((static_cast<u128>(hi.get_ui()) << 64) + static_cast<u128>(mpz_class(a - (hi << 64)).get_ui()));
        return q < 0 ? -r : r;
    } else if constexpr (std::is_same_v<C, rat_t>) {
        return rat_t(int_t(q.get_num().get_str()), int_t(q.get_den().get_str()));
    } else if constexpr (std::is_same_v<C, int_t>) {
        return int_t(q.get_num().get_str());
    } else if constexpr (std::is_same_v<C, double>) {
        return q.get_d();
    } else {
        return static_cast<C>(q.get_num().get_si());
    }
}

template <typename S>
inline Syms syms_of(const S &s)
{
    Syms r;
    for (const auto &n : s.get_symbol_set()) {
        r.insert(n);
    }
    return r;
}

inline obake::symbol_set to_ss(const Syms &s)
{
    obake::symbol_set ss;
    for (const auto &n : s) {
        ss.insert(n);
    }
    return ss;
}

// Convert a series to the model.
template <typename S>
inline MP to_model(const S &s)
{
    const auto &ss = s.get_symbol_set();
    std::vector<std::size_t> idx;
    for (const auto &n : ss) {
        idx.push_back(pool_idx(n));
    }
    MP r;
    for (const auto &t : s) {
        Mono m{};
        const auto u = unpack(t.first, ss.size());
        for (std::size_t i = 0; i < u.size(); ++i) {
            m[idx[i]] = static_cast<i64>(u[i]);
        }
        using C = std::decay_t<decltype(t.second)>;
        if constexpr (is_series_v<C>) {
            for (const auto &[m2, q] : to_model(t.second).t) {
                r.add(m + m2, q);
            }
        } else {
            r.add(m, to_q(t.second));
        }
    }
    return r;
}

// Check the structural invariants of a series, as observable from its public interface.
template <typename S>
inline bool check_invariants(Case &c, const S &s, const char *where)
{
    std::size_t n = 0;
    bool ok = true;
    auto bad = [&](const char *what) {
        ok = false;
        c.check(false, (std::string("invariant:") + what).c_str(), [&] { return std::string(where); });
    };
    const auto &ss = s.get_symbol_set();
    for (auto it = s.begin(); it != s.end(); ++it) {
        ++n;
        const auto &k = it->first;
        if (!obake::key_is_compatible(k, ss)) {
            bad("incompatible key");
            return false;
        }
        if (obake::key_is_zero(k, ss)) {
            bad("zero key");
        }
        if (obake::is_zero(it->second)) {
            bad("stored zero coefficient");
        }
        const auto f = s.find(k);
        if (f == s.end()) {
            bad("a term of the series cannot be found");
        } else if (!(&f->second == &it->second)) {
            bad("duplicate key");
        }
        if constexpr (is_series_v<std::decay_t<decltype(it->second)>>) {
            ok = check_invariants(c, it->second, where) && ok;
        }
    }
    if (n != s.size()) {
        bad("size() differs from the number of terms iterated over");
    }
    if (s.empty() != (n == 0u)) {
        bad("empty() is inconsistent");
    }
    if (!std::is_sorted(ss.begin(), ss.end())) {
        bad("unsorted symbol set");
    }
    rec().evals.fetch_add(n + 1u, std::memory_order_relaxed);
    return ok;
}

// Compare a series to the model.
template <typename S>
inline bool check_eq(Case &c, const S &s, const MP &m, const char *key, const std::string &ctx = "")
{
    if (!check_invariants(c, s, key)) {
        return false;
    }
    const auto sm = to_model(s);
    return c.check(sm == m, key,
                   [&] { return ctx + " got " + mstr(sm) + " expected " + mstr(m); });
}

// ---- Generation.
struct GenCfg {
    unsigned max_syms = 4;
    unsigned max_terms = 8;
    i64 emin = 0, emax = 5;
    i64 cmax = 5;
    unsigned max_log2_seg = 3;
    bool fractions = true;
    // Binary fractions, exact in all the types of coefficients but the integral ones.
    bool dyadic = false;
    // Occasional huge coefficients (never for floating point ones).
    bool huge = true;
    // The symbols in use (all the pool if empty).
    std::vector<std::string> universe;

    // Restrict the symbols to n random ones.
    void restrict_syms(Rng &r, unsigned n)
    {
        Syms u;
        while (u.size() < n) {
            u.insert(r.pick(pool()));
        }
        universe.assign(u.begin(), u.end());
    }
};

inline Syms gen_syms(Rng &r, const GenCfg &g)
{
    Syms s;
    const auto n = r.below(g.max_syms + 1u);
    for (u64 i = 0; i < n; ++i) {
        if (g.universe.empty()) {
            s.insert(r.pick(pool()));
        } else {
            s.insert(r.pick(g.universe));
        }
    }
    return s;
}

template <typename C>
inline Q gen_cf(Rng &r, const GenCfg &g)
{
    Q q;
    do {
        q = Q(static_cast<long>(r.range(-g.cmax, g.cmax)));
        if constexpr (std::is_same_v<C, rat_t>) {
            if (g.fractions && r.chance(1, 3)) {
                q /= Q(static_cast<long>(r.range(1, 6)));
            }
        }
        if constexpr (std::is_same_v<C, rat_t> || std::is_same_v<C, double>) {
            if (g.dyadic && r.chance(1, 3)) {
                q /= Q(1l << r.range(1, 3));
            }
        }
        if constexpr (std::is_same_v<C, rat_t> || std::is_same_v<C, int_t>) {
            if (g.huge && r.chance(1, 16)) {
                q *= Q(mpz_class("1000000000000000000000007"));
            }
        }
    } while (q == 0);
    return q;
}

template <typename K>
inline K make_key(const Mono &m, const Syms &s)
{
    using T = typename K::value_type;
    std::vector<T> v;
    for (const auto &n : s) {
        v.push_back(static_cast<T>(m[pool_idx(n)]));
    }
    return K(v.begin(), v.end());
}

// Build a series with the given symbols from a model.
template <typename S>
inline S from_model(const MP &p, const Syms &s, unsigned log2_seg = 0)
{
    S r;
    r.set_symbol_set(to_ss(s));
    r.set_n_segments(log2_seg);
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    for (const auto &[m, q] : p.t) {
        r.add_term(make_key<K>(m, s), from_q<C>(q));
    }
    return r;
}

// Some exponents are zero; sometimes all of them but one, or all of them.
inline Mono gen_mono(Rng &r, const Syms &s, const GenCfg &g)
{
    Mono m{};
    const auto shape = r.below(16u);
    if (shape == 0u || s.empty()) {
        return m;
    }
    if (shape < 3u) {
        auto it = s.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(r.below(s.size())));
        m[pool_idx(*it)] = r.range(g.emin, g.emax);
        return m;
    }
    for (const auto &x : s) {
        if (r.chance(2, 3)) {
            m[pool_idx(x)] = r.range(g.emin, g.emax);
        }
    }
    return m;
}

inline u64 gen_size(Rng &r, const GenCfg &g)
{
    return g.max_terms > 0u && r.chance(1, 10) ? 1u : r.below(g.max_terms + 1u);
}

template <typename C>
inline MP gen_mp(Rng &r, const Syms &s, const GenCfg &g)
{
    MP p;
    const auto n = gen_size(r, g);
    for (u64 i = 0; i < n; ++i) {
        const auto m = gen_mono(r, s, g);
        p.add(m, gen_cf<C>(r, g));
    }
    return p;
}

template <typename S>
struct Gen {
    S s;
    MP m;
    Syms syms;
    unsigned seg;
};

template <typename S>
inline Gen<S> gen_poly(Rng &r, const GenCfg &g)
{
    Gen<S> ret;
    ret.syms = gen_syms(r, g);
    ret.seg = static_cast<unsigned>(r.below(g.max_log2_seg + 1u));
    ret.m = gen_mp<obake::series_cf_t<S>>(r, ret.syms, g);
    ret.s = from_model<S>(ret.m, ret.syms, ret.seg);
    return ret;
}

// A polynomial whose coefficients are polynomials (symbols of the two levels drawn from g and gi).
template <typename S>
inline Gen<S> gen_rec(Rng &r, const GenCfg &g, const GenCfg &gi)
{
    using I = obake::series_cf_t<S>;
    using K = obake::series_key_t<S>;
    Gen<S> ret;
    ret.syms = gen_syms(r, g);
    ret.seg = static_cast<unsigned>(r.below(g.max_log2_seg + 1u));
    ret.s.set_symbol_set(to_ss(ret.syms));
    ret.s.set_n_segments(ret.seg);
    const auto n = gen_size(r, g);
    for (u64 i = 0; i < n; ++i) {
        const auto m = gen_mono(r, ret.syms, g);
        auto in = gen_poly<I>(r, gi);
        for (const auto &[m2, q] : in.m.t) {
            ret.m.add(m + m2, q);
        }
        ret.s.add_term(make_key<K>(m, ret.syms), std::move(in.s));
    }
    return ret;
}

inline Syms uni(const Syms &a, const Syms &b)
{
    Syms r(a);
    r.insert(b.begin(), b.end());
    return r;
}

inline std::string sstr(const Syms &s)
{
    std::string r = "[";
    for (const auto &x : s) {
        r += x + " ";
    }
    return r + "]";
}

} // namespace vf

#endif
