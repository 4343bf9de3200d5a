#include "usermono.hpp"
#include "c01_arith.hpp"
#include "c03_trunc.hpp"
#include "c09_syms.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/power_series/power_series.hpp>

// Exponents (and degrees) of a type of our own.
namespace um
{
class expo
{
    i64 v = 0;

public:
    expo() = default;
    expo(i64 x) : v(x) {}
    explicit operator i64() const
    {
        return v;
    }
    explicit operator u64() const
    {
        return static_cast<u64>(v);
    }
    expo &operator+=(const expo &o)
    {
        v += o.v;
        return *this;
    }
    expo &operator-=(const expo &o)
    {
        v -= o.v;
        return *this;
    }
    friend expo operator+(const expo &a, const expo &b)
    {
        return a.v + b.v;
    }
    friend bool operator==(const expo &a, const expo &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const expo &a, const expo &b)
    {
        return a.v != b.v;
    }
    friend bool operator<(const expo &a, const expo &b)
    {
        return a.v < b.v;
    }
    friend bool operator>(const expo &a, const expo &b)
    {
        return a.v > b.v;
    }
    friend std::ostream &operator<<(std::ostream &os, const expo &a)
    {
        return os << a.v;
    }
    friend vf::rat_t operator*(const expo &a, const vf::rat_t &q)
    {
        return q * a.v;
    }
    friend vf::rat_t operator*(const vf::rat_t &q, const expo &a)
    {
        return q * a.v;
    }
};

// Multiples of one half, which numbers of any type can be compared with.
class half
{
    i64 v = 0;

public:
    half() = default;
    // NOTE: a number of halves.
    explicit half(i64 x) : v(x) {}
    explicit operator i64() const
    {
        return v;
    }
    half &operator+=(const half &o)
    {
        v += o.v;
        return *this;
    }
    friend half operator+(const half &a, const half &b)
    {
        return half(a.v + b.v);
    }
    friend bool operator==(const half &a, const half &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const half &a, const half &b)
    {
        return a.v != b.v;
    }
    friend bool operator<(const half &a, const half &b)
    {
        return a.v < b.v;
    }
    template <typename L>
        requires std::is_arithmetic_v<L> || std::is_same_v<L, vf::rat_t> || std::is_same_v<L, vf::int_t>
    friend bool operator<(const L &a, const half &b)
    {
        return a * 2 < b.v;
    }
    template <typename L>
        requires std::is_arithmetic_v<L> || std::is_same_v<L, vf::rat_t> || std::is_same_v<L, vf::int_t>
    friend bool operator<(const half &a, const L &b)
    {
        return a.v < b * 2;
    }
    friend std::ostream &operator<<(std::ostream &os, const half &a)
    {
        return os << a.v << "/2";
    }
};
} // namespace um

using namespace vf;
using K = um::mono<um::expo, 5>;
using A = obake::polynomial<K, rat_t>;
using KL = um::mono<std::int64_t, 7>;
using L = obake::polynomial<KL, rat_t>;
using KS = um::mono<std::int64_t, 2>;
using M = obake::polynomial<KS, rat_t>;

VF_WORKLOAD("arith-own-exponents", 100, 5000)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c01::history<A>(c, g, 12);
}
VF_WORKLOAD("truncated-own-exponents", 150, 8000)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<um::expo, A, A>(c, g);
}
VF_WORKLOAD("truncated-large-own-exponents", 6, 300)
{
    um::Scope sc(c);
    c03::large<A, A>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .5);
}

// Degrees, truncations, filters and derivatives.
template <typename S>
static void degrees(Case &c)
{
    um::Scope sc(c);
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    g.max_terms = 12;
    const auto a = gen_poly<S>(r, g);
    Syms s;
    for (u64 i = r.below(5); i; --i) {
        s.insert(r.pick(pool()));
    }
    const auto ctx = [&] { return cat(mstr(a.m), " symbols ", sstr(s)); };
    auto dg = [&](const Mono &m, const Syms *sel) {
        i64 d = 0;
        for (std::size_t i = 0; i < NP; ++i) {
            d += sel == nullptr || sel->count(pool()[i]) ? m[i] : 0;
        }
        return d;
    };
    auto top = [&](const Syms *sel) {
        i64 d = 0;
        bool first = true;
        for (const auto &t : a.m.t) {
            const auto x = dg(t.first, sel);
            d = first ? x : std::max(d, x);
            first = false;
        }
        return d;
    };
    c.check(static_cast<i64>(obake::degree(a.s)) == top(nullptr), "degree", ctx);
    c.check(static_cast<i64>(obake::p_degree(a.s, to_ss(s))) == top(&s), "partial degree", ctx);
    const auto lim = r.range(-8, 15);
    using D = decltype(obake::degree(a.s));
    auto t1(a.s), t2(a.s);
    obake::truncate_degree(t1, D(lim));
    obake::truncate_p_degree(t2, D(lim), to_ss(s));
    check_eq(c, t1, mtrunc(a.m, lim), "truncation to a degree", ctx());
    check_eq(c, t2, mtrunc(a.m, lim, s), "truncation to a partial degree", ctx());
    const auto f = obake::filtered(a.s, [&](const auto &t) { return obake::key_degree(t.first, a.s.get_symbol_set()) > D(lim); });
    MP rest;
    for (const auto &t : a.m.t) {
        if (dg(t.first, nullptr) > lim) {
            rest.add(t.first, t.second);
        }
    }
    check_eq(c, f, rest, "filtering", ctx());
    const auto x = r.pick(pool());
    const auto df = obake::diff(a.s, x);
    MP dm;
    const auto xi = pool_idx(x);
    for (const auto &t : a.m.t) {
        auto m(t.first);
        const Q q = t.second * Q(static_cast<long>(m[xi]));
        --m[xi];
        dm.add(m, q);
    }
    check_eq(c, df, dm, "derivative", ctx());
    check_eq(c, a.s, a.m, "operand", ctx());
    c.event("degrees of our own types");
    c.seen(mhash(a.m) ^ mix64(static_cast<u64>(lim)));
}
VF_WORKLOAD("degrees-own-exponents", 300, 12000)
{
    degrees<A>(c);
}
VF_WORKLOAD("degrees-plain", 300, 12000)
{
    degrees<L>(c);
}

// Exponents which are limited: operations beyond the limits are refused, the others are exact.
template <typename S>
static void limited(Case &c, std::size_t terms)
{
    um::Scope sc(c);
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 3);
    g.max_syms = 3;
    g.max_terms = terms;
    g.emin = -4;
    if (terms > 20u) {
        g.emin = -20;
        g.emax = 20;
        g.max_syms = 2;
    }
    const auto side = r.chance(1, 2) ? 1 : -1;
    // Some of the terms are moved by about half of the limit, or about the whole limit.
    auto make = [&](i64 far) {
        auto x = gen_poly<S>(r, g);
        if (!x.syms.empty() && far != 0) {
            auto it = x.syms.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(r.below(x.syms.size())));
            const auto i = pool_idx(*it);
            MP m;
            const auto which = r.chance(1, 3) ? 0u : 1u + r.below(x.m.size() + 1u);
            std::size_t n = 0;
            for (const auto &t : x.m.t) {
                auto e(t.first);
                ++n;
                if (which == 0u || which == n) {
                    e[i] += side * far;
                    e[i] = std::max(-um::limit, std::min(um::limit, e[i]));
                }
                m.add(e, t.second);
            }
            x.m = m;
            x.s = from_model<S>(x.m, x.syms, x.seg);
        }
        return x;
    };
    const auto h = um::limit / 2 + r.range(-3, 3);
    const bool whole = r.chance(1, 2);
    const auto a = make(whole ? um::limit : h), b = make(whole ? 0 : h);
    bool fits = true;
    if (a.m.size() && b.m.size()) {
        for (std::size_t i = 0; i < NP; ++i) {
            i64 lo[2], hi[2];
            int w = 0;
            for (const auto *m : {&a.m, &b.m}) {
                lo[w] = hi[w] = m->t.begin()->first[i];
                for (const auto &t : m->t) {
                    lo[w] = std::min(lo[w], t.first[i]);
                    hi[w] = std::max(hi[w], t.first[i]);
                }
                ++w;
            }
            fits = fits && hi[0] + hi[1] <= um::limit && lo[0] + lo[1] >= -um::limit;
        }
    }
    const auto ctx = [&] { return cat(mstr(a.m).substr(0, 400), " times ", mstr(b.m).substr(0, 400)); };
    auto judge = [&](const char *what, auto f, auto model) {
        try {
            const S p = f();
            c.check(fits, cat(what, " beyond the limits not refused").c_str(), ctx);
            check_eq(c, p, model(), what, ctx());
            c.event("products within the limits");
        } catch (const std::overflow_error &) {
            c.check(!fits, cat(what, " refused").c_str(), ctx);
            c.event("products beyond the limits");
        }
    };
    judge("product", [&] { return a.s * b.s; }, [&] { return a.m * b.m; });
    judge("product", [&] { return b.s * a.s; }, [&] { return a.m * b.m; });
    const auto lim = r.range(-20, 20);
    judge("truncated product", [&] { return obake::polynomials::truncated_mul(a.s, b.s, lim); }, [&] { return mtrunc(a.m * b.m, lim); });
    Syms s;
    for (u64 i = r.below(3); i; --i) {
        s.insert(r.pick(g.universe));
    }
    judge("truncated product", [&] { return obake::polynomials::truncated_mul(a.s, b.s, lim, to_ss(s)); },
          [&] { return mtrunc(a.m * b.m, lim, s); });
    check_eq(c, a.s, a.m, "operand", ctx());
    check_eq(c, b.s, b.m, "operand", ctx());
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
}
VF_WORKLOAD("limited-hom", 300, 15000)
{
    limited<L>(c, 8);
}
VF_WORKLOAD("limited-simple", 300, 15000)
{
    limited<M>(c, 8);
}
VF_WORKLOAD("limited-large", 6, 300)
{
    limited<L>(c, 700);
}

// Fractional exponents, with limits of other types.
using H = obake::polynomial<um::mono<um::half, 5>, rat_t>;
template <typename Lim>
static void fractional(Case &c, const Gen<H> &a, const Gen<H> &b, i64 halves, const Lim &lim, const Syms &s)
{
    const auto ctx = [&] { return cat("limit ", halves, "/2, symbols ", sstr(s), " a=", mstr(a.m).substr(0, 400), " b=", mstr(b.m).substr(0, 400)); };
    const auto full = a.m * b.m;
    check_eq(c, obake::polynomials::truncated_mul(a.s, b.s, lim), mtrunc(full, halves), "fractional total degree", ctx());
    check_eq(c, obake::polynomials::truncated_mul(b.s, a.s, lim, to_ss(s)), mtrunc(full, halves, s), "fractional partial degree", ctx());
    auto p(a.s), q(a.s);
    obake::truncate_degree(p, lim);
    obake::truncate_p_degree(q, lim, to_ss(s));
    check_eq(c, p, mtrunc(a.m, halves), "truncation, fractional degree", ctx());
    check_eq(c, q, mtrunc(a.m, halves, s), "truncation, fractional partial degree", ctx());
    c.event("fractional degrees", 4);
}
static void fractions(Case &c, u64 terms, unsigned reps)
{
    um::Scope sc(c);
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 5);
    g.max_terms = terms;
    g.emin = c.idx % 2 ? -7 : 0;
    g.emax = terms > 20u ? 20 : 7;
    const auto a = gen_poly<H>(r, g), b = gen_poly<H>(r, g);
    for (unsigned k = 0; k < reps; ++k) {
        Syms s;
        for (u64 i = r.below(4); i; --i) {
            s.insert(r.pick(g.universe));
        }
        const auto l = r.range(-8, terms > 20u ? 40 : 16);
        switch (r.below(5)) {
            case 0:
                fractional(c, a, b, 2 * l, static_cast<int>(l), s);
                break;
            case 1:
                fractional(c, a, b, 2 * l, l, s);
                break;
            case 2:
                fractional(c, a, b, l, static_cast<double>(l) / 2, s);
                break;
            case 3:
                fractional(c, a, b, l, rat_t(l, 2), s);
                break;
            default:
                fractional(c, a, b, l, um::half(l), s);
        }
    }
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
}
VF_WORKLOAD("fractional", 200, 10000)
{
    fractions(c, 10, 3);
}
VF_WORKLOAD("fractional-large", 6, 300)
{
    fractions(c, 400, 1);
}
