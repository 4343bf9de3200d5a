// The work an operation does on the coefficients, and the storage it accounts for.
#ifndef C23_WORK_HPP
#define C23_WORK_HPP

#include "polyk.hpp"

#include <atomic>
#include <sstream>
#include <vector>

#include <obake/byte_size.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/power_series/power_series.hpp>

namespace c23
{

using namespace vf;

// What was done to the coefficients, in any thread.
inline std::atomic<u64> copies{0}, muls{0}, divs{0}, adds{0}, negs{0};

// Coefficients which count. F: with fma3() or not. B: the size in bytes they claim (large: few terms are enough for
// the multithreaded algorithms).
template <bool F, unsigned B>
class cnt
{
    long v = 0;

    static void up(std::atomic<u64> &x)
    {
        x.fetch_add(1, std::memory_order_relaxed);
    }

public:
    cnt() = default;
    explicit cnt(long n) : v(n) {}
    explicit cnt(int n) : v(n) {}
    explicit cnt(const int_t &n) : v(static_cast<long>(n)) {}
    cnt(const cnt &o) : v(o.v)
    {
        up(copies);
    }
    cnt(cnt &&o) noexcept : v(std::exchange(o.v, 0)) {}
    cnt &operator=(const cnt &o)
    {
        up(copies);
        v = o.v;
        return *this;
    }
    cnt &operator=(cnt &&o) noexcept
    {
        if (this != &o) {
            v = std::exchange(o.v, 0);
        }
        return *this;
    }
    long get() const
    {
        return v;
    }
    cnt &operator+=(const cnt &o)
    {
        up(adds);
        v += o.v;
        return *this;
    }
    cnt &operator-=(const cnt &o)
    {
        up(adds);
        v -= o.v;
        return *this;
    }
    cnt &operator*=(const cnt &o)
    {
        up(muls);
        v *= o.v;
        return *this;
    }
    cnt &operator/=(const cnt &o)
    {
        up(divs);
        v /= o.v;
        return *this;
    }
    friend cnt operator+(const cnt &a, const cnt &b)
    {
        up(adds);
        return cnt(a.v + b.v);
    }
    friend cnt operator-(const cnt &a, const cnt &b)
    {
        up(adds);
        return cnt(a.v - b.v);
    }
    friend cnt operator*(const cnt &a, const cnt &b)
    {
        up(muls);
        return cnt(a.v * b.v);
    }
    friend cnt operator/(const cnt &a, const cnt &b)
    {
        up(divs);
        return cnt(a.v / b.v);
    }
    cnt operator-() const
    {
        up(negs);
        return cnt(-v);
    }
    friend bool operator==(const cnt &a, const cnt &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const cnt &a, const cnt &b)
    {
        return a.v != b.v;
    }
    friend bool is_zero(const cnt &a)
    {
        return a.v == 0;
    }
    friend void fma3(cnt &r, const cnt &a, const cnt &b)
        requires(F)
    {
        up(muls);
        up(adds);
        r.v += a.v * b.v;
    }
    friend cnt pow(const cnt &b, std::int64_t n)
    {
        cnt r(1l);
        for (; n > 0; --n) {
            r.v *= b.v;
        }
        return r;
    }
    friend std::ostream &operator<<(std::ostream &os, const cnt &a)
    {
        return os << a.v;
    }
    friend std::size_t byte_size(const cnt &)
    {
        return B;
    }
};

template <bool F, unsigned B>
inline Q to_q(const cnt<F, B> &x)
{
    return Q(x.get());
}

template <typename>
inline constexpr unsigned claimed = 0;
template <bool F, unsigned B>
inline constexpr unsigned claimed<cnt<F, B>> = B;

struct counts {
    u64 copies, muls, divs, adds, negs;
};

template <typename Fn>
inline counts measure(Fn &&f)
{
    const auto get = [] { return counts{copies.load(), muls.load(), divs.load(), adds.load(), negs.load()}; };
    const auto a = get();
    f();
    const auto b = get();
    return {b.copies - a.copies, b.muls - a.muls, b.divs - a.divs, b.adds - a.adds, b.negs - a.negs};
}

// The products of the estimation of the size of the result come on top of those of the product.
inline constexpr u64 extra_muls = 256;

template <typename S>
inline void work(Case &c, const GenCfg &g)
{
    using C = obake::series_cf_t<S>;
    auto &r = c.rng;
    GenCfg gc(g);
    gc.huge = gc.fractions = false;
    // NOTE: no overflow of the exponents here.
    if (std::is_same_v<obake::series_key_t<S>, pm_t<std::int32_t>> || r.chance(1, 2)) {
        gc.restrict_syms(r, static_cast<unsigned>(1 + r.below(3)));
    }
    const auto ga = gen_poly<S>(r, gc);
    auto gb = gen_poly<S>(r, gc);
    if (r.chance(1, 3)) {
        gb.syms = ga.syms;
        MP m;
        for (u64 i = gen_size(r, gc); i; --i) {
            m.add(gen_mono(r, gb.syms, gc), gen_cf<C>(r, gc));
        }
        gb.m = m;
        gb.s = from_model<S>(m, gb.syms, gb.seg);
    }
    const u64 na = ga.s.size(), nb = gb.s.size();
    const bool same = ga.syms == gb.syms;
    const auto ctx = [&] {
        return cat("a=", mstr(ga.m), " ", sstr(ga.syms), " seg ", ga.seg, " b=", mstr(gb.m), " ", sstr(gb.syms), " seg ", gb.seg);
    };
    // NOTE: a copy per use: the operation itself is the only thing measured.
    const auto lim = [&](const char *what, u64 n, u64 max) {
        c.check(n <= max, what, [&] { return cat(n, " rather than at most ", max, ": ", ctx()); });
    };
    const auto no_mul = [&](const counts &k, const char *what) {
        c.check(k.muls == 0u && k.divs == 0u, what, [&] { return cat(k.muls, " products, ", k.divs, " divisions: ", ctx()); });
    };

    // ---- Moves and swaps.
    {
        S a(ga.s), b(gb.s);
        S d;
        lim("copies when move constructing", measure([&] { S x(std::move(a)); d = std::move(x); }).copies, 0);
        check_eq(c, d, ga.m, "moved");
        lim("copies when swapping", measure([&] { using std::swap; swap(b, d); }).copies, 0);
        check_eq(c, b, ga.m, "swapped");
        check_eq(c, d, gb.m, "swapped");
        std::vector<S> v;
        v.push_back(std::move(b));
        v.push_back(std::move(d));
        lim("copies when a vector grows", measure([&] { v.reserve(v.capacity() + 5u); }).copies, 0);
        check_eq(c, v[0], ga.m, "moved by a vector");
        check_eq(c, v[1], gb.m, "moved by a vector");
        lim("copies when copying", measure([&] { S x(v[0]); }).copies, na);
        c.event("moves");
    }
    // ---- Sums.
    const auto sum = [&](const char *name, int kind, bool ra, bool rb, bool minus) {
        S a(ga.s), b(gb.s), d;
        const auto k = measure([&] {
            if (kind == 0) {
                if (ra && rb) {
                    d = minus ? std::move(a) - std::move(b) : std::move(a) + std::move(b);
                } else if (ra) {
                    d = minus ? std::move(a) - b : std::move(a) + b;
                } else if (rb) {
                    d = minus ? a - std::move(b) : a + std::move(b);
                } else {
                    d = minus ? a - b : a + b;
                }
            } else {
                if (rb) {
                    minus ? a -= std::move(b) : a += std::move(b);
                } else {
                    minus ? a -= b : a += b;
                }
                d = std::move(a);
            }
        });
        // In place, the terms of the left operand are extended to the new symbols if there are any.
        const bool left_moved = kind == 0 ? ra : (same || std::includes(ga.syms.begin(), ga.syms.end(), gb.syms.begin(), gb.syms.end()));
        u64 max = (left_moved ? 0 : na) + (rb ? 0 : nb);
        c.check(k.copies <= max, name, [&] { return cat(k.copies, " copies of coefficients rather than at most ", max, ": ", ctx()); });
        c.check(k.adds <= std::min(na, nb), cat(name, ", additions").c_str(), [&] { return cat(k.adds, ": ", ctx()); });
        c.check(k.negs <= na + nb + std::min(na, nb), cat(name, ", negations").c_str(), [&] { return cat(k.negs, ": ", ctx()); });
        no_mul(k, cat(name, ", products").c_str());
        check_eq(c, d, minus ? ga.m - gb.m : ga.m + gb.m, cat(name, ", value").c_str(), ctx());
        c.event("sums");
    };
    sum("copies in a + b", 0, false, false, false);
    sum("copies in move(a) + b", 0, true, false, false);
    sum("copies in a + move(b)", 0, false, true, false);
    sum("copies in move(a) + move(b)", 0, true, true, false);
    sum("copies in a - b", 0, false, false, true);
    sum("copies in move(a) - b", 0, true, false, true);
    sum("copies in a - move(b)", 0, false, true, true);
    sum("copies in move(a) - move(b)", 0, true, true, true);
    sum("copies in a += b", 1, false, false, false);
    sum("copies in a += move(b)", 1, false, true, false);
    sum("copies in a -= b", 1, false, false, true);
    sum("copies in a -= move(b)", 1, false, true, true);
    // ---- Signs and scalars.
    {
        S a(ga.s), d;
        auto k = measure([&] { d = -std::move(a); });
        lim("copies in -move(a)", k.copies, 0);
        lim("negations in -move(a)", k.negs, na);
        check_eq(c, d, MP{} - ga.m, "negated");
        k = measure([&] { obake::negate(d); });
        lim("copies in negate(a)", k.copies, 0);
        check_eq(c, d, ga.m, "negated in place");
        S p(ga.s);
        k = measure([&] { d = +std::move(p); });
        lim("copies in +move(a)", k.copies, 0);
        check_eq(c, d, ga.m, "identity");
        const auto s = static_cast<long>(r.chance(1, 2) ? 3 : -2);
        const C z(s);
        {
            S x(ga.s);
            k = measure([&] { d = r.chance(1, 2) ? std::move(x) * z : z * std::move(x); });
            lim("copies in move(a) * scalar", k.copies, 0);
            c.check(k.muls == na, "products in move(a) * scalar", [&] { return cat(k.muls, " ", ctx()); });
            check_eq(c, d, ga.m * MP(Q(s)), "scaled");
        }
        {
            S x(d);
            k = measure([&] { d = std::move(x) / z; });
            lim("copies in move(a) / scalar", k.copies, 0);
            c.check(k.divs == na, "divisions in move(a) / scalar", [&] { return cat(k.divs, " ", ctx()); });
            check_eq(c, d, ga.m, "scaled back");
        }
        k = measure([&] { S y = ga.s * z; });
        lim("copies in a * scalar", k.copies, na);
        c.check(k.muls == na, "products in a * scalar", [&] { return cat(k.muls, " ", ctx()); });
        c.event("scalings");
    }
    // ---- Products.
    const u64 np = na * nb;
    const auto product = [&](const counts &k, u64 pairs, const char *what) {
        c.check(k.muls >= pairs && k.muls <= pairs + extra_muls, what,
                [&] { return cat(k.muls, " products of coefficients for ", pairs, " pairs of terms: ", ctx()); });
        lim(cat(what, ", copies").c_str(), k.copies, 4u * (na + nb) + 64u);
        c.event("products");
        if (std::max(na, nb) * claimed<C> >= 30000u && np > 1u) {
            c.event("products of large operands");
        }
    };
    {
        S d;
        const auto k = measure([&] { d = ga.s * gb.s; });
        product(k, np, "products in a * b");
        check_eq(c, d, ga.m * gb.m, "product");
    }
    for (int t = 0; t < 3; ++t) {
        const auto l = r.range(gc.emin < 0 ? -12 : 0, 22);
        Syms s;
        if (t) {
            for (u64 i = r.below(4); i; --i) {
                s.insert(gc.universe.empty() ? r.pick(pool()) : r.pick(gc.universe));
            }
        }
        u64 pairs = 0;
        MP e;
        for (const auto &[m1, q1] : ga.m.t) {
            for (const auto &[m2, q2] : gb.m.t) {
                const Mono m = m1 + m2;
                i64 d = 0;
                for (std::size_t i = 0; i < m.size(); ++i) {
                    if (!t || s.count(pool()[i])) {
                        d += m[i];
                    }
                }
                if (d <= l) {
                    ++pairs;
                    const Q q = q1 * q2;
                    e.add(m, q);
                }
            }
        }
        S d;
        const auto k = measure([&] {
            d = t ? obake::polynomials::truncated_mul(ga.s, gb.s, l, to_ss(s)) : obake::polynomials::truncated_mul(ga.s, gb.s, l);
        });
        product(k, pairs, t ? "products in a truncated product (partial degree)" : "products in a truncated product");
        c.event(pairs == np ? "nothing truncated" : (pairs ? "something truncated" : "everything truncated"));
        check_eq(c, d, e, "truncated product");
    }
    // ---- Functions which transform rvalues.
    {
        auto ss = uni(ga.syms, {pool()[r.below(pool().size())]});
        S a(ga.s), d;
        auto k = measure([&] { d = obake::add_symbols(std::move(a), to_ss(ss)); });
        // NOTE: it works on a constant reference.
        lim("copies in add_symbols(move(a))", k.copies, na);
        no_mul(k, "products in add_symbols()");
        check_eq(c, d, ga.m, "add_symbols()");
        k = measure([&] { d = obake::add_symbols(ga.s, to_ss(ss)); });
        lim("copies in add_symbols(a)", k.copies, na);
        const auto l = r.range(gc.emin < 0 ? -6 : 0, 12);
        S x(ga.s);
        k = measure([&] { obake::truncate_degree(x, l); });
        lim("copies in truncate_degree()", k.copies, 0);
        no_mul(k, "products in truncate_degree()");
        S y(ga.s);
        const auto pred = [](const auto &t) { return t.second.get() > 0; };
        k = measure([&] { obake::filter(y, pred); });
        lim("copies in filter()", k.copies, 0);
        S z(ga.s);
        k = measure([&] { d = obake::filtered(std::move(z), pred); });
        c.check(d == y, "filtered()", ctx);
        lim("copies in filtered(move(a))", k.copies, na);
        S w(ga.s);
        k = measure([&] { d = obake::trim(std::move(w)); });
        lim("copies in trim(move(a))", k.copies, na);
        check_eq(c, d, ga.m, "trim()");
        k = measure([&] { d = obake::trim(ga.s); });
        lim("copies in trim(a)", k.copies, na);
        c.event("transformations");
    }
    // ---- Observers.
    {
        const auto k = measure([&] {
            const S &a = ga.s;
            bool eq = true;
            for (const auto &t : a) {
                eq = eq && a.find(t.first) != a.end();
            }
            eq = eq && a.size() == na && obake::byte_size(a) > 0u && !obake::is_zero(a) == (na != 0u) && a == a;
            c.check(eq, "observers", ctx);
            if (na) {
                c.check(obake::degree(a) == obake::degree(a), "degree()", ctx);
            }
            std::ostringstream oss;
            oss << a << a.table_stats();
            if (same) {
                c.check((a == gb.s) == (ga.m == gb.m) && (a != gb.s) == !(ga.m == gb.m), "==", ctx);
            }
        });
        lim("copies by functions which only look", k.copies, 0);
        no_mul(k, "products by functions which only look");
        c.check(k.adds == 0u && k.negs == 0u, "additions by functions which only look", ctx);
        const auto k2 = measure([&] { c.check((ga.s == gb.s) == (ga.m == gb.m), "== with other symbols", ctx); });
        lim("copies by == with other symbols", k2.copies, na + nb);
    }
    // ---- Powers: found in the cache the second time.
    if (na <= 6u) {
        const auto e = static_cast<unsigned>(r.below(4));
        S d;
        obake::customisation::internal::clear_series_pow_map();
        const auto k1 = measure([&] { d = obake::pow(ga.s, e); });
        S d2;
        const auto k2 = measure([&] { d2 = obake::pow(ga.s, e); });
        lim("products in a power computed already", k2.muls, na <= 1u ? k1.muls : 0u);
        c.check(d == d2, "power computed already", ctx);
        c.event("powers");
    }
    c.seen(mhash(ga.m) ^ mix64(mhash(gb.m)) ^ mix64(c.idx));
    c.sample(ctx());
    check_eq(c, ga.s, ga.m, "operand unchanged");
    check_eq(c, gb.s, gb.m, "operand unchanged");
}

// ---- Storage.
template <typename S>
inline std::size_t terms_size(const S &s)
{
    std::size_t n = 0;
    for (const auto &t : s) {
        n += obake::byte_size(t.first) + obake::byte_size(t.second) + sizeof(t) - sizeof(t.first) - sizeof(t.second);
    }
    return n;
}

// What the coefficients keep on the heap.
template <typename C>
inline std::size_t limbs(const C &)
{
    return 0;
}
inline std::size_t limbs(const int_t &n)
{
    return n.is_static() ? 0 : n.size() * sizeof(mp_limb_t);
}
inline std::size_t limbs(const rat_t &q)
{
    return limbs(q.get_num()) + limbs(q.get_den());
}

template <typename S>
inline void storage(Case &c, const GenCfg &g)
{
    using C = obake::series_cf_t<S>;
    auto &r = c.rng;
    const auto p = gen_poly<S>(r, g);
    const auto ctx = [&] { return cat(mstr(p.m), " ", sstr(p.syms), " seg ", p.seg); };
    const auto size = obake::byte_size(p.s);
    // An empty series with the same tables.
    S e;
    e.set_symbol_set(to_ss(p.syms));
    e.set_n_segments(p.s.get_s_size());
    const auto base = obake::byte_size(e);
    c.check(base >= sizeof(S), "size of an empty series", [&] { return cat(base); });
    c.check(size == base + terms_size(p.s), "the size of a series is the sum of those of its terms",
            [&] { return cat(size, " instead of ", base, " + ", terms_size(p.s), ": ", ctx()); });
    // Tables cost the same each.
    S e0;
    const auto b0 = obake::byte_size(e0);
    e0.set_n_segments(1);
    const auto b1 = obake::byte_size(e0);
    c.check(b1 > b0 && base == b0 + ((std::size_t(1) << p.seg) - 1u) * (b1 - b0), "size of the tables",
            [&] { return cat(base, " ", b0, " ", b1, " seg ", p.seg); });
    // The coefficients: their own object and what they keep elsewhere.
    for (const auto &t : p.s) {
        if constexpr (!is_series_v<C>) {
            if constexpr (claimed<C> == 0u) {
                c.check(obake::byte_size(t.second) == sizeof(C) + limbs(t.second), "size of a coefficient",
                        [&] { return cat(obake::byte_size(t.second), " ", ctx()); });
            }
        }
        c.check(obake::byte_size(t.first) >= sizeof(t.first), "size of a monomial", ctx);
    }
    // The same terms have the same size whatever was done to get there.
    {
        S x(p.s);
        c.check(obake::byte_size(x) == size || obake::byte_size(x) == base + terms_size(x), "size of a copy", ctx);
        const S y(std::move(x));
        c.check(obake::byte_size(y) == base + terms_size(y), "size of a moved series", ctx);
        std::istringstream iss(y.table_stats());
        std::string line, last;
        while (std::getline(iss, line)) {
            last = line;
        }
        c.check(last.size() > 2u && last.substr(last.rfind(' ') + 1u) == cat(obake::byte_size(y)), "size in the statistics",
                [&] { return cat(last, " ", ctx()); });
    }
    // Growing and shrinking.
    if (!p.s.empty()) {
        S x(p.s);
        const auto k = x.begin()->first;
        const auto cf = x.begin()->second;
        const auto pad = sizeof(*x.begin()) - sizeof(k) - sizeof(cf);
        const auto before = obake::byte_size(x);
        const auto gone = obake::byte_size(std::as_const(x.begin()->first)) + obake::byte_size(std::as_const(x.begin()->second)) + pad;
        x.add_term(k, obake::negate(C(cf)));
        c.check(obake::byte_size(x) == before - gone, "size after a term is gone", [&] { return cat(before, " ", gone, " ", obake::byte_size(x), " ", ctx()); });
    }
    c.event("series measured");
    c.event(p.seg ? "series of several tables measured" : "series of one table measured");
    c.seen(mhash(p.m) ^ mix64(p.seg));
}

// ---- Products of power series: pairs beyond the truncation are not computed.
template <typename S>
inline void ps_work(Case &c, const GenCfg &g0)
{
    auto &r = c.rng;
    GenCfg g(g0);
    g.huge = g.fractions = false;
    const auto a = gen_poly<S>(r, g);
    const auto b = gen_poly<S>(r, g);
    S x(a.s), y(b.s);
    const auto l = static_cast<i64>(r.range(g.emin < 0 ? -6 : 0, 14));
    Syms s;
    const bool part = r.chance(1, 2);
    for (u64 i = r.below(4); i; --i) {
        s.insert(r.pick(pool()));
    }
    const auto deg = [&](const Mono &m) {
        i64 d = 0;
        for (std::size_t i = 0; i < m.size(); ++i) {
            if (!part || s.count(pool()[i])) {
                d += m[i];
            }
        }
        return d;
    };
    const auto set = [&](S &z) {
        const auto k = measure([&] {
            if (part) {
                obake::set_truncation(z, l, to_ss(s));
            } else {
                obake::set_truncation(z, l);
            }
        });
        c.check(k.copies == 0u && k.muls == 0u, "work of set_truncation()", [&] { return cat(k.copies, " copies"); });
    };
    set(x);
    const bool both = r.chance(1, 2);
    if (both) {
        set(y);
    }
    const auto tr = [&](const MP &m, bool t) {
        MP o;
        for (const auto &[k, q] : m.t) {
            if (!t || deg(k) <= l) {
                o.add(k, q);
            }
        }
        return o;
    };
    const auto am = tr(a.m, true), bm = tr(b.m, both);
    const auto ctx = [&] { return cat("limit ", l, part ? cat(" in ", sstr(s)) : std::string(), " a=", mstr(a.m), " b=", mstr(b.m)); };
    u64 pairs = 0;
    for (const auto &[m1, q1] : am.t) {
        for (const auto &[m2, q2] : bm.t) {
            pairs += deg(m1 + m2) <= l;
        }
    }
    S d;
    const auto k = measure([&] { d = x * y; });
    c.check(k.muls >= pairs && k.muls <= pairs + extra_muls, "products in a product of power series",
            [&] { return cat(k.muls, " for ", pairs, " pairs of terms: ", ctx()); });
    check_eq(c, d, tr(am * bm, true), "product of power series", ctx());
    const u64 n = x.size(), m = y.size();
    // NOTE: the truncation of a sum of power series with a series without truncation filters it.
    const auto k2 = measure([&] { d = std::move(x) + std::move(y); });
    c.check(k2.copies == 0u && k2.muls == 0u && k2.adds <= std::min(n, m), "work of move(a) + move(b), power series",
            [&] { return cat(k2.copies, " copies ", k2.adds, " additions ", ctx()); });
    check_eq(c, d, tr(am + bm, true), "sum of power series", ctx());
    c.event("products of power series");
    c.event(pairs == n * m ? "nothing truncated" : "something truncated");
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)) ^ mix64(static_cast<u64>(l)));
}

// ---- Conversions, scalars and recursive polynomials.
template <typename R>
inline void conversions(Case &c, const GenCfg &g0)
{
    using S = obake::series_cf_t<R>;
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using PS = obake::p_series<K, C>;
    auto &r = c.rng;
    GenCfg g(g0);
    g.huge = g.fractions = false;
    g.restrict_syms(r, 3);
    // The same symbols all over: nothing has to be extended.
    const bool same = r.chance(1, 2);
    const auto ssyms = gen_syms(r, g);
    const auto gen = [&] {
        auto p = gen_poly<S>(r, g);
        if (same) {
            MP m;
            for (u64 i = gen_size(r, g); i; --i) {
                m.add(gen_mono(r, ssyms, g), gen_cf<C>(r, g));
            }
            p.m = m;
            p.syms = ssyms;
            p.s = from_model<S>(m, ssyms, p.seg);
        }
        return p;
    };
    const auto a = gen();
    const auto b = gen();
    const u64 na = a.s.size();
    const auto ctx = [&] { return cat("a=", mstr(a.m), " ", sstr(a.syms), " seg ", a.seg, " b=", mstr(b.m), " ", sstr(b.syms)); };
    const auto lim = [&](const char *what, const counts &k, u64 max) {
        c.check(k.copies <= max && k.muls == 0u && k.divs == 0u, what,
                [&] { return cat(k.copies, " copies rather than at most ", max, ", ", k.muls, " products: ", ctx()); });
    };
    // To power series and back.
    {
        S x(a.s);
        PS p, q;
        lim("construction of a power series from move(a)", measure([&] { PS t(std::move(x)); p = std::move(t); }), 0);
        check_eq(c, p, a.m, "power series", ctx());
        lim("construction of a power series from a", measure([&] { q = PS(a.s); }), na);
        check_eq(c, q, a.m, "power series", ctx());
        lim("assignment of move(a) to a power series", measure([&] { S y(std::move(x)); }), 0);
        lim("construction of a polynomial from move(power series)", measure([&] { x = S(std::move(p)); }), 0);
        check_eq(c, x, a.m, "back from power series", ctx());
        c.event("conversions");
    }
    // Scalars.
    const long z = r.range(-5, 5);
    {
        S x(a.s), d;
        C k1(z), k2(z), k3(z);
        lim("move(a) + move(scalar)", measure([&] { d = std::move(x) + std::move(k1); }), 0);
        check_eq(c, d, a.m + MP(Q(z)), "sum with a scalar", ctx());
        lim("a += scalar", measure([&] { d += k2; }), 1);
        check_eq(c, d, a.m + MP(Q(2 * z)), "sum with a scalar", ctx());
        lim("move(scalar) - move(a)", measure([&] { d = std::move(k3) - std::move(d); }), 0);
        check_eq(c, d, MP(Q(-z)) - a.m, "scalar minus polynomial", ctx());
        lim("construction from move(scalar)", measure([&] { S y(std::move(k2)); }), 0);
        c.event("scalars");
    }
    // Recursive polynomials: the first level in x, y, z, ...
    {
        R u, v;
        const auto leaves = [&](const R &o) {
            u64 n = 0;
            for (const auto &t : o) {
                n += t.second.size();
            }
            return n;
        };
        const auto syms = gen_syms(r, g), syms2 = r.chance(1, 2) ? syms : gen_syms(r, g);
        MP um, vm;
        const auto build = [&](R &o, MP &m, const Syms &s) {
            o.set_symbol_set(to_ss(s));
            o.set_n_segments(static_cast<unsigned>(r.below(3)));
            for (u64 i = r.below(6); i; --i) {
                const auto in = gen();
                const auto k = gen_mono(r, s, g);
                o.add_term(make_key<obake::series_key_t<R>>(k, s), in.s);
                for (const auto &[mm, q] : in.m.t) {
                    m.add(mm + k, q);
                }
            }
        };
        build(u, um, syms);
        build(v, vm, syms2);
        const u64 nu = leaves(u);
        // NOTE: coefficients which are series are added in place: if new symbols come, those there are extended.
        const u64 max = same ? 0u : 2u * (nu + leaves(v)) + na;
        const auto rctx = [&] { return cat("u=", mstr(um), " ", sstr(syms), " v=", mstr(vm), " ", sstr(syms2), " ", ctx()); };
        R d;
        const auto rlim = [&](const char *what, const counts &k, u64 max) {
            c.check(k.copies <= max && k.muls == 0u, what, [&] { return cat(k.copies, " copies rather than at most ", max, ": ", rctx()); });
        };
        rlim("copies when copying, recursive", measure([&] { d = u; }), nu);
        rlim("copies in move(u) + move(v), recursive", measure([&] { d = std::move(d) + R(std::move(v)); }), max);
        check_eq(c, d, um + vm, "sum, recursive", rctx());
        rlim("copies in move(u) - move(v), recursive", measure([&] { d = std::move(d) - std::move(u); }), max);
        check_eq(c, d, vm, "difference, recursive", rctx());
        S in(a.s);
        rlim("copies in move(u) + move(a), recursive", measure([&] { d = std::move(d) + std::move(in); }), max);
        check_eq(c, d, vm + a.m, "sum with a coefficient, recursive", rctx());
        rlim("copies in -move(u), recursive", measure([&] { d = -std::move(d); }), 0);
        check_eq(c, d, -(vm + a.m), "negation, recursive", rctx());
        // A polynomial made of a coefficient only gives it back.
        S in2(a.s);
        R w;
        rlim("copies in the construction from move(a), recursive", measure([&] { w = R(std::move(in2)); }), 0);
        S out;
        rlim("copies in the extraction of a coefficient", measure([&] { out = S(std::move(w)); }), 0);
        check_eq(c, out, a.m, "coefficient extracted", ctx());
        c.event("recursive polynomials");
    }
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)) ^ mix64(static_cast<u64>(z)));
    check_eq(c, a.s, a.m, "operand unchanged");
}

#define C23_CONV(name, type, lo, hi)                                                                                  \
    VF_WORKLOAD("conversions-" name, 200, 8000)                                                                       \
    {                                                                                                                 \
        vf::GenCfg g;                                                                                                 \
        g.emin = lo;                                                                                                  \
        g.emax = hi;                                                                                                  \
        g.max_terms = c.idx % 3 == 0 ? 30 : 8;                                                                        \
        c23::conversions<type>(c, g);                                                                                 \
    }
#define C23_STORAGE(name, type, lo, hi)                                                                               \
    VF_WORKLOAD("storage-" name, 150, 5000)                                                                           \
    {                                                                                                                 \
        vf::GenCfg g;                                                                                                 \
        g.emin = lo;                                                                                                  \
        g.emax = hi;                                                                                                  \
        g.max_terms = 30;                                                                                             \
        c23::storage<type>(c, g);                                                                                     \
    }
#define C23_PS(name, type, lo, hi)                                                                                    \
    VF_WORKLOAD("power-series-" name, 300, 10000)                                                                     \
    {                                                                                                                 \
        vf::GenCfg g;                                                                                                 \
        g.emin = lo;                                                                                                  \
        g.emax = hi;                                                                                                  \
        g.max_terms = c.idx % 3 == 0 ? 60 : 12;                                                                       \
        c23::ps_work<type>(c, g);                                                                                     \
    }
#define C23_TYPE(name, type, lo, hi)                                                                                  \
    VF_WORKLOAD("work-" name, 150, 5000)                                                                              \
    {                                                                                                                 \
        vf::GenCfg g;                                                                                                 \
        g.emin = lo;                                                                                                  \
        g.emax = hi;                                                                                                  \
        g.max_terms = c.idx % 3 == 0 ? 60 : 12;                                                                       \
        c23::work<type>(c, g);                                                                                        \
    }                                                                                                                 \
    C23_STORAGE(name, type, lo, hi)

} // namespace c23

#endif
