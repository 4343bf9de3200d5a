// Truncated products against the truncation of the exact product.
#include <obake/polynomials/polynomial.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

#include "big.hpp"

namespace c03
{

using namespace vf;

inline i64 deg(const std::vector<i64> &e)
{
    return std::accumulate(e.begin(), e.end(), i64(0));
}
inline i64 pdeg(const std::vector<i64> &e, const std::vector<std::string> &all, const Syms &s)
{
    i64 d = 0;
    for (std::size_t i = 0; i < all.size(); ++i) {
        if (s.count(all[i])) {
            d += e[i];
        }
    }
    return d;
}

// A limit which splits the degrees of the product of a and b.
template <typename F>
inline i64 pick_limit_impl(Rng &r, const Plain &a, const Plain &b, F &&f)
{
    std::vector<i64> d;
    for (int i = 0; i < 9; ++i) {
        const auto &t1 = r.pick(a.t);
        const auto &t2 = r.pick(b.t);
        d.push_back(f(a, t1) + f(b, t2));
    }
    std::sort(d.begin(), d.end());
    switch (r.below(8)) {
        case 0:
            return d.front() - 1;
        case 1:
            return d.front();
        case 2:
            return d.back() + 1;
        case 3:
            return d.back();
        case 4:
            return d[4];
        case 5:
            return 100000;
        case 6:
            return d[2];
        default:
            return d[r.below(d.size())] + r.range(-1, 1);
    }
}

template <typename F>
inline i64 pick_limit(Rng &r, const Plain &a, const Plain &b, i64 lo, F &&f)
{
    const auto l = pick_limit_impl(r, a, b, f);
    // NOTE: if the degrees are unsigned, a negative limit is not comparable to them.
    return lo == 0 && l < 0 ? 0 : l;
}

template <typename A, typename B>
inline void large(Case &c, i64 lo, unsigned max_syms, double scale)
{
    auto &r = c.rng;
    const auto p = gen_pair(r, lo, max_syms, scale);
    const auto all = union_syms(p.a, p.b);
    const auto a = from_plain<A>(p.a, static_cast<unsigned>(r.below(5)));
    const auto b = from_plain<B>(p.b, static_cast<unsigned>(r.below(5)));
    if (r.chance(1, 2)) {
        const auto lim = pick_limit(r, p.a, p.b, lo, [](const Plain &, const Term &t) { return deg(t.e); });
        const auto ctx = cat("total degree <= ", lim, ", ", p.shape, " ", p.a.t.size(), "x", p.b.t.size());
        const auto ref = ref_mul(p.a, p.b, all, [&](const auto &e) { return deg(e) <= lim; });
        const auto ret = obake::polynomials::truncated_mul(a, b, lim);
        check_ref(c, ret, ref, all, "total degree", ctx);
        c.event(ref.empty() ? "large, everything truncated" : "large, something left");
        if (r.chance(1, 4)) {
            auto full = a * b;
            obake::truncate_degree(full, lim);
            c.check(full == ret, "total degree, against the truncation of the product", [&] { return ctx; });
        }
        c.sample(ctx);
        c.seen(mix64(hash_str(ctx)) ^ r.next());
    } else {
        // Possibly with a symbol which does not show up.
        const auto sel = some_syms(r, static_cast<unsigned>(r.below(5)), {"a", "b", "c", "x", "y", "z", "w"});
        const Syms s(sel.begin(), sel.end());
        const auto lim = pick_limit(r, p.a, p.b, lo, [&](const Plain &q, const Term &t) { return pdeg(t.e, q.syms, s); });
        const auto ctx = cat("partial degree in ", sstr(s), "<= ", lim, ", ", p.shape, " ", p.a.t.size(), "x", p.b.t.size());
        const auto ref = ref_mul(p.a, p.b, all, [&](const auto &e) { return pdeg(e, all, s) <= lim; });
        const auto ss = to_ss(s);
        const auto ret = obake::polynomials::truncated_mul(a, b, lim, ss);
        check_ref(c, ret, ref, all, "partial degree", ctx);
        c.event(ref.empty() ? "large, everything truncated" : "large, something left");
        if (r.chance(1, 4)) {
            auto full = a * b;
            obake::truncate_p_degree(full, lim, ss);
            c.check(full == ret, "partial degree, against the truncation of the product", [&] { return ctx; });
        }
        c.sample(ctx);
        c.seen(mix64(hash_str(ctx)) ^ r.next());
    }
    c.event("large truncated products");
}

template <typename A>
inline void heavy(Case &c, i64 lo, unsigned max_syms)
{
    auto &r = c.rng;
    const auto h = gen_heavy(r, lo, max_syms);
    const auto &p = h.p;
    const auto all = union_syms(p.a, p.b);
    auto a = from_plain<A>(p.a, static_cast<unsigned>(r.below(4)));
    auto b = from_plain<A>(p.b, static_cast<unsigned>(r.below(4)));
    weigh(a, h.shift);
    weigh(b, h.shift);
    const auto sel = some_syms(r, static_cast<unsigned>(r.below(4)), {"a", "b", "c", "x", "y", "z", "w"});
    const Syms s(sel.begin(), sel.end());
    for (int partial = 0; partial < 2; ++partial) {
        const auto lim = partial ? pick_limit(r, p.a, p.b, lo, [&](const Plain &q, const Term &t) { return pdeg(t.e, q.syms, s); })
                                 : pick_limit(r, p.a, p.b, lo, [](const Plain &, const Term &t) { return deg(t.e); });
        const auto ctx = cat(partial ? "partial degree in " + sstr(s) : std::string("total degree"), " <= ", lim, ", heavy ", a.size(), "x",
                             b.size(), " terms, coefficients of ", h.shift, " bits");
        const auto ref = ref_mul(p.a, p.b, all, [&](const auto &e) { return (partial ? pdeg(e, all, s) : deg(e)) <= lim; });
        auto ret = partial ? obake::polynomials::truncated_mul(a, b, lim, to_ss(s)) : obake::polynomials::truncated_mul(a, b, lim);
        c.event("heavy truncated products");
        const auto nseg = std::size_t(1) << ret.get_s_size();
        if (a.size() < nseg / 2u && b.size() < nseg / 2u) {
            c.event("truncated products with more parts than terms");
        }
        if (c.check(unweigh(ret, 2u * h.shift), "coefficients of heavy products", [&] { return ctx; })) {
            check_ref(c, ret, ref, all, "heavy product", ctx);
        }
        c.seen(mix64(hash_str(ctx)) ^ c.rng.next());
        c.sample(ctx);
    }
}

template <typename L, typename A, typename B>
inline void small(Case &c, GenCfg g)
{
    auto &r = c.rng;
    const auto a = gen_poly<A>(r, g);
    const auto b = gen_poly<B>(r, g);
    const auto full = a.m * b.m;
    for (int k = 0; k < 4; ++k) {
        // NOTE: if the degrees are unsigned, a negative limit is not comparable to them.
        const auto lim = static_cast<L>(r.range(g.emin < 0 ? -12 : 0, 22));
        Syms s;
        for (u64 i = r.below(4); i; --i) {
            s.insert(r.pick(pool()));
        }
        const auto ctx = [&] { return cat("limit ", lim, " symbols ", sstr(s), " a=", mstr(a.m), " b=", mstr(b.m)); };
        {
            const auto ret = obake::polynomials::truncated_mul(a.s, b.s, lim);
            check_eq(c, ret, mtrunc(full, static_cast<i64>(lim)), "total degree", ctx());
            c.check(syms_of(ret) == uni(a.syms, b.syms), "symbol set", ctx);
        }
        {
            const auto ret = obake::polynomials::truncated_mul(a.s, b.s, lim, to_ss(s));
            check_eq(c, ret, mtrunc(full, static_cast<i64>(lim), s), "partial degree", ctx());
            c.check(syms_of(ret) == uni(a.syms, b.syms), "symbol set", ctx);
        }
        c.event("small truncated products", 2);
        c.seen(mhash(a.m) ^ mix64(mhash(b.m) + static_cast<u64>(lim)));
    }
    check_eq(c, a.s, a.m, "operand unchanged");
    check_eq(c, b.s, b.m, "operand unchanged");
}

} // namespace c03
