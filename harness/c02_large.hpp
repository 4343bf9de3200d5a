// Products of large polynomials, which take the parallel segmented path, against an exact reference.
#include <obake/polynomials/polynomial.hpp>

#include "big.hpp"

namespace c02
{

using namespace vf;

template <typename A, typename B>
inline void product(Case &c, i64 lo, unsigned max_syms, double scale)
{
    auto &r = c.rng;
    const auto p = gen_pair(r, lo, max_syms, scale);
    const auto all = union_syms(p.a, p.b);
    const auto sa = static_cast<unsigned>(r.below(6)), sb = static_cast<unsigned>(r.below(6));
    const auto a = from_plain<A>(p.a, sa);
    const auto b = from_plain<B>(p.b, sb);
    const auto ctx = cat(p.shape, " ", p.a.t.size(), "x", p.b.t.size(), " terms, segments ", sa, " ", sb);
    const auto ref = ref_mul(p.a, p.b, all, [](const auto &) { return true; });
    const auto ret = a * b;
    check_ref(c, ret, ref, all, "product", ctx);
    c.event("large products");
    c.event(("large products, " + p.shape).c_str());
    c.event("term by term multiplications", p.a.t.size() * p.b.t.size());
    if (ret.get_s_size() > 0u) {
        c.event("segmented products");
        const auto nseg = std::size_t(1) << ret.get_s_size();
        c.event(std::min(a.size(), b.size()) < nseg / 2u ? "segmented products, sparse segmentation"
                                                        : "segmented products, dense segmentation");
    }
    // The operands must not have been altered.
    c.check(a.size() == p.a.t.size() && b.size() == p.b.t.size(), "operands altered");
    // Swapped operands give the same polynomial.
    if (r.chance(1, 3)) {
        const auto ret2 = b * a;
        c.check(ret2 == ret, "commutativity", [&] { return ctx; });
    }
    // Undo the product in part: the difference must vanish term by term, whatever the segmentations.
    if (r.chance(1, 3)) {
        A half1 = a, half2 = a;
        std::size_t n = 0;
        A h1, h2;
        h1.set_symbol_set(a.get_symbol_set());
        h2.set_symbol_set(a.get_symbol_set());
        for (const auto &t : a) {
            (n++ % 2 ? h1 : h2).add_term(t.first, t.second);
        }
        auto d = ret - h1 * b;
        d -= h2 * b;
        c.check(d.empty() && d.size() == 0, "the product of the parts differs from the product", [&] { return ctx; });
        c.event("products by parts");
    }
    c.seen(mix64(hash_str(ctx)) ^ c.rng.next());
    c.sample(ctx);
}

template <typename A>
inline void heavy(Case &c, i64 lo, unsigned max_syms)
{
    auto &r = c.rng;
    const auto h = gen_heavy(r, lo, max_syms);
    const auto &p = h.p;
    const auto all = union_syms(p.a, p.b);
    auto a = from_plain<A>(p.a, static_cast<unsigned>(r.below(4)));
    auto b = from_plain<A>(p.b, static_cast<unsigned>(r.below(4)));
    weigh(a, h.shift);
    weigh(b, h.shift);
    const auto ctx = cat("heavy ", a.size(), "x", b.size(), " terms, coefficients of ", h.shift, " bits");
    const auto ref = ref_mul(p.a, p.b, all, [](const auto &) { return true; });
    auto ret = a * b;
    c.event("heavy products");
    const auto nseg = std::size_t(1) << ret.get_s_size();
    if (a.size() < nseg / 2u && b.size() < nseg / 2u) {
        c.event("products with more parts than terms");
    }
    if (c.check(unweigh(ret, 2u * h.shift), "coefficients of heavy products", [&] { return ctx; })) {
        check_ref(c, ret, ref, all, "heavy product", ctx);
    }
    c.seen(mix64(hash_str(ctx)) ^ c.rng.next());
    c.sample(ctx);
}

} // namespace c02
