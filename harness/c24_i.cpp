#include "usermono.hpp"
#include "c01_arith.hpp"
#include "c07_calc.hpp"
#include "c08_eval.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
using namespace vf;
// Recursive polynomials, with a level over monomials of our own and another one over those of the library.
using P = obake::polynomial<pm_t<std::int64_t>, rat_t>;
using U = obake::polynomial<um::mono<int_t, 5>, rat_t>;
using UP = obake::polynomial<um::mono<int_t, 4>, P>;
using PU = obake::polynomial<pm_t<std::int64_t>, U>;

template <typename S>
static void degrees(Case &c, const Gen<S> &a)
{
    auto &r = c.rng;
    Syms s;
    for (u64 i = r.below(5); i; --i) {
        s.insert(r.pick(pool()));
    }
    const auto ctx = [&] { return cat(mstr(a.m), " symbols ", sstr(s)); };
    // NOTE: the terms of the two levels are summed by the model: no cancellation among them, the levels have different symbols.
    auto top = [&](const Syms *sel) {
        i64 d = 0;
        bool first = true;
        for (const auto &t : a.m.t) {
            i64 x = 0;
            for (std::size_t i = 0; i < NP; ++i) {
                x += sel == nullptr || sel->count(pool()[i]) ? t.first[i] : 0;
            }
            d = first ? x : std::max(d, x);
            first = false;
        }
        return d;
    };
    c.check(obake::degree(a.s) == top(nullptr), "degree", ctx);
    c.check(obake::p_degree(a.s, to_ss(s)) == top(&s), "partial degree", ctx);
    c.event("degrees of mixed types");
}
template <typename S>
static void mixed(Case &c)
{
    um::Scope sc(c);
    GenCfg g, gi;
    std::vector<std::string> n(pool().begin(), pool().end());
    for (std::size_t i = n.size() - 1u; i > 0u; --i) {
        std::swap(n[i], n[c.rng.below(i + 1u)]);
    }
    g.universe.assign(n.begin(), n.begin() + 4);
    gi.universe.assign(n.begin() + 4, n.begin() + 7);
    g.emin = gi.emin = c.idx % 3 ? 0 : -3;
    g.max_terms = 4;
    gi.max_terms = 4;
    degrees(c, gen_rec<S>(c.rng, g, gi));
    c07::run<S>(c, [&] { return gen_rec<S>(c.rng, g, gi); }, g);
    c08::run<rat_t, S>(c, [&] { return gen_rec<S>(c.rng, g, gi); }, g);
}
VF_WORKLOAD("recursive-own-over-packed", 80, 4000)
{
    mixed<UP>(c);
}
VF_WORKLOAD("recursive-packed-over-own", 80, 4000)
{
    mixed<PU>(c);
}
