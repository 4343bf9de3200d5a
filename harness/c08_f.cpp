#include "c08_eval.hpp"
using namespace vf;
using I = obake::polynomial<pm_t<std::int64_t>, rat_t>;
using A = obake::polynomial<pm_t<std::int64_t>, I>;
// Substitution into both levels of a recursive polynomial.
VF_WORKLOAD("subs-recursive", 600, 6000)
{
    GenCfg g, gi;
    g.restrict_syms(c.rng, 3);
    g.max_syms = 2;
    g.emax = 2;
    g.max_terms = 4;
    gi = g;
    gi.max_terms = 2;
    c08::subs_poly<A, I>(c, [&] { return gen_rec<A>(c.rng, g, gi); }, [&] { return gen_poly<I>(c.rng, gi); }, g);
}
