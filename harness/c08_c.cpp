#include "c08_eval.hpp"
using namespace vf;
using I = obake::polynomial<pm_t<std::int64_t>, rat_t>;
using A = obake::polynomial<dpm_t<std::int64_t, 4>, I>;
VF_WORKLOAD("eval-recursive", 1200, 15000)
{
    GenCfg g, gi;
    g.restrict_syms(c.rng, 4);
    g.max_syms = 3;
    gi.restrict_syms(c.rng, 4);
    gi.max_syms = 3;
    gi.max_terms = 4;
    if (c.idx % 2) {
        gi.universe = g.universe;
    }
    g.emin = gi.emin = c.idx % 3 ? 0 : -3;
    c08::run<rat_t, A>(c, [&] { return gen_rec<A>(c.rng, g, gi); }, g);
}
