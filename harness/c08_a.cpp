#include "c08_eval.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
VF_WORKLOAD("eval-p64-rat", 1600, 30000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.emin = c.idx % 3 ? 0 : -3;
    c08::run<rat_t, A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
VF_WORKLOAD("eval-p64-rat-at-int", 800, 15000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    c08::run<int_t, A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
