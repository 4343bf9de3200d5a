#include "c08_eval.hpp"
using namespace vf;
using B = obake::polynomial<dpm_t<std::int32_t, 1>, double>;
VF_WORKLOAD("eval-dp32-double", 1200, 20000)
{
    GenCfg g;
    g.max_syms = 5;
    g.huge = false;
    g.emin = c.idx % 3 ? 0 : -3;
    c08::run<double, B>(c, [&] { return gen_poly<B>(c.rng, g); }, g);
}
using C = obake::polynomial<pm_t<std::uint64_t>, rat_t>;
VF_WORKLOAD("eval-pu64-rat", 800, 15000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    c08::run<rat_t, C>(c, [&] { return gen_poly<C>(c.rng, g); }, g);
}
