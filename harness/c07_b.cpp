#include "c07_calc.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int64_t, 2>, int_t>;
VF_WORKLOAD("calc-dp64-int", 2000, 30000)
{
    GenCfg g;
    g.max_syms = 10;
    g.emin = c.idx % 3 ? 0 : -3;
    c07::run<A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
using B = obake::polynomial<dpm_t<std::int32_t, 1>, double>;
VF_WORKLOAD("calc-dp32-double", 1200, 20000)
{
    GenCfg g;
    g.max_syms = 7;
    g.huge = false;
    g.emin = c.idx % 3 ? 0 : -3;
    c07::run<B>(c, [&] { return gen_poly<B>(c.rng, g); }, g);
}
