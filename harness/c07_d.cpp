#include "c07_calc.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int64_t, 2>, int>;
// The derivative has another type.
VF_WORKLOAD("calc-dp64-cint", 1200, 15000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.huge = false;
    g.emin = c.idx % 3 ? 0 : -3;
    c07::run<A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
