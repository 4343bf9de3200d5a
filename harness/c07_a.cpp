#include "c07_calc.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
VF_WORKLOAD("calc-p64-rat", 2000, 30000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.emin = c.idx % 3 ? 0 : -3;
    c07::run<A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
using B = obake::polynomial<pm_t<std::uint32_t>, rat_t>;
VF_WORKLOAD("calc-pu32-rat", 1200, 20000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 3);
    g.max_syms = 2;
    g.max_terms = 30;
    c07::run<B>(c, [&] { return gen_poly<B>(c.rng, g); }, g);
}
