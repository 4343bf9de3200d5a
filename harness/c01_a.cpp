#include "c01_arith.hpp"
using namespace vf;
using SA = obake::polynomial<pm_t<std::int64_t>, rat_t>;
VF_WORKLOAD("history-p64-rat", 500, 20000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c01::history<SA>(c, g, 14);
}
VF_WORKLOAD("laws-p64-rat", 200, 5000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c01::laws<SA>(c, g);
}
