#include "c03_trunc.hpp"
using namespace vf;
using SC = obake::polynomial<pm_t<std::uint64_t>, rat_t>;
VF_WORKLOAD("large-pu64-rat", 20, 800)
{
    c03::large<SC, SC>(c, 0, 2 + c.rng.below(4), .7);
}
VF_WORKLOAD("small-pu64-rat", 300, 15000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    c03::small<unsigned long, SC, SC>(c, g);
}
