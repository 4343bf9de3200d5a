#include "c03_trunc.hpp"
using namespace vf;
using SA = obake::polynomial<pm_t<std::int64_t>, int_t>;
VF_WORKLOAD("large-p64-int", 24, 1200)
{
    c03::large<SA, SA>(c, c.idx % 2 ? -1 : 0, 2 + c.rng.below(4), .9);
}
VF_WORKLOAD("small-p64-int", 400, 20000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<long, SA, SA>(c, g);
}
VF_WORKLOAD("heavy-p64-int", 12, 300)
{
    c03::heavy<SA>(c, c.idx % 2 ? -1 : 0, 1 + c.rng.below(4));
}
