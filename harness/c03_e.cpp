#include "c03_trunc.hpp"
using namespace vf;
using SE = obake::polynomial<pm_t<std::int32_t>, int_t>;
VF_WORKLOAD("small-p32-int-limit", 300, 15000)
{
    GenCfg g;
    g.restrict_syms(c.rng, 4);
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<int, SE, SE>(c, g);
}
