#include "c03_trunc.hpp"
using namespace vf;
using SB = obake::polynomial<dpm_t<std::int64_t, 2>, int_t>;
using SB2 = obake::polynomial<dpm_t<std::int64_t, 2>, double>;
VF_WORKLOAD("small-d64x4-mixed", 400, 20000)
{
    GenCfg g;
    g.huge = false;
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<long, SB, SB2>(c, g);
}
