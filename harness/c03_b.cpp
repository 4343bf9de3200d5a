#include "c03_trunc.hpp"
using namespace vf;
using SB = obake::polynomial<dpm_t<std::int64_t, 4>, double>;
VF_WORKLOAD("large-d64x4-double", 24, 800)
{
    c03::large<SB, SB>(c, c.idx % 2 ? -1 : 0, 2 + c.rng.below(5), .7);
}
