#include "c02_large.hpp"
using namespace vf;
using SB = obake::polynomial<dpm_t<std::int64_t, 1>, rat_t>;
VF_WORKLOAD("large-d64x1-rat", 16, 800)
{
    c02::product<SB, SB>(c, c.idx % 2 ? -1 : 0, 2 + c.rng.below(5), .7);
}
