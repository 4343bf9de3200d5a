#include "c02_large.hpp"
using namespace vf;
using SD = obake::polynomial<dpm_t<std::uint32_t, 1>, double>;
VF_WORKLOAD("large-du32x1-double", 16, 800)
{
    c02::product<SD, SD>(c, 0, 2 + c.rng.below(4), .8);
}
