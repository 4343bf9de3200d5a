#include "c09_syms.hpp"
using namespace vf;
VF_WORKLOAD("symbols-dpu32x1-int", 1000, 15000)
{
    c09::run<obake::polynomial<dpm_t<std::uint32_t, 1>, int_t>>(c, {9, 12, 0, 4}, true);
}
