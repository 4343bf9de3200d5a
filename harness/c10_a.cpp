#include "c10_hist.hpp"
using namespace vf;
VF_WORKLOAD("container-p64-int", 500, 30000)
{
    c10::run<obake::polynomial<pm_t<std::int64_t>, int_t>>(c, 40);
}
VF_WORKLOAD("container-dpu32x3-double", 400, 30000)
{
    c10::run<obake::polynomial<dpm_t<std::uint32_t, 3>, double>>(c, 40);
}
