#include "c10_hist.hpp"
using namespace vf;
VF_WORKLOAD("container-high-bits-hash-int", 400, 20000)
{
    c10::run<obake::series<hk::hkey<2>, int_t, hk::tag_t>>(c, 40);
}
VF_WORKLOAD("container-dp64x8-rat", 400, 30000)
{
    c10::run<obake::polynomial<dpm_t<std::int64_t, 1>, rat_t>>(c, 40);
}
