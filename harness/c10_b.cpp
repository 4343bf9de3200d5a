#include "c10_hist.hpp"
using namespace vf;
VF_WORKLOAD("container-constant-hash-int", 400, 20000)
{
    c10::run<obake::series<hk::hkey<0>, int_t, hk::tag_t>>(c, 40);
}
VF_WORKLOAD("container-identity-hash-mod5", 500, 30000)
{
    c10::run<obake::series<hk::hkey<1>, zmod<5>, hk::tag_t>>(c, 40);
}
