#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = pm_t<std::int64_t>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using RI = obake::polynomial<K, PI>;
using RR = obake::polynomial<K, PR>;
VF_WORKLOAD("mixed-ranks", 600, 10000)
{
    mixed<rat_t, PI, RR>(c, cfg(c));
}
VF_WORKLOAD("mixed-ranks-2", 600, 10000)
{
    mixed<rat_t, PR, RI>(c, cfg(c));
}
