#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = pm_t<std::int64_t>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using PD = obake::polynomial<K, double>;
using PZ = obake::polynomial<K, Z5>;
VF_WORKLOAD("mixed-int-rat", 600, 10000)
{
    mixed<rat_t, PI, PR>(c, cfg(c));
}
VF_WORKLOAD("mixed-int-double", 600, 10000)
{
    mixed<double, PI, PD>(c, cfg(c));
}
