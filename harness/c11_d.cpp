#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = dpm_t<std::int64_t, 1>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using PD = obake::polynomial<K, double>;
using PZ = obake::polynomial<K, Z5>;
VF_WORKLOAD("mixed-rat-double", 600, 10000)
{
    mixed<double, PR, PD>(c, cfg(c));
}
VF_WORKLOAD("mixed-int-modular", 900, 15000)
{
    mixed<Z5, PI, PZ>(c, cfg(c));
}
