#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = pm_t<std::int64_t>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using PD = obake::polynomial<K, double>;
using PZ = obake::polynomial<K, Z5>;
using RI = obake::polynomial<K, PI>;
using RR = obake::polynomial<K, PR>;
VF_WORKLOAD("mixed-recursive", 600, 10000)
{
    mixed<rat_t, RI, RR>(c, cfg(c));
}
VF_WORKLOAD("aliases", 900, 10000)
{
    switch (c.idx % 3) {
        case 0:
            return aliases<PR>(c, cfg(c));
        case 1:
            return aliases<PI>(c, cfg(c));
        default:
            return aliases<RI>(c, cfg(c));
    }
}
