#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = pm_t<std::int64_t>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using PD = obake::polynomial<K, double>;
using PZ = obake::polynomial<K, Z5>;
VF_WORKLOAD("conversions-flat", 4500, 60000)
{
    const auto g = cfg(c);
    switch (c.idx % 7) {
        case 0:
            return convert<PR, PI>(c, g);
        case 1:
            return convert<PI, PR>(c, g);
        case 2:
            return convert<PI, PD>(c, g);
        case 3:
            return convert<PD, PI>(c, g);
        case 4:
            return convert<PD, PR>(c, g);
        case 5:
            return convert<PR, PD>(c, g);
        default:
            return convert<PZ, PI>(c, g);
    }
}
VF_WORKLOAD("scalars-flat", 2400, 30000)
{
    const auto g = cfg(c);
    switch (c.idx % 8) {
        case 0:
            return scalars<PR, int_t>(c, g);
        case 1:
            return scalars<PI, rat_t>(c, g);
        case 2:
            return scalars<PI, double>(c, g);
        case 3:
            return scalars<PD, int>(c, g);
        case 4:
            return scalars<PD, rat_t>(c, g);
        case 5:
            return scalars<PR, double>(c, g);
        case 6:
            return scalars<PI, int_t>(c, g);
        default:
            return scalars<PZ, int_t>(c, g);
    }
}
