#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = dpm_t<std::int32_t, 1>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using RI = obake::polynomial<K, PI>;
using RR = obake::polynomial<K, PR>;
VF_WORKLOAD("conversions-recursive", 3600, 50000)
{
    const auto g = cfg(c);
    switch (c.idx % 8) {
        case 0:
            return convert<RI, PI>(c, g);
        case 1:
            return convert<PI, RI>(c, g);
        case 2:
            return convert<RR, RI>(c, g);
        case 3:
            return convert<RI, RR>(c, g);
        case 4:
            return convert<RI, PR>(c, g);
        case 5:
            return convert<PI, RR>(c, g);
        case 6:
            return convert<PR, RI>(c, g);
        default:
            return convert<RR, PR>(c, g);
    }
}
VF_WORKLOAD("scalars-recursive", 1200, 20000)
{
    const auto g = cfg(c);
    switch (c.idx % 3) {
        case 0:
            return scalars<RR, int_t>(c, g);
        case 1:
            return scalars<RI, rat_t>(c, g);
        default:
            return scalars<RI, int>(c, g);
    }
}
