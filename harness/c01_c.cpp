#include "c01_arith.hpp"
using namespace vf;
using SC = obake::polynomial<dpm_t<std::int32_t, 1>, double>;
VF_WORKLOAD("history-dp32-double", 400, 15000)
{
    GenCfg g;
    g.max_syms = 9;
    g.emin = c.idx % 2 ? -4 : 0;
    c01::history<SC>(c, g, 12);
}
