#include "c01_arith.hpp"
using namespace vf;
using SD = obake::polynomial<dpm_t<std::int64_t, 2>, int_t>;
VF_WORKLOAD("history-dp64-int", 400, 15000)
{
    GenCfg g;
    g.max_syms = 11;
    g.emin = c.idx % 2 ? -4 : 0;
    c01::history<SD>(c, g, 12);
}
