#include "c01_arith.hpp"
using namespace vf;
using SB = obake::polynomial<pm_t<std::uint32_t>, int_t>;
VF_WORKLOAD("history-pu32-int", 400, 15000)
{
    GenCfg g;
    // NOTE: 3 symbols leave 10 bits per exponent.
    g.restrict_syms(c.rng, 3);
    g.max_syms = 2;
    g.emax = 4;
    g.max_terms = 12;
    c01::history<SB>(c, g, 12);
}
