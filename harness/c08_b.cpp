#include "c08_eval.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int64_t, 2>, int_t>;
VF_WORKLOAD("eval-dp64-int", 1200, 20000)
{
    GenCfg g;
    g.max_syms = 10;
    c08::run<int_t, A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
VF_WORKLOAD("eval-dp64-int-at-rat", 800, 15000)
{
    GenCfg g;
    g.max_syms = 10;
    g.emin = c.idx % 2 ? 0 : -3;
    c08::run<rat_t, A>(c, [&] { return gen_poly<A>(c.rng, g); }, g);
}
