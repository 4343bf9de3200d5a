#include "c08_eval.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
VF_WORKLOAD("subs-p64-rat", 800, 10000)
{
    GenCfg g, gv;
    g.restrict_syms(c.rng, 4);
    g.emax = 3;
    gv = g;
    gv.max_terms = 3;
    gv.max_syms = 2;
    gv.emax = 2;
    c08::subs_poly<A, A>(c, [&] { return gen_poly<A>(c.rng, g); }, [&] { return gen_poly<A>(c.rng, gv); }, g);
}
using B = obake::polynomial<dpm_t<std::int64_t, 3>, int_t>;
VF_WORKLOAD("subs-dp64-int", 800, 10000)
{
    GenCfg g, gv;
    g.max_syms = 9;
    g.emax = 3;
    gv = g;
    gv.max_terms = 3;
    gv.max_syms = 2;
    gv.emax = 2;
    c08::subs_poly<B, B>(c, [&] { return gen_poly<B>(c.rng, g); }, [&] { return gen_poly<B>(c.rng, gv); }, g);
}
