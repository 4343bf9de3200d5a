#include "usermono.hpp"
#include "c07_calc.hpp"
#include "c08_eval.hpp"
using namespace vf;
using A = obake::polynomial<um::mono<std::int64_t, 0>, rat_t>;
using D = obake::polynomial<um::mono<int_t, 5>, rat_t>;
template <typename S>
static void calc(Case &c)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.emin = c.idx % 3 ? 0 : -3;
    c07::run<S>(c, [&] { return gen_poly<S>(c.rng, g); }, g);
}
template <typename S>
static void eval(Case &c)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.emin = c.idx % 3 ? 0 : -3;
    c08::run<rat_t, S>(c, [&] { return gen_poly<S>(c.rng, g); }, g);
}
VF_WORKLOAD("calc-plain", 400, 15000)
{
    calc<A>(c);
}
VF_WORKLOAD("calc-integer", 300, 10000)
{
    calc<D>(c);
}
VF_WORKLOAD("eval-plain", 300, 10000)
{
    eval<A>(c);
}
VF_WORKLOAD("eval-integer", 200, 8000)
{
    eval<D>(c);
}
