#include "usermono.hpp"
#include "c01_arith.hpp"
using namespace vf;
template <typename S>
static void arith(Case &c, bool neg, unsigned steps)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = neg ? -4 : 0;
    c01::history<S>(c, g, steps);
    c01::laws<S>(c, g);
}
using A = obake::polynomial<um::mono<std::int64_t, 0>, rat_t>;
using B = obake::polynomial<um::mono<std::int64_t, 7>, int_t>;
using D = obake::polynomial<um::mono<int_t, 5>, rat_t>;
VF_WORKLOAD("arith-plain", 150, 6000)
{
    arith<A>(c, c.idx % 2, 12);
}
VF_WORKLOAD("arith-full", 150, 6000)
{
    arith<B>(c, c.idx % 2, 12);
}
VF_WORKLOAD("arith-integer", 100, 4000)
{
    arith<D>(c, c.idx % 2, 12);
}
