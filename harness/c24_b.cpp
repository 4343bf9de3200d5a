#include "usermono.hpp"
#include "c02_large.hpp"
#include "c03_trunc.hpp"
using namespace vf;
using A = obake::polynomial<um::mono<std::int64_t, 0>, int_t>;
using B = obake::polynomial<um::mono<std::int64_t, 7>, int_t>;
using D = obake::polynomial<um::mono<int_t, 5>, rat_t>;
VF_WORKLOAD("large-plain", 6, 300)
{
    um::Scope sc(c);
    c02::product<A, A>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .5);
}
VF_WORKLOAD("large-full", 12, 600)
{
    um::Scope sc(c);
    c02::product<B, B>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .7);
}
VF_WORKLOAD("large-integer", 8, 400)
{
    um::Scope sc(c);
    c02::product<D, D>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .5);
}
VF_WORKLOAD("truncated-large-full", 12, 600)
{
    um::Scope sc(c);
    c03::large<B, B>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .7);
}
VF_WORKLOAD("truncated-large-integer", 8, 400)
{
    um::Scope sc(c);
    c03::large<D, D>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(4)), .5);
}
VF_WORKLOAD("truncated-plain", 150, 8000)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<long, A, A>(c, g);
}
VF_WORKLOAD("truncated-integer", 150, 8000)
{
    um::Scope sc(c);
    GenCfg g;
    g.restrict_syms(c.rng, 6);
    g.emin = c.idx % 2 ? -4 : 0;
    c03::small<long, D, D>(c, g);
}
