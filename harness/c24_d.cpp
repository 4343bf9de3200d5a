#include "usermono.hpp"
#include "c09_syms.hpp"
#include "c18_deg.hpp"
using namespace vf;
using A = obake::polynomial<um::mono<std::int64_t, 0>, rat_t>;
using B = obake::polynomial<um::mono<std::int64_t, 5>, int_t>;
VF_WORKLOAD("symbols-plain", 200, 8000)
{
    um::Scope sc(c);
    c09::run<A>(c, {14, 8, c.idx % 2 ? 0 : -3, 4}, true);
}
VF_WORKLOAD("symbols-full", 150, 5000)
{
    um::Scope sc(c);
    c09::run<B>(c, {14, 8, c.idx % 2 ? 0 : -3, 4}, true);
}
