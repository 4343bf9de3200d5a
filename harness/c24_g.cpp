#include "usermono.hpp"
#include "c15_pow.hpp"
#include "c19_print.hpp"
using namespace vf;
using A = obake::polynomial<um::mono<std::int64_t, 0>, rat_t>;
using D = obake::polynomial<um::mono<int_t, 5>, int_t>;
VF_WORKLOAD("powers-plain", 50, 2000)
{
    um::Scope sc(c);
    c15::history<A>(c, 20);
}
VF_WORKLOAD("print-plain", 200, 9000)
{
    um::Scope sc(c);
    c19::print<A>(c);
}
VF_WORKLOAD("print-integer", 200, 9000)
{
    um::Scope sc(c);
    c19::print<D>(c);
}
