#include "usermono.hpp"
#include "c10_hist.hpp"
#include "c13_ser.hpp"
using namespace vf;
using A = obake::polynomial<um::mono<std::int64_t, 0>, rat_t>;
using D = obake::polynomial<um::mono<std::int64_t, 7>, int_t>;
VF_WORKLOAD("container-plain", 100, 8000)
{
    um::Scope sc(c);
    c10::run<A>(c, 40);
}
VF_WORKLOAD("container-full", 100, 8000)
{
    um::Scope sc(c);
    c10::run<D>(c, 40);
}
VF_WORKLOAD("archives-plain", 60, 3000)
{
    um::Scope sc(c);
    c13::roundtrip<A>(c, 20, 8);
}
VF_WORKLOAD("archives-full", 60, 3000)
{
    um::Scope sc(c);
    c13::roundtrip<D>(c, 20, 8);
}
