#include "c15_pow.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, int_t>;
using B = obake::p_series<pm_t<std::int64_t>, int_t>;
C15_TYPE("p64-int", A)
C15_TYPE("series-p64-int", B)
VF_WORKLOAD("cancelled", 40, 600)
{
    c15::cancelled<A>(c);
}
VF_WORKLOAD("tasks", 16, 300)
{
    c15::tasks<A>(c);
}
VF_WORKLOAD("overflowing-p64", 60, 2000)
{
    c15::overflowing<A>(c);
}
