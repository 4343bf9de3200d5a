#include "c15_pow.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int32_t, 1>, rat_t>;
using B = obake::p_series<dpm_t<std::int32_t, 3>, rat_t>;
C15_TYPE("d32x1-rat", A)
C15_TYPE("series-d32x3-rat", B)
VF_WORKLOAD("overflowing-d32x3", 60, 2000)
{
    c15::overflowing<A>(c);
}
