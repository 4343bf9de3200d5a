#include "c13_ser.hpp"
using namespace vf;
using A = obake::p_series<dpm_t<std::int32_t, 3>, rat_t>;
using B = obake::p_series<pm_t<std::int64_t>, int_t>;
C13_TYPE("series-d32x3-rat", A, 20, 7)
C13_TYPE("series-p64-int", B, 20, 5)
VF_WORKLOAD("symbols-series", 300, 10000)
{
    c13::weird_symbols<A>(c);
}
