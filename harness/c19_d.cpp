#include "c19_print.hpp"
using namespace vf;
using A = obake::p_series<dpm_t<std::int64_t, 2>, rat_t>;
C19_TYPE("series-d64x2-rat", 1200, A)
using B = obake::p_series<pm_t<std::int64_t>, int_t>;
C19_TYPE("series-p64-int", 1200, B)
