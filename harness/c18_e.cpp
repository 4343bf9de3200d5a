#include "c18_deg.hpp"
using namespace vf;
using A = obake::p_series<dpm_t<std::int64_t, 1>, rat_t>;
C18_TYPE("series-d64x1-rat", 600, A)
using B = obake::p_series<pm_t<std::int64_t>, int_t>;
C18_TYPE("series-p64-int", 600, B)
