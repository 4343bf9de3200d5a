#include "c16_conc.hpp"
using namespace vf;
using A = obake::p_series<dpm_t<std::int64_t, 3>, rat_t>;
C16_TYPE("series-d64x3-rat", A)
