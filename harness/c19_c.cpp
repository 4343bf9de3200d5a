#include "c19_print.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 2>, rat_t>>;
C19_TYPE("recursive", 2000, A)
using B = obake::polynomial<dpm_t<std::int32_t, 2>, obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 4>, int_t>>>;
C19_TYPE("recursive-three", 2000, B)
using D = obake::polynomial<dpm_t<std::int64_t, 2>, obake::p_series<pm_t<std::int64_t>, int_t>>;
C19_TYPE("over-series", 1200, D)
