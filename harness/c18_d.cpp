#include "c18_deg.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 2>, rat_t>>;
C18_TYPE("recursive", 600, A)
using B = obake::polynomial<dpm_t<std::int32_t, 2>, obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 4>, int_t>>>;
C18_TYPE("recursive-three", 600, B)
