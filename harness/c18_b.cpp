#include "c18_deg.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int64_t, 1>, rat_t>;
C18_TYPE("d64x1-rat", 800, A)
using B = obake::polynomial<dpm_t<std::int32_t, 3>, double>;
C18_TYPE("d32x3-double", 800, B)
