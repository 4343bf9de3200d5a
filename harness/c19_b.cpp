#include "c19_print.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int64_t, 1>, rat_t>;
C19_TYPE("d64x1-rat", 1200, A)
using B = obake::polynomial<dpm_t<std::int32_t, 3>, double>;
C19_TYPE("d32x3-double", 1200, B)
using D = obake::polynomial<dpm_t<std::uint32_t, 2>, int_t>;
C19_TYPE("du32x2-int", 800, D)
