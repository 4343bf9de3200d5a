#include "c13_ser.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int32_t, 2>, double>;
using B = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int32_t, 3>, rat_t>>;
C13_TYPE("d32x2-double", A, 20, 7)
C13_TYPE("recursive", B, 6, 3)
