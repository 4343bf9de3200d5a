#include "c13_ser.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
using B = obake::polynomial<dpm_t<std::uint64_t, 3>, int_t>;
C13_TYPE("p64-rat", A, 20, 6)
C13_TYPE("du64x3-int", B, 20, 12)
