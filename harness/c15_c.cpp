#include "c15_pow.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, double>;
using B = obake::polynomial<dpm_t<std::uint64_t, 2>, int_t>;
C15_TYPE("p64-double", A)
C15_TYPE("du64x2-int", B)
