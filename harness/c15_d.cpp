#include "c15_pow.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 1>, rat_t>>;
C15_TYPE("recursive", A)
