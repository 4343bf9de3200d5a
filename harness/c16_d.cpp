#include "c16_conc.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<dpm_t<std::int64_t, 2>, rat_t>>;
C16_TYPE("recursive", A)
