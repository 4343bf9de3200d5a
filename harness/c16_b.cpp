#include "c16_conc.hpp"
using namespace vf;
using A = obake::polynomial<dpm_t<std::int32_t, 2>, int_t>;
C16_TYPE("d32x2-int", A)
