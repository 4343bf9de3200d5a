#include "c18_deg.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::uint64_t>, int_t>;
C18_TYPE("pu64-int", 800, A)
using B = obake::polynomial<dpm_t<std::uint32_t, 1>, int_t>;
C18_TYPE("du32x1-int", 800, B)
