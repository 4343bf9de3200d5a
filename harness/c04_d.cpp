#include "c04_overflow.hpp"
using namespace vf;
using K = pm_t<std::uint32_t>;
C04_TYPE("pu32", K, rat_t, 6, true)
