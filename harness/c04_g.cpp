#include "c04_overflow.hpp"
using namespace vf;
using K = dpm_t<std::int32_t, 2>;
C04_TYPE("d32x2", K, rat_t, 6, false)
