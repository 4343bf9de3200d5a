#include "c04_overflow.hpp"
using namespace vf;
using K = dpm_t<std::int64_t, 1>;
C04_TYPE("d64x1", K, rat_t, 8, false)
