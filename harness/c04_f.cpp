#include "c04_overflow.hpp"
using namespace vf;
using K = dpm_t<std::uint64_t, 1>;
C04_TYPE("du64x1", K, rat_t, 8, false)
