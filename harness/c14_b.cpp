#include "c14_ps.hpp"
using namespace vf;
using K = dpm_t<std::int32_t, 1>;
C14_TYPE("d32x1-rat", K, rat_t)
