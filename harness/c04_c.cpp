#include "c04_overflow.hpp"
using namespace vf;
using K = pm_t<std::int32_t>;
C04_TYPE("p32", K, rat_t, 6, true)
