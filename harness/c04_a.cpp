#include "c04_overflow.hpp"
using namespace vf;
using K = pm_t<std::int64_t>;
C04_TYPE("p64", K, rat_t, 8, true)
