#include "c04_overflow.hpp"
using namespace vf;
using K = pm_t<std::uint64_t>;
C04_TYPE("pu64", K, rat_t, 8, true)
