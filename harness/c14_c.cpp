#include "c14_ps.hpp"
using namespace vf;
using K = pm_t<std::int32_t>;
C14_TYPE("p32-int", K, int_t)
