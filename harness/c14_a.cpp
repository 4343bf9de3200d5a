#include "c14_ps.hpp"
using namespace vf;
using K = pm_t<std::int64_t>;
C14_TYPE("p64-rat", K, rat_t)
