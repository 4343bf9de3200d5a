#include "c14_ps.hpp"
using namespace vf;
using K = dpm_t<std::uint64_t, 2>;
C14_TYPE("du64x2-rat", K, rat_t)
