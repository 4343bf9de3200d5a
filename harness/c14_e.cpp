#include "c14_ps.hpp"
using namespace vf;
using K = dpm_t<std::int64_t, 1>;
C14_TYPE("d64x1-double", K, double)
