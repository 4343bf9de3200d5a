#include "c27_build.hpp"
using namespace vf;
using D1 = dpm_t<std::uint64_t, 4>;
using D2 = dpm_t<std::uint32_t, 1>;
C27_BUILD("du64_4-int", D1, int)
C27_BUILD("du32_1-ull", D2, unsigned long long)
