#include "c27_build.hpp"
using namespace vf;
using D1 = dpm_t<std::int64_t, 8>;
using D2 = dpm_t<std::int32_t, 3>;
C27_BUILD("d64_8-ll", D1, long long)
C27_BUILD("d32_3-mp", D2, mppp::integer<1>)
