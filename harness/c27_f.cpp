#include "c27_check.hpp"
using namespace vf;
using D1 = dpm_t<std::int64_t, 8>;
using D2 = dpm_t<std::int32_t, 1>;
using D3 = dpm_t<std::uint64_t, 3>;
C27_CHECK("d64_8", D1)
C27_CHECK("d32_1", D2)
C27_CHECK("du64_3", D3)
