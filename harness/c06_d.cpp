#include "c06_mono.hpp"
using namespace vf;
using K1 = dpm_t<std::int32_t, 3>;
using K2 = dpm_t<std::uint32_t, 2>;
using K3 = dpm_t<std::int64_t, 21>;
C06("d32x3", K1, 14)
C06("du32x2", K2, 12)
C06("d64x21", K3, 24)
