#include "c06_mono.hpp"
using namespace vf;
using K1 = dpm_t<std::int64_t, 1>;
using K2 = dpm_t<std::uint64_t, 8>;
C06("d64x1", K1, 12)
C06("du64x8", K2, 20)
