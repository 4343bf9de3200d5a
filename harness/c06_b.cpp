#include "c06_mono.hpp"
using namespace vf;
using K1 = pm_t<std::int32_t>;
using K2 = pm_t<std::uint32_t>;
C06("p32", K1, 10)
C06("pu32", K2, 10)
