#include "c06_mono.hpp"
using namespace vf;
using K1 = pm_t<std::int64_t>;
using K2 = pm_t<std::uint64_t>;
C06("p64", K1, 21)
C06("pu64", K2, 21)
