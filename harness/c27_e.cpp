#include "c27_check.hpp"
using namespace vf;
using P64 = pm_t<std::int64_t>;
using PU32 = pm_t<std::uint32_t>;
C27_CHECK("p64", P64)
C27_CHECK("pu32", PU32)
