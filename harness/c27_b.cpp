#include "c27_build.hpp"
using namespace vf;
using PU64 = pm_t<std::uint64_t>;
using PU32 = pm_t<std::uint32_t>;
using P32 = pm_t<std::int32_t>;
C27_BUILD("pu64-ull", PU64, unsigned long long)
C27_BUILD("pu32-ll", PU32, long long)
C27_BUILD("p32-mp", P32, mppp::integer<1>)
