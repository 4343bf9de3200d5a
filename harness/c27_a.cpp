#include "c27_build.hpp"
using namespace vf;
using P64 = pm_t<std::int64_t>;
using P32 = pm_t<std::int32_t>;
using PU64 = pm_t<std::uint64_t>;
C27_BUILD("p64-ll", P64, long long)
C27_BUILD("p32-int", P32, int)
C27_BUILD("p64-schar", P64, signed char)
