#include "c23_work.hpp"

using namespace vf;

using RA = obake::polynomial<pm_t<std::int64_t>, obake::polynomial<pm_t<std::int64_t>, c23::cnt<true, 16>>>;
using RB = obake::polynomial<dpm_t<std::int32_t, 2>, obake::polynomial<dpm_t<std::int32_t, 2>, c23::cnt<false, 1500>>>;

C23_CONV("p64-fma-small", RA, -4, 5)
C23_CONV("d32x2-large", RB, -4, 5)
