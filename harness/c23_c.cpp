#include "c23_work.hpp"

using namespace vf;

using A = obake::polynomial<pm_t<std::uint64_t>, c23::cnt<true, 1500>>;
using B = obake::polynomial<dpm_t<std::int32_t, 1>, c23::cnt<false, 1500>>;

C23_TYPE("pu64-fma-large", A, 0, 5)
C23_TYPE("d32x1-large", B, -4, 5)
