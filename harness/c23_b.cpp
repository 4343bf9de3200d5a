#include "c23_work.hpp"

using namespace vf;

using A = obake::polynomial<dpm_t<std::int64_t, 2>, c23::cnt<false, 16>>;
using B = obake::polynomial<dpm_t<std::uint32_t, 3>, c23::cnt<true, 1500>>;

C23_TYPE("d64x2-small", A, -4, 5)
C23_TYPE("du32x3-fma-large", B, 0, 5)
