#include "c23_work.hpp"

using namespace vf;

using PA = obake::p_series<pm_t<std::int64_t>, c23::cnt<true, 16>>;
using PB = obake::p_series<dpm_t<std::int32_t, 2>, c23::cnt<false, 1500>>;
using SI = obake::polynomial<pm_t<std::int64_t>, int_t>;
using SR = obake::polynomial<dpm_t<std::int32_t, 4>, rat_t>;
using SD = obake::p_series<pm_t<std::int64_t>, double>;
using SS = obake::polynomial<pm_t<std::int64_t>, SR>;

C23_PS("ps-p64-fma-small", PA, -4, 5)
C23_PS("ps-d32x2-large", PB, -4, 5)
C23_STORAGE("p64-int", SI, -4, 5)
C23_STORAGE("d32x4-rat", SR, -4, 5)
C23_STORAGE("ps-p64-double", SD, -4, 5)
