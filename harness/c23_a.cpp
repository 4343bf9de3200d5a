#include "c23_work.hpp"

using namespace vf;

template <bool F, unsigned B>
using P = obake::polynomial<pm_t<std::int32_t>, c23::cnt<F, B>>;
using A = P<true, 16>;
using B = P<false, 1500>;

C23_TYPE("p32-fma-small", A, -4, 5)
C23_TYPE("p32-large", B, -4, 5)
