#include "c17_par.hpp"
using namespace vf;
using S = obake::polynomial<dpm_t<std::int32_t, 2>, c12::tc>;
VF_WORKLOAD("products-d32x2", 240, 8000)
{
    c17::products<S, S>(c, c.idx % 2 ? -4 : 0);
}
VF_WORKLOAD("together-d32x2", 100, 3000)
{
    c17::together<S>(c);
}
