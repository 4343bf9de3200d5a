#include "c02_large.hpp"
using namespace vf;
using SA = obake::polynomial<pm_t<std::int64_t>, int_t>;
VF_WORKLOAD("large-p64-int", 24, 1200)
{
    c02::product<SA, SA>(c, c.idx % 2 ? -1 : 0, 2 + c.rng.below(4), 1);
}
VF_WORKLOAD("heavy-p64-int", 12, 300)
{
    c02::heavy<SA>(c, c.idx % 2 ? -1 : 0, 1 + c.rng.below(4));
}
