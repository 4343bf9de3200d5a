#include "c12_exc.hpp"
using namespace vf;
using namespace c12;
using S = obake::polynomial<pm_t<std::int64_t>, tc>;
VF_WORKLOAD("failures-of-coefficients", 400, 8000)
{
    static const auto ops = ring_ops<S>();
    all_ops<S>(c, mode::cf, ops, c.thorough ? 4000 : 300);
}
VF_WORKLOAD("failures-of-allocations", 300, 6000)
{
    static const auto ops = ring_ops<S>();
    all_ops<S>(c, mode::alloc, ops, c.thorough ? 4000 : 300);
}
