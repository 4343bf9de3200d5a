#include "c12_exc.hpp"
using namespace vf;
using namespace c12;
using S = obake::polynomial<dpm_t<std::int64_t, 1>, obake::polynomial<dpm_t<std::int64_t, 4>, tc>>;
VF_WORKLOAD("failures-of-coefficients-recursive", 200, 5000)
{
    static const auto ops = ring_ops<S>();
    all_ops<S>(c, mode::cf, ops, c.thorough ? 2000 : 200);
}
VF_WORKLOAD("failures-of-allocations-recursive", 150, 4000)
{
    static const auto ops = ring_ops<S>();
    all_ops<S>(c, mode::alloc, ops, c.thorough ? 2000 : 200);
}
