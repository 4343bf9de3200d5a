#include "c12_exc.hpp"
using namespace vf;
using namespace c12;
using S = obake::polynomial<dpm_t<std::int64_t, 2>, tc>;
VF_WORKLOAD("failures-of-coefficients-poly", 150, 4000)
{
    static const auto ops = poly_ops<S>();
    all_ops<S>(c, mode::cf, ops, c.thorough ? 4000 : 300);
}
VF_WORKLOAD("failures-of-allocations-poly", 150, 4000)
{
    static const auto ops = poly_ops<S>();
    all_ops<S>(c, mode::alloc, ops, c.thorough ? 4000 : 300);
}
