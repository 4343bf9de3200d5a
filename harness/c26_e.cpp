#include "c26_cf.hpp"
using namespace vf;
VF_WORKLOAD("coefficients-explicit", 300, 12000)
{
    c26::coefficients<obake::polynomial<obake::packed_monomial<std::int64_t>, c26n::Hid<1>>>(c);
}
VF_WORKLOAD("coefficients-by-arguments", 300, 12000)
{
    c26::coefficients<obake::polynomial<obake::packed_monomial<std::int64_t>, c26n::Hid<2>>>(c);
}
