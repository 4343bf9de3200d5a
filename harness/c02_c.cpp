#include "c02_large.hpp"
using namespace vf;
using SC1 = obake::polynomial<pm_t<std::uint64_t>, int_t>;
using SC2 = obake::polynomial<pm_t<std::uint64_t>, double>;
VF_WORKLOAD("large-pu64-mixed", 20, 1000)
{
    c02::product<SC1, SC2>(c, 0, 2 + c.rng.below(4), 1);
}
