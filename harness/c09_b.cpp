#include "c09_syms.hpp"
using namespace vf;
VF_WORKLOAD("symbols-p64-int", 1000, 15000)
{
    c09::run<obake::polynomial<pm_t<std::int64_t>, int_t>>(c, {5, 8, c.idx % 2 ? 0 : -3, 4}, true);
}
