#include "c09_syms.hpp"
using namespace vf;
VF_WORKLOAD("symbols-dp64x8-rat", 1000, 15000)
{
    c09::run<obake::polynomial<dpm_t<std::int64_t, 3>, rat_t>>(c, {14, 8, c.idx % 2 ? 0 : -3, 4}, true);
}
