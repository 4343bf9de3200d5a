#include "c09_syms.hpp"
using namespace vf;
using I = obake::polynomial<dpm_t<std::int64_t, 4>, rat_t>;
VF_WORKLOAD("symbols-recursive", 600, 8000)
{
    c09::run<obake::polynomial<dpm_t<std::int64_t, 4>, I>>(c, {6, 5, c.idx % 2 ? 0 : -3, 4}, true);
}
