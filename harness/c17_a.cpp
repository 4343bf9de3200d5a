#include "c17_par.hpp"
namespace c12
{
thread_local long alloc_countdown = 0;
thread_local long alloc_ticks = 0;
thread_local long outstanding = 0;
} // namespace c12
using namespace vf;
using S = obake::polynomial<pm_t<std::int64_t>, c12::tc>;
VF_WORKLOAD("products-p64", 300, 8000)
{
    c17::products<S, S>(c, c.idx % 2 ? -4 : 0);
}
VF_WORKLOAD("failing-p64", 100, 3000)
{
    c17::failing<S>(c);
}
