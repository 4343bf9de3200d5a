#include <tbb/vf_tbb.h>

#include "c02_large.hpp"
#include "c03_trunc.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, int_t>;
using B = obake::polynomial<dpm_t<std::uint64_t, 2>, double>;
VF_WORKLOAD("large-p64-int", 24, 600)
{
    tbb::vfd::state().store(c.rng.next());
    c02::product<A, A>(c, c.idx % 2 ? -1 : 0, 2 + static_cast<unsigned>(c.rng.below(3)), 0.4);
}
VF_WORKLOAD("large-truncated-du64x2-double", 24, 600)
{
    tbb::vfd::state().store(c.rng.next());
    c03::large<B, B>(c, 0, 3, 0.4);
}
