#include "c26_key.hpp"
using namespace vf;
VF_WORKLOAD("keys-explicit", 400, 8000)
{
    c26::keys<c26k::UK<1, true>>(c, c.rng.chance(1, 3));
}
VF_WORKLOAD("keys-by-arguments", 400, 8000)
{
    c26::keys<c26k::UK<2, true>>(c, c.rng.chance(1, 3));
}
VF_WORKLOAD("keys-with-other-hash", 200, 4000)
{
    c26::keys<c26k::UK<2, false>>(c, c.rng.chance(1, 3));
}
