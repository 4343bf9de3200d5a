#include "usermono.hpp"
#include "c14_ps.hpp"
using namespace vf;
using KA = um::mono<std::int64_t, 0>;
using KB = um::mono<std::int64_t, 7>;
template <typename K>
static void ps(Case &c)
{
    um::Scope sc(c);
    c14::history<obake::p_series<K, rat_t>> h(c);
    h.run(20);
    c14::make<obake::p_series<K, rat_t>>(c);
}
VF_WORKLOAD("series-plain", 80, 3000)
{
    ps<KA>(c);
}
VF_WORKLOAD("series-full", 80, 3000)
{
    ps<KB>(c);
}
VF_WORKLOAD("series-large-full", 4, 150)
{
    um::Scope sc(c);
    c14::large<obake::p_series<KB, rat_t>>(c);
}
