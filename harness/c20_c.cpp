#include "c20_num.hpp"
using namespace vf;
C20_ALL(0, 1)
C20_ALL(1, 8)
C20_ALL(2, 8)
C20_ALL(3, 8)
C20_ALL(4, 16)
C20_ALL(5, 16)
VF_WORKLOAD("multiprecision", 300, 12000)
{
    constexpr auto seq = std::make_index_sequence<c20::NT>{};
    for (int k = 0; k < 10; ++k) {
        mpz_class z = c20::to_z(c.rng.chance(1, 2) ? c20::gen_num<i128>(c.rng) : static_cast<i128>(c20::gen_num<long>(c.rng)));
        if (c.rng.chance(1, 8)) {
            z *= z;
        }
        const long den = c.rng.chance(1, 2) ? 1 : c.rng.range(1, 6);
        if (c.rng.chance(1, 2)) {
            z *= den;
        }
        c20::from_mp(c, z, den, seq);
        c.seen(cat(z.get_str(), "/", den));
    }
    c20::mp_ops<int_t>(c);
    c20::mp_ops<rat_t>(c);
    c20::fp(c);
}
