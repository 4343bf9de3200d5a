#include "c13_ser.hpp"
using namespace vf;
using A = obake::series<c13k::key, rat_t, c13k::tag>;
using B = obake::polynomial<dpm_t<std::int64_t, 8>, obake::p_series<pm_t<std::int64_t>, rat_t>>;
C13_TYPE("own-key-and-tag", A, 20, 4)
C13_TYPE("poly-of-series", B, 6, 3)
using P = obake::polynomial<pm_t<std::uint64_t>, int_t>;
VF_WORKLOAD("symbols-poly", 300, 10000)
{
    c13::weird_symbols<P>(c);
}
#define C13_MONO(name, ...)                                                                                            \
    VF_WORKLOAD("mono-" name, 300, 20000)                                                                              \
    {                                                                                                                  \
        c13::monomials<__VA_ARGS__>(c);                                                                                \
    }
C13_MONO("p32", pm_t<std::int32_t>)
C13_MONO("pu32", pm_t<std::uint32_t>)
C13_MONO("p64", pm_t<std::int64_t>)
C13_MONO("pu64", pm_t<std::uint64_t>)
C13_MONO("d32x1", dpm_t<std::int32_t, 1>)
C13_MONO("d32x4", dpm_t<std::int32_t, 4>)
C13_MONO("d64x8", dpm_t<std::int64_t, 8>)
C13_MONO("du64x3", dpm_t<std::uint64_t, 3>)
