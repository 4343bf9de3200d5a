#include "c19_print.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, int_t>;
C19_TYPE("p64-int", 1200, A)
using B = obake::polynomial<pm_t<std::int32_t>, rat_t>;
C19_TYPE("p32-rat", 1200, B)
using D = obake::polynomial<pm_t<std::uint64_t>, rat_t>;
C19_TYPE("pu64-rat", 800, D)
