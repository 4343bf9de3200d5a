#include "c18_deg.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, int_t>;
C18_TYPE("p64-int", 800, A)
using B = obake::polynomial<pm_t<std::int32_t>, rat_t>;
C18_TYPE("p32-rat", 800, B)
