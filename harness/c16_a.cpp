#include "c16_conc.hpp"
using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
C16_TYPE("p64-rat", A)
