#include "c20_num.hpp"
using namespace vf;
C20_TYPE(0)
C20_TYPE(1)
C20_TYPE(2)
C20_TYPE(3)
C20_TYPE(4)
C20_TYPE(5)
C20_TYPE(6)
