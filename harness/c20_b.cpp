#include "c20_num.hpp"
using namespace vf;
C20_TYPE(7)
C20_TYPE(8)
C20_TYPE(9)
C20_TYPE(10)
C20_TYPE(11)
C20_TYPE(12)
C20_TYPE(13)
