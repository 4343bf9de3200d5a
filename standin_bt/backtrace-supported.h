// libbacktrace, as distributed with GCC.
#include "/usr/lib/gcc/x86_64-linux-gnu/13/include/backtrace-supported.h"
