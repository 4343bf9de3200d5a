#include <tbb/vf_tbb.h>
