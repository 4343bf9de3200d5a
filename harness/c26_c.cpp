// Functions of the series of a user.
#include "c26_math.hpp"

using namespace c26;

VF_WORKLOAD("series-1", 200, 4000)
{
    math1<Ser>(c);
    c.sample("is_zero, negate, degree, p_degree, trim, byte_size, hash");
}
VF_WORKLOAD("series-2", 200, 4000)
{
    math2<Ser>(c);
    c.sample("diff, integrate, evaluate, subs, truncate_degree, truncate_p_degree, pow");
}
VF_WORKLOAD("series-3", 200, 4000)
{
    math3<Ser>(c);
    c.sample("fma3, safe_convert, tex_stream_insert, cf_stream_insert, cf_tex_stream_insert");
}
