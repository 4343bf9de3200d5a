// Operators of the series of a user.
#include "c26_points.hpp"

using namespace c26;

namespace
{
struct SEnv {
    double n = 1.5;
    const double k = 2.5;
    Ser<0, 0> s, s2;
    std::ostringstream os_;
    std::ostream &os = os_;
};
} // namespace

VF_WORKLOAD("operators-1", 200, 4000)
{
    SEnv e;
    point<P_series_add, KRes, Ser>(c, "+ number", C26_F(C26_X + e.n), {}, {at(e.n, 0)}, false, DLibrary);
    point<P_series_add, KRes, Ser>(c, "number +", C26_F(std::move(e.n) + C26_X), {at(e.n, 2)}, {}, false, DLibrary);
    point<P_series_add, KRes, Ser>(c, "+ series", C26_F(C26_X + std::move(e.s)), {}, {at(e.s, 2)}, false, DLibrary);
    point<P_series_add, KRes, Ser>(c, "series_add", C26_F(obake::series_add(e.k, C26_X)), {at(e.k, 1)}, {}, false, DLibrary);
    point<P_series_sub, KRes, Ser>(c, "- number", C26_F(C26_X - e.k), {}, {at(e.k, 1)}, false, DLibrary);
    point<P_series_sub, KRes, Ser>(c, "number -", C26_F(e.n - C26_X), {at(e.n, 0)}, {}, false, DLibrary);
    point<P_series_sub, KRes, Ser>(c, "series -", C26_F(std::as_const(e.s) - C26_X), {at(e.s, 1)}, {}, false, DLibrary);
    point<P_series_mul, KRes, Ser>(c, "* number", C26_F(C26_X * std::move(e.n)), {}, {at(e.n, 2)}, false, DLibrary);
    point<P_series_mul, KRes, Ser>(c, "number *", C26_F(e.k * C26_X), {at(e.k, 1)}, {}, false, DLibrary);
    point<P_series_mul, KRes, Ser>(c, "* series", C26_F(C26_X * e.s), {}, {at(e.s, 0)}, false, DLibrary);
    point<P_series_div, KRes, Ser>(c, "/ number", C26_F(C26_X / e.n), {}, {at(e.n, 0)}, false, DLibrary);
    point<P_series_div, KRes, Ser>(c, "number /", C26_F(e.k / C26_X), {at(e.k, 1)}, {}, false, DLibrary);
    point<P_series_div, KRes, Ser>(c, "/ series", C26_F(C26_X / std::move(e.s)), {}, {at(e.s, 2)}, false, DLibrary);
    c.sample("+ - * /");
}
VF_WORKLOAD("operators-2", 200, 4000)
{
    SEnv e;
    point<P_series_equal_to, KBool, Ser>(c, "== number", C26_F(C26_X == e.n), {}, {at(e.n, 0)}, false, DLibrary);
    point<P_series_equal_to, KBool, Ser>(c, "== series", C26_F(C26_X == std::as_const(e.s)), {}, {at(e.s, 1)}, false, DLibrary);
    point<P_series_equal_to, KBool, Ser>(c, "number ==", C26_F(e.k == C26_X), {at(e.k, 1)}, {}, false, DLibrary);
    point<P_series_equal_to, KBool, Ser>(c, "!= number", C26_F(!(C26_X != e.n)), {}, {at(e.n, 0)}, false, DLibrary);
    point<P_series_equal_to, KBool, Ser>(c, "series !=", C26_F(!(e.s != C26_X)), {at(e.s, 0)}, {}, false, DLibrary);
    point<P_series_in_place_add, KSelf, Ser>(c, "+= number", C26_F(C26_X += e.n), {}, {at(e.n, 0)}, false, DLibrary);
    point<P_series_in_place_add, KSelf, Ser>(c, "+= series", C26_F(C26_X += std::move(e.s)), {}, {at(e.s, 2)}, false, DLibrary);
    point<P_series_in_place_sub, KSelf, Ser>(c, "-= number", C26_F(C26_X -= e.k), {}, {at(e.k, 1)}, false, DLibrary);
    point<P_series_in_place_sub, KSelf, Ser>(c, "-= series", C26_F(C26_X -= e.s), {}, {at(e.s, 0)}, false, DLibrary);
    point<P_series_stream_insert, KVoid, Ser>(c, "<<", C26_F(void(e.os << C26_X)), {at(e.os, 0)}, {}, false, DLibrary);
    point<P_series_stream_insert, KVoid, Ser>(c, "series_stream_insert", C26_F(obake::series_stream_insert(e.os, C26_X)), {at(e.os, 0)}, {}, false, DLibrary);
    c.sample("== != += -= <<");
}
