// The functions of numbers and series.
#ifndef C26_MATH_HPP
#define C26_MATH_HPP

#include "c26_points.hpp"

namespace c26
{

struct MEnv {
    obake::symbol_set ss{"a", "x"};
    obake::symbol_map<double> sm{{"a", 1.5}};
    std::string s = "x";
    std::ostringstream os_;
    std::ostream &os = os_;
    int n = 3;
    const int k = 2;
    Obj<0, 0> o, o2;
};

template <template <unsigned, unsigned> class T>
void math1(Case &c)
{
    MEnv e;
    constexpr bool ser = is_ser<T<0, 0>>;
    const auto d = [](int x) { return ser ? DLibrary : x; };
    const auto ss = at(e.ss, 1);
    point<P_is_zero, KBool, T>(c, "is_zero", C26_F(obake::is_zero(C26_X)), {}, {}, !ser, d(DEq));
    point<P_negate, KVoid, T>(c, "negate", C26_F(obake::negate(C26_X)), {}, {}, !ser, d(DNeg), true);
    point<P_degree, KRes, T>(c, "degree", C26_F(obake::degree(C26_X)), {}, {}, !ser, d(DNone));
    point<P_p_degree, KRes, T>(c, "p_degree", C26_F(obake::p_degree(C26_X, e.ss)), {}, {ss}, !ser, d(DNone));
    point<P_trim, KSame, T>(c, "trim", C26_F(obake::trim(C26_X)), {}, {}, !ser, d(DCopy));
    point<P_byte_size, KSize, T>(c, "byte_size", C26_F(obake::byte_size(C26_X)), {}, {}, !ser, d(DSize));
    point<P_hash, KSize, T>(c, "hash", C26_F(obake::hash(C26_X)), {}, {}, false, d(DHash));
}

template <template <unsigned, unsigned> class T>
void math2(Case &c)
{
    MEnv e;
    constexpr bool ser = is_ser<T<0, 0>>;
    const auto d = [](int x) { return ser ? DLibrary : x; };
    const auto ss = at(e.ss, 1);
    point<P_diff, KRes, T>(c, "diff", C26_F(obake::diff(C26_X, e.s)), {}, {at(e.s, 1)}, false, d(DNone));
    point<P_integrate, KRes, T>(c, "integrate", C26_F(obake::integrate(C26_X, e.s)), {}, {at(e.s, 1)}, false, d(DNone));
    point<P_evaluate, KRes, T>(c, "evaluate", C26_F(obake::evaluate(C26_X, e.sm)), {}, {at(e.sm, 1)}, !ser, d(DCopy));
    point<P_subs, KRes, T>(c, "subs", C26_F(obake::subs(C26_X, e.sm)), {}, {at(e.sm, 1)}, false, d(DCopy));
    point<P_truncate_degree, KVoid, T>(c, "truncate_degree", C26_F(obake::truncate_degree(C26_X, std::move(e.n))), {}, {at(e.n, 2)}, false, d(DNone));
    point<P_truncate_degree, KVoid, T>(c, "truncate_degree (const)", C26_F(obake::truncate_degree(C26_X, e.k)), {}, {at(e.k, 1)}, false, d(DNone));
    point<P_truncate_p_degree, KVoid, T>(c, "truncate_p_degree", C26_F(obake::truncate_p_degree(C26_X, std::move(e.n), e.ss)), {}, {at(e.n, 2), ss}, false, d(DNone));
    point<P_pow, KRes, T>(c, "pow (base)", C26_F(obake::pow(C26_X, e.n)), {}, {at(e.n, 0)}, !ser, d(DNone));
    point<P_pow, KRes, T>(c, "pow (exponent)", C26_F(obake::pow(std::move(e.n), C26_X)), {at(e.n, 2)}, {}, !ser, d(DNone));
}

template <template <unsigned, unsigned> class T>
void math3(Case &c)
{
    MEnv e;
    constexpr bool ser = is_ser<T<0, 0>>;
    const auto d = [](int x) { return ser ? DLibrary : x; };
    const auto os = at(e.os, 0);
    point<P_fma3, KVoid, T>(c, "fma3 (first)", C26_F(obake::fma3(C26_X, e.o, std::move(e.o2))), {}, {at(e.o, 0), at(e.o2, 2)}, false, d(DNone));
    point<P_fma3, KVoid, T>(c, "fma3 (second)", C26_F(obake::fma3(e.o, C26_X, std::as_const(e.o2))), {at(e.o, 0)}, {at(e.o2, 1)}, false, d(DNone));
    point<P_fma3, KVoid, T>(c, "fma3 (third)", C26_F(obake::fma3(e.o, std::move(e.o2), C26_X)), {at(e.o, 0), at(e.o2, 2)}, {}, false, d(DNone));
    point<P_safe_convert, KBool, T>(c, "safe_convert (to)", C26_F(obake::safe_convert(C26_X, e.n)), {}, {at(e.n, 0)}, false, d(DNone));
    point<P_safe_convert, KBool, T>(c, "safe_convert (from)", C26_F(obake::safe_convert(e.n, C26_X)), {at(e.n, 0)}, {}, false, d(DNone));
    point<P_tex_stream_insert, KVoid, T>(c, "tex_stream_insert", C26_F(obake::tex_stream_insert(e.os, C26_X)), {os}, {}, !ser, d(DStream));
    point<P_cf_stream_insert, KVoid, T>(c, "cf_stream_insert", C26_F(obake::cf_stream_insert(e.os, C26_X)), {os}, {}, !ser, d(DStream));
    point<P_cf_tex_stream_insert, KVoid, T>(c, "cf_tex_stream_insert", C26_F(obake::cf_tex_stream_insert(e.os, C26_X)), {os}, {}, !ser, d(DStream));
}

} // namespace c26

#endif
