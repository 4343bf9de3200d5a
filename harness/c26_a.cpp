// Functions of the keys and of the monomials.
#include "c26_points.hpp"

using namespace c26;

namespace
{
struct Env {
    obake::symbol_set ss{"a", "x"};
    obake::symbol_idx_set si{0, 1};
    obake::symbol_idx idx = 1;
    obake::symbol_idx_map<double> sm{{0, 1.5}};
    obake::symbol_idx_map<obake::symbol_set> im{{1, obake::symbol_set{"b"}}};
    std::vector<int> v{1, 0};
    std::ostringstream os_;
    std::ostream &os = os_;
    int n = 3;
};
} // namespace

VF_WORKLOAD("keys", 200, 4000)
{
    Env e;
    const auto ss = at(e.ss, 1);
    point<P_key_is_compatible, KBool, Obj>(c, "key_is_compatible", C26_F(obake::key_is_compatible(C26_X, e.ss)), {}, {ss});
    point<P_key_degree, KRes, Obj>(c, "key_degree", C26_F(obake::key_degree(C26_X, e.ss)), {}, {ss});
    point<P_key_p_degree, KRes, Obj>(c, "key_p_degree", C26_F(obake::key_p_degree(C26_X, e.si, e.ss)), {}, {at(e.si, 1), ss});
    point<P_key_evaluate, KRes, Obj>(c, "key_evaluate", C26_F(obake::key_evaluate(C26_X, e.sm, e.ss)), {}, {at(e.sm, 1), ss});
    point<P_key_is_zero, KBool, Obj>(c, "key_is_zero", C26_F(obake::key_is_zero(C26_X, e.ss)), {}, {ss});
    point<P_key_is_one, KBool, Obj>(c, "key_is_one", C26_F(obake::key_is_one(C26_X, e.ss)), {}, {ss});
    point<P_key_stream_insert, KVoid, Obj>(c, "key_stream_insert", C26_F(obake::key_stream_insert(e.os, C26_X, e.ss)), {at(e.os, 0)}, {ss});
    point<P_key_tex_stream_insert, KVoid, Obj>(c, "key_tex_stream_insert", C26_F(obake::key_tex_stream_insert(e.os, C26_X, e.ss)), {at(e.os, 0)}, {ss});
    point<P_key_trim, KSame, Obj>(c, "key_trim", C26_F(obake::key_trim(C26_X, e.si, e.ss)), {}, {at(e.si, 1), ss});
    point<P_key_merge_symbols, KSame, Obj>(c, "key_merge_symbols", C26_F(obake::key_merge_symbols(C26_X, e.im, e.ss)), {}, {at(e.im, 1), ss});
    point<P_key_trim_identify, KVoid, Obj>(c, "key_trim_identify", C26_F(obake::key_trim_identify(e.v, C26_X, e.ss)), {at(e.v, 0)}, {ss});
    c.sample("keys");
}

VF_WORKLOAD("monomials", 200, 4000)
{
    Env e;
    const auto ss = at(e.ss, 1);
    const int k = 2;
    Obj<0, 0> o, o2;
    point<P_monomial_integrate, KPair, Obj>(c, "monomial_integrate", C26_F(obake::monomial_integrate(C26_X, e.idx, e.ss)), {}, {at(e.idx, 1), ss});
    point<P_monomial_diff, KPair, Obj>(c, "monomial_diff", C26_F(obake::monomial_diff(C26_X, e.idx, e.ss)), {}, {at(e.idx, 1), ss});
    point<P_monomial_subs, KPair, Obj>(c, "monomial_subs", C26_F(obake::monomial_subs(C26_X, e.sm, e.ss)), {}, {at(e.sm, 1), ss});
    point<P_monomial_pow, KSame, Obj>(c, "monomial_pow", C26_F(obake::monomial_pow(C26_X, std::move(e.n), e.ss)), {}, {at(e.n, 2), ss});
    point<P_monomial_pow, KSame, Obj>(c, "monomial_pow (const)", C26_F(obake::monomial_pow(C26_X, k, e.ss)), {}, {at(k, 1), ss});
    point<P_monomial_range_overflow_check, KBool, Obj>(c, "monomial_range_overflow_check (first)", C26_F(obake::monomial_range_overflow_check(C26_X, o, e.ss)), {}, {at(o, 0), ss});
    point<P_monomial_range_overflow_check, KBool, Obj>(c, "monomial_range_overflow_check (second)", C26_F(obake::monomial_range_overflow_check(std::as_const(o), C26_X, e.ss)), {at(o, 1)}, {ss});
    point<P_monomial_mul, KVoid, Obj>(c, "monomial_mul (first)", C26_F(obake::monomial_mul(C26_X, std::move(o), std::as_const(o2), e.ss)), {}, {at(o, 2), at(o2, 1), ss});
    point<P_monomial_mul, KVoid, Obj>(c, "monomial_mul (second)", C26_F(obake::monomial_mul(o, C26_X, std::as_const(o2), e.ss)), {at(o, 0)}, {at(o2, 1), ss});
    point<P_monomial_mul, KVoid, Obj>(c, "monomial_mul (third)", C26_F(obake::monomial_mul(o, std::move(o2), C26_X, e.ss)), {at(o, 0), at(o2, 2)}, {ss});
    c.sample("monomials");
}
