// Functions of the numbers of a user.
#include "c26_math.hpp"

using namespace c26;

VF_WORKLOAD("numbers-1", 200, 4000)
{
    math1<Obj>(c);
    c.sample("is_zero, negate, degree, p_degree, trim, byte_size, hash");
}
VF_WORKLOAD("numbers-2", 200, 4000)
{
    math2<Obj>(c);
    c.sample("diff, integrate, evaluate, subs, truncate_degree, truncate_p_degree, pow");
}
VF_WORKLOAD("numbers-3", 200, 4000)
{
    math3<Obj>(c);
    c.sample("fma3, safe_convert, tex_stream_insert, cf_stream_insert, cf_tex_stream_insert");
}
VF_WORKLOAD("assignments", 200, 4000)
{
    // Conversions between objects of one type are assignments.
    Obj<0, 0> a, b;
    b.id = static_cast<long>(c.rng.range(-9, 9));
    const auto id = b.id;
    calls.clear();
    c.check(obake::safe_convert(a, b) && a.id == id && !a.moved && b.id == id, "assignment");
    Obj<0, 0> d;
    c.check(obake::safe_convert(d, std::move(b)) && d.id == id && d.moved == 1, "assignment of an rvalue");
    const auto e = obake::safe_cast<Obj<0, 0>>(d);
    c.check(e.id == id && calls.empty(), "cast");
    c.event("calls of defaults", 3);
    // A cast is a conversion to a new object, and throws if this is refused.
    Obj<2, 0> f;
    calls.clear();
    next_id = static_cast<long>(c.rng.range(0, 1));
    const bool ok = next_id % 2 != 0;
    try {
        auto g = obake::safe_cast<int>(f);
        (void)g;
        c.check(ok, "cast: no exception");
    } catch (const obake::safe_cast_failure &) {
        c.check(!ok, "cast: exception");
    }
    c.check(calls.size() == 1u && calls[0].point == P_safe_convert && calls[0].layer == Adl && calls[0].args.size() == 2u && calls[0].args[1] == at(f, 0), "cast: calls", [&] { return show(calls); });
    c.event("casts");
    c.seen(cat(id, ok));
}
