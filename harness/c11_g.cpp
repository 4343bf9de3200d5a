#include "c11_conv.hpp"
using namespace vf;
using namespace c11;
using K = pm_t<std::int64_t>;
using PI = obake::polynomial<K, int_t>;
using PR = obake::polynomial<K, rat_t>;
using PD = obake::polynomial<K, double>;
using PZ = obake::polynomial<K, Z5>;
using RI = obake::polynomial<K, PI>;
VF_WORKLOAD("scalar-operands", 2400, 40000)
{
    const auto g = cfg(c);
    switch (c.idx % 8) {
        case 0:
            return mixed_scalar<rat_t, PI, rat_t>(c, g);
        case 1:
            return mixed_scalar<double, PI, double>(c, g);
        case 2:
            return mixed_scalar<rat_t, PR, int_t>(c, g);
        case 3:
            return mixed_scalar<double, PR, double>(c, g);
        case 4:
            return mixed_scalar<double, PD, rat_t>(c, g);
        case 5:
            return mixed_scalar<double, PD, int_t>(c, g);
        case 6:
            return mixed_scalar<rat_t, RI, rat_t>(c, g);
        default:
            return mixed_scalar<Z5, PZ, int_t>(c, g);
    }
}

// Tags: forwarded when their type does not change, reset otherwise.
VF_WORKLOAD("tags", 1200, 10000)
{
    using SA = obake::series<K, int_t, tag_a>;
    using SB = obake::series<K, rat_t, tag_a>;
    using SP = obake::series<K, rat_t, obake::polynomials::tag>;
    auto &r = c.rng;
    const auto g = cfg(c);
    const auto a = gen<PI>(r, g);
    SA s(a.s);
    c.check(s.tag().n == 7, "default tag");
    s.tag().n = static_cast<int>(r.range(-100, 100));
    const int n = s.tag().n;
    check_eq(c, s, a.m, "other tag");
    SA s0(s), s1(s), s2(s), s3(s);
    SB b(std::as_const(s));
    c.check(b.tag().n == n && s.tag().n == n, "tag copied");
    check_eq(c, b, a.m, "other coefficients");
    SB b2(std::move(s0));
    c.check(b2.tag().n == n, "tag moved");
    SP p(b2);
    check_eq(c, p, a.m, "polynomial again");
    SB b3;
    b3.tag().n = 1;
    b3 = s1;
    c.check(b3.tag().n == n, "tag assigned");
    SA cp(s1);
    c.check(cp.tag().n == n, "tag of a copy");
    SA mv(std::move(cp));
    c.check(mv.tag().n == n, "tag of a move");
    SA as;
    as = mv;
    c.check(as.tag().n == n, "tag of an assignment");
    SA sw;
    sw.swap(as);
    c.check(sw.tag().n == n && as.tag().n == 7, "tags exchanged");
    check_eq(c, sw, a.m, "exchanged");
    // Tags take part in comparisons.
    SA other(sw);
    c.check(other == sw && !(other != sw), "equal tags");
    other.tag().n = n + 1;
    c.check(other != sw && !(other == sw), "different tags");
    // The tag survives when terms are selected.
    const auto f = obake::filtered(sw, [](const auto &) { return true; });
    c.check(f.tag().n == n, "tag of a filtered series");
    sw.clear_terms();
    c.check(sw.tag().n == n, "tag after the removal of the terms");
    c.check(syms_of(sw) == a.syms && sw.get_s_size() == a.s.get_s_size(), "layout after the removal of the terms");
    sw.clear();
    c.check(sw.tag().n == 7 && sw.get_symbol_set().empty() && sw.empty() && sw.get_s_size() == a.s.get_s_size(), "cleared");
    c.event("tagged series");
    c.seen(mhash(a.m));
}
