// Conversions between series (and scalars), and arithmetic and comparisons of operands of different types.
#include "polyk.hpp"
#include "zmod.hpp"

namespace vf
{
template <int P>
inline Q to_q(const zmod<P> &z)
{
    return Q(z.v);
}
} // namespace vf

namespace c11
{

using namespace vf;
using Z5 = zmod<5>;

struct tag_a {
    int n = 7;
    bool operator==(const tag_a &) const = default;
};

template <typename S>
struct leaf {
    using type = S;
};
template <typename S>
    requires(is_series_v<S>)
struct leaf<S> {
    using type = typename leaf<obake::series_cf_t<S>>::type;
};
template <typename S>
using leaf_t = typename leaf<std::decay_t<S>>::type;

// The value of q in the type of coefficients C.
template <typename C>
inline Q canon(const Q &q)
{
    if constexpr (std::is_same_v<C, int_t> || std::is_integral_v<C>) {
        mpz_class t;
        mpz_tdiv_q(t.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        return Q(t);
    } else if constexpr (std::is_same_v<C, Z5>) {
        if (q.get_den() != 1) {
            throw std::runtime_error("fraction modulo");
        }
        return Q(static_cast<long>(mpz_fdiv_ui(q.get_num().get_mpz_t(), 5)));
    } else {
        return q;
    }
}
template <typename C>
inline MP canonm(const MP &a)
{
    MP r;
    for (const auto &[m, q] : a.t) {
        r.add(m, canon<C>(q));
    }
    return r;
}

// The value of a series whose coefficients, at the innermost level, are converted one by one.
template <typename C, typename S>
inline MP canons(const S &s)
{
    std::vector<std::size_t> idx;
    for (const auto &n : s.get_symbol_set()) {
        idx.push_back(pool_idx(n));
    }
    MP r;
    for (const auto &t : s) {
        Mono m{};
        const auto u = unpack(t.first, idx.size());
        for (std::size_t i = 0; i < u.size(); ++i) {
            m[idx[i]] = static_cast<i64>(u[i]);
        }
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            for (const auto &[m2, q] : canons<C>(t.second).t) {
                r.add(m + m2, q);
            }
        } else {
            r.add(m, canon<C>(to_q(t.second)));
        }
    }
    return r;
}

inline GenCfg cfg(Case &c)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    g.emin = c.idx % 2 ? -3 : 0;
    g.huge = false;
    g.fractions = false;
    g.dyadic = true;
    return g;
}

template <typename S>
inline Gen<S> gen(Rng &r, const GenCfg &g)
{
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        auto gi = g;
        gi.max_terms = 3;
        auto go = g;
        go.max_terms = r.chance(1, 3) ? 1 : 5;
        if (r.chance(1, 4)) {
            go.emax = go.emin = 0;
        }
        return gen_rec<S>(r, go, gi);
    } else {
        auto g2 = g;
        if (r.chance(1, 4)) {
            g2.max_terms = 1;
            if (r.chance(1, 2)) {
                g2.emax = g2.emin = 0;
            }
        }
        auto ret = gen_poly<S>(r, g2);
        ret.m = canonm<leaf_t<S>>(ret.m);
        return ret;
    }
}

// The symbols of a series, and those of its coefficients, counted from the innermost level.
template <typename S>
inline void levels(const S &s, std::vector<Syms> &v)
{
    constexpr auto l = obake::series_rank<S> - 1u;
    v.resize(std::max<std::size_t>(v.size(), l + 1u));
    const auto own = syms_of(s);
    v[l].insert(own.begin(), own.end());
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        for (const auto &t : s) {
            levels(t.second, v);
        }
    }
}
// Whether two recursive series have the same symbol at two levels.
template <typename S, typename S2>
inline bool overlap(const S &s, const S2 &s2)
{
    std::vector<Syms> v;
    levels(s, v);
    levels(s2, v);
    std::size_t n = 0;
    Syms all;
    for (const auto &x : v) {
        n += x.size();
        all.insert(x.begin(), x.end());
    }
    return n != all.size();
}

// Ranks, symbols and layout of the result of a conversion.
template <typename S2, typename S1>
inline void convert(Case &c, const GenCfg &g)
{
    auto &r = c.rng;
    constexpr auto r1 = obake::series_rank<S1>, r2 = obake::series_rank<S2>;
    static_assert(std::is_constructible_v<S2, const S1 &> && std::is_constructible_v<S2, S1>);
    auto a = gen<S1>(r, g);
    const auto b = gen<S2>(r, g);
    check_eq(c, a.s, a.m, "operand of a conversion");
    const auto em = canons<leaf_t<S2>>(a.s);
    const auto ctx = [&] { return cat("rank ", r1, " -> ", r2, " from ", mstr(a.m), " over ", sstr(a.syms), " seg ", a.seg); };
    c.event("conversions of series");
    c.seen(mhash(a.m) ^ r2);
    if (em.t.size() < a.m.t.size()) {
        c.event("terms which vanish in a conversion");
    }
    const bool rv = r.chance(1, 2);
    const bool assign = r.chance(1, 2);
    const bool ok = r1 <= r2 || a.s.is_single_cf();
    S1 from(a.s);
    S2 to(assign ? b.s : S2{});
    bool thrown = false;
    try {
        if (assign) {
            if (rv) {
                to = std::move(from);
            } else {
                to = std::as_const(from);
            }
        } else {
            if (rv) {
                S2 tmp(std::move(from));
                to = std::move(tmp);
            } else {
                S2 tmp(std::as_const(from));
                to.swap(tmp);
            }
        }
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    if (!c.check(thrown == !ok, "conversion possible or refused", ctx)) {
        return;
    }
    if (!rv || thrown) {
        check_eq(c, from, a.m, "operand of a conversion unchanged");
        c.check(syms_of(from) == a.syms, "symbols of the operand of a conversion unchanged", ctx);
    }
    // The operand can be assigned to.
    from = a.s;
    check_eq(c, from, a.m, "operand of a conversion reassigned");
    if (thrown) {
        c.event("conversions refused");
        if (assign) {
            check_eq(c, to, b.m, "destination unchanged after a failed conversion");
            c.check(syms_of(to) == b.syms, "symbols of the destination after a failed conversion", ctx);
        }
        return;
    }
    check_eq(c, to, em, "converted", ctx());
    if constexpr (r1 == r2) {
        c.check(syms_of(to) == a.syms, "symbols of the result of a conversion", ctx);
        c.check(to.get_s_size() == a.s.get_s_size(), "segments of the result of a conversion", ctx);
    } else if constexpr (r1 < r2) {
        c.check(to.get_symbol_set().empty() && to.size() <= 1u && to.is_single_cf(), "single coefficient", ctx);
    }
    // There and back.
    if constexpr (std::is_constructible_v<S1, const S2 &>) {
        S1 back(to);
        check_eq(c, back, canons<leaf_t<S1>>(to), "converted back", ctx());
    }
    // Copies and moves of the result.
    S2 cp(to);
    check_eq(c, cp, em, "copy");
    S2 mv(std::move(cp));
    check_eq(c, mv, em, "move");
    cp = mv;
    check_eq(c, cp, em, "assigned after having been moved");
    c.sample(ctx());
}

// Construction from scalars, with a symbol set or without, and conversion to scalars.
template <typename S, typename T>
inline void scalars(Case &c, const GenCfg &g)
{
    auto &r = c.rng;
    using L = leaf_t<S>;
    Q q;
    if constexpr (std::is_same_v<T, Z5>) {
        q = Q(r.range(0, 4));
    } else {
        q = r.chance(1, 6) ? Q(0) : gen_cf<T>(r, g);
    }
    const auto t = from_q<T>(q);
    const auto syms = gen_syms(r, g);
    const auto eq = canon<L>(q);
    const MP em(eq);
    c.event("conversions of scalars");
    const auto ctx = [&] { return cat(q.get_str(), " over ", sstr(syms)); };
    {
        S s(t);
        check_eq(c, s, em, "from a scalar", ctx());
        c.check(s.get_symbol_set().empty(), "symbols of a constant", ctx);
        S s2(t, to_ss(syms));
        check_eq(c, s2, em, "from a scalar and symbols", ctx());
        c.check(syms_of(s2) == syms, "symbols of a constant with symbols", ctx);
        c.check(s2 == s && s == s2, "constants equal whatever their symbols", ctx);
        S s3(T(t), to_ss(syms));
        check_eq(c, s3, em, "from an rvalue and symbols", ctx());
        auto b = gen<S>(r, g);
        b.s = t;
        check_eq(c, b.s, em, "assigned from a scalar", ctx());
    }
    // To a scalar.
    if constexpr (std::is_constructible_v<T, const S &> && !std::is_same_v<T, Z5>) {
        auto a = gen<S>(r, g);
        // Whether the value does not depend on the symbols, at all the levels.
        const bool single = a.m.t.empty() || (a.m.t.size() == 1u && a.m.t.begin()->first == Mono{});
        const Q v = single && !a.m.t.empty() ? a.m.t.begin()->second : Q(0);
        if constexpr (!is_series_v<obake::series_cf_t<S>>) {
            c.check(a.s.is_single_cf() == single, "single coefficient iff constant", [&] { return mstr(a.m); });
        }
        try {
            const T x = static_cast<T>(a.s);
            c.check(single && to_q(x) == canon<T>(v), "to a scalar", [&] { return mstr(a.m); });
            c.event("conversions to scalars");
        } catch (const std::invalid_argument &) {
            c.check(!single, "refused conversion to a scalar", [&] { return mstr(a.m); });
            c.event("conversions to scalars refused");
        }
        check_eq(c, a.s, a.m, "operand of a conversion to a scalar");
    }
}

// Binary operations between series of different types; C is the expected type of the coefficients.
template <typename C, typename S1, typename S2>
inline void mixed(Case &c, const GenCfg &g)
{
    auto &r = c.rng;
    constexpr bool zm = std::is_same_v<C, Z5>;
    auto g2 = g;
    if (zm) {
        g2.dyadic = false;
    }
    auto a = gen<S1>(r, g2);
    auto b = gen<S2>(r, g2);
    // Close operands, for cancellations.
    if constexpr (obake::series_rank<S1> == 1u && obake::series_rank<S2> == 1u) {
        if (r.chance(1, 3)) {
            b.m = canonm<leaf_t<S2>>(a.m);
            b.syms = uni(a.syms, gen_syms(r, g));
            b.s = from_model<S2>(b.m, b.syms, static_cast<unsigned>(r.below(3)));
        }
    }
    const auto ctx = [&] { return cat("a=", mstr(a.m), " ", sstr(a.syms), " b=", mstr(b.m), " ", sstr(b.syms)); };
    c.event("mixed operations", 4);
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
    c.sample(ctx());
    auto un = [&](const char *w) {
        check_eq(c, a.s, a.m, w, "left");
        check_eq(c, b.s, b.m, w, "right");
    };
    auto chk = [&](const auto &res, const MP &em, const char *key) {
        using R = std::decay_t<decltype(res)>;
        c.check(std::is_same_v<leaf_t<R>, C> && obake::series_rank<R> == std::max(obake::series_rank<S1>, obake::series_rank<S2>),
                "type of the result");
        check_eq(c, res, canonm<C>(em), key, ctx());
        if constexpr (obake::series_rank<S1> == obake::series_rank<S2>) {
            c.check(syms_of(res) == uni(a.syms, b.syms), "symbols of the result", ctx);
        }
    };
    chk(a.s + b.s, a.m + b.m, "sum");
    chk(b.s + a.s, a.m + b.m, "sum, reversed");
    chk(a.s - b.s, a.m - b.m, "difference");
    chk(b.s - a.s, b.m - a.m, "difference, reversed");
    chk(a.s * b.s, a.m * b.m, "product");
    chk(b.s * a.s, a.m * b.m, "product, reversed");
    un("operands unchanged");
    {
        S1 x(a.s), x2(a.s), x3(a.s);
        S2 y(b.s), y2(b.s), y3(b.s);
        chk(std::move(x) + b.s, a.m + b.m, "sum, left rvalue");
        chk(a.s - std::move(y), a.m - b.m, "difference, right rvalue");
        chk(std::move(x2) - std::move(y2), a.m - b.m, "difference, rvalues");
        chk(std::move(x3) * std::move(y3), a.m * b.m, "product, rvalues");
        x = a.s;
        y = b.s;
        x2 = a.s;
        y3 = b.s;
        check_eq(c, x, a.m, "reassigned");
        check_eq(c, y, b.m, "reassigned");
        check_eq(c, x2, a.m, "reassigned");
        check_eq(c, y3, b.m, "reassigned");
    }
    // Comparisons: by value, whatever the types (same rank).
    if constexpr (obake::series_rank<S1> == obake::series_rank<S2> && obake::series_rank<S1> == 1u) {
        const bool e = zm ? canonm<C>(a.m) == canonm<C>(b.m) && a.m.t.size() == b.m.t.size() : a.m == b.m;
        c.check((a.s == b.s) == e, "equality", ctx);
        c.check((b.s == a.s) == e, "equality, reversed", ctx);
        c.check((a.s != b.s) == !e, "inequality", ctx);
        c.event(e ? "equal operands" : "different operands");
    } else if constexpr (obake::series_rank<S1> < obake::series_rank<S2>) {
        const bool e = b.s.empty() ? a.m.t.empty() : (b.s.is_single_cf() && b.m == a.m);
        c.check((a.s == b.s) == e, "equality of different ranks", ctx);
        c.check((b.s == a.s) == e, "equality of different ranks, reversed", ctx);
        c.check((b.s != a.s) == !e, "inequality of different ranks", ctx);
    }
    un("operands of comparisons unchanged");
    // In place: the result keeps the type on the left.
    auto inp = [&](auto &x, const auto &mx, auto &y, const auto &my, auto which) {
        using X = std::decay_t<decltype(x)>;
        using Y = std::decay_t<decltype(y)>;
        using LX = leaf_t<X>;
        constexpr bool exact = !std::is_same_v<LX, int_t> || std::is_same_v<leaf_t<Y>, int_t>;
        // Integers modulo cannot be turned into integers.
        if constexpr (!(std::is_same_v<leaf_t<Y>, Z5> && !std::is_same_v<LX, Z5>) && obake::series_rank<X> >= obake::series_rank<Y>) {
            const bool rv = r.chance(1, 2);
            for (int op = 0; op < 3; ++op) {
                X z(x);
                Y w(y);
                if (op == 0) {
                    if (rv) {
                        z += std::move(w);
                    } else {
                        z += std::as_const(w);
                    }
                } else if (op == 1) {
                    if (rv) {
                        z -= std::move(w);
                    } else {
                        z -= std::as_const(w);
                    }
                } else {
                    if (rv) {
                        z *= std::move(w);
                    } else {
                        z *= std::as_const(w);
                    }
                }
                const auto em = op == 0 ? mx + my : (op == 1 ? mx - my : mx * my);
                if (!exact && overlap(x, y)) {
                    // The same power may appear twice: the rounding of their sum is not prescribed.
                    check_invariants(c, z, "in place");
                } else if constexpr (exact) {
                    check_eq(c, z, canonm<LX>(em), "in place", ctx() + " op " + std::to_string(op) + which);
                } else if (op == 2) {
                    // The product is computed exactly, and then converted.
                    check_eq(c, z, canonm<LX>(em), "in place product", ctx());
                } else {
                    // Whether the right operand is rounded before or after the sum is not specified.
                    const auto em2 = op == 0 ? mx + canonm<LX>(my) : mx - canonm<LX>(my);
                    const auto zm = to_model(z);
                    check_invariants(c, z, "in place");
                    std::set<Mono> ks;
                    for (auto *p : {&em, &em2, &zm}) {
                        for (const auto &t : p->t) {
                            ks.insert(t.first);
                        }
                    }
                    for (const auto &k : ks) {
                        auto at = [&](const MP &m) {
                            const auto it = m.t.find(k);
                            return it == m.t.end() ? Q(0) : it->second;
                        };
                        const auto v = at(zm);
                        c.check(v == canon<LX>(at(em)) || v == at(em2), "in place, rounded", ctx);
                    }
                }
                if (!rv) {
                    check_eq(c, w, my, "right operand of an in place operation unchanged");
                }
                w = y;
                check_eq(c, w, my, "right operand of an in place operation reassigned");
                c.event("mixed operations in place");
            }
        }
    };
    inp(a.s, a.m, b.s, b.m, " left");
    inp(b.s, b.m, a.s, a.m, " right");
}

// Operations between a series and a scalar of another type; C is the expected type of the coefficients.
template <typename C, typename S, typename T>
inline void mixed_scalar(Case &c, const GenCfg &g)
{
    auto &r = c.rng;
    auto g2 = g;
    if (std::is_same_v<C, Z5>) {
        g2.dyadic = false;
    }
    auto a = gen<S>(r, g2);
    const Q q = r.chance(1, 8) ? Q(0) : gen_cf<T>(r, g2);
    const auto t = from_q<T>(q);
    const auto ctx = [&] { return cat("a=", mstr(a.m), " ", sstr(a.syms), " scalar ", q.get_str()); };
    c.event("mixed operations with scalars", 5);
    c.seen(mhash(a.m) ^ hash_str(q.get_str()));
    auto chk = [&](const auto &res, const MP &em, const char *key) {
        using R = std::decay_t<decltype(res)>;
        c.check(std::is_same_v<leaf_t<R>, C>, "type of the result");
        check_eq(c, res, canonm<C>(em), key, ctx());
        c.check(syms_of(res) == a.syms, "symbols of the result", ctx);
    };
    chk(a.s + t, a.m + MP(q), "sum");
    chk(t + a.s, a.m + MP(q), "sum, scalar first");
    chk(a.s - t, a.m - MP(q), "difference");
    chk(t - a.s, MP(q) - a.m, "difference, scalar first");
    chk(a.s * t, a.m * q, "product");
    chk(t * a.s, a.m * q, "product, scalar first");
    check_eq(c, a.s, a.m, "operand unchanged");
    {
        S x(a.s), y(a.s), z(a.s);
        chk(std::move(x) + t, a.m + MP(q), "sum of an rvalue");
        chk(t - std::move(y), MP(q) - a.m, "difference with an rvalue");
        chk(std::move(z) * t, a.m * q, "product of an rvalue");
        x = a.s;
        z = a.s;
        check_eq(c, x, a.m, "reassigned");
        check_eq(c, z, a.m, "reassigned");
    }
    {
        const bool e = a.m.t.empty() ? q == 0 : (a.m == MP(q) && a.s.is_single_cf());
        bool e2 = e;
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            e2 = e && (a.s.empty() || a.s.begin()->second.is_single_cf());
        }
        if constexpr (!std::is_same_v<C, Z5>) {
            c.check((a.s == t) == e2, "equality with a scalar", ctx);
            c.check((t == a.s) == e2, "equality with a scalar, reversed", ctx);
            c.check((t != a.s) == !e2, "inequality with a scalar", ctx);
        }
    }
    if (q != 0) {
        if constexpr (std::is_same_v<C, rat_t>) {
            chk(a.s / t, a.m * (1 / q), "quotient");
        } else if constexpr (std::is_same_v<C, double>) {
            const auto d = from_q<T>(Q(4));
            chk(a.s / d, a.m * Q(1, 4), "quotient");
        }
    } else if constexpr (std::is_same_v<C, rat_t>) {
        if (!a.s.empty()) {
            try {
                S x(a.s / t);
                c.check(false, "division by zero", ctx);
            } catch (const std::exception &) {
                c.event("divisions by zero refused");
            }
            check_eq(c, a.s, a.m, "operand unchanged by a division by zero");
            try {
                S x(a.s);
                x /= t;
                c.check(false, "division by zero in place", ctx);
            } catch (const std::exception &) {
            }
        }
    }
    // In place on the scalar.
    if constexpr (requires(T x, S s) { x += s; x -= s; x *= s; } && !std::is_same_v<C, Z5>) {
        MP em = a.m + MP(q);
        T x(t);
        try {
            x += a.s;
            c.check(em.t.empty() || (em.t.size() == 1u && em.t.begin()->first == Mono{}), "scalar += series", ctx);
            c.check(to_q(x) == canon<T>(em.t.empty() ? Q(0) : em.t.begin()->second), "scalar += series, value", ctx);
            c.event("in place operations on scalars");
        } catch (const std::invalid_argument &) {
            c.check(!is_series_v<obake::series_cf_t<S>> ? !(em.t.empty() || (em.t.size() == 1u && em.t.begin()->first == Mono{})) : !a.s.is_single_cf() || true, "scalar += series refused", ctx);
            c.check(to_q(x) == q, "scalar unchanged after a failure", ctx);
        }
    }
}

// Coefficients of a series as operands of operations on the series itself.
template <typename S>
inline void aliases(Case &c, const GenCfg &g)
{
    auto &r = c.rng;
    auto a = gen<S>(r, g);
    if (a.s.empty()) {
        return;
    }
    const auto ctx = [&] { return cat("a=", mstr(a.m), " ", sstr(a.syms)); };
    auto it = a.s.begin();
    for (auto n = r.below(a.s.size()); n; --n) {
        ++it;
    }
    MP cm;
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        cm = to_model(it->second);
    } else {
        cm = MP(to_q(it->second));
    }
    const auto k = it->first;
    auto at = [&](auto &s) -> const obake::series_cf_t<S> & { return s.find(k)->second; };
    {
        S x(a.s);
        x += at(x);
        check_eq(c, x, a.m + cm, "series += own coefficient", ctx());
    }
    {
        S x(a.s);
        x -= at(x);
        check_eq(c, x, a.m - cm, "series -= own coefficient", ctx());
    }
    {
        S x(a.s);
        x *= at(x);
        check_eq(c, x, a.m * cm, "series *= own coefficient", ctx());
        S y(a.s);
        y = y * at(y) + at(y);
        check_eq(c, y, a.m * cm + cm, "series = series * own coefficient", ctx());
        S z(a.s);
        z = at(z) - z;
        check_eq(c, z, cm - a.m, "own coefficient - series", ctx());
    }
    if constexpr (std::is_same_v<leaf_t<S>, rat_t> && !is_series_v<obake::series_cf_t<S>>) {
        S x(a.s);
        const Q q = to_q(at(x));
        x /= at(x);
        check_eq(c, x, a.m * (1 / q), "series /= own coefficient", ctx());
    }
    c.event("operations with own coefficients", 5);
}

} // namespace c11
