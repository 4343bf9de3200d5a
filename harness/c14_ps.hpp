// Histories of operations over truncated power series, mirrored by the exact model truncated in the same way.
#ifndef C14_PS_HPP
#define C14_PS_HPP

#include "polyk.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>

namespace c14
{

using namespace vf;

// The state of truncation.
struct Tr {
    int kind = 0; // none, total, partial.
    i64 d = 0;
    Syms s;
    bool operator==(const Tr &o) const
    {
        return kind == o.kind && (kind == 0 || d == o.d) && (kind != 2 || s == o.s);
    }
    std::string str() const
    {
        return kind == 0 ? "none" : kind == 1 ? cat("degree ", d) : cat("degree ", d, " in ", sstr(s));
    }
    MP operator()(const MP &m) const
    {
        return kind == 0 ? m : kind == 1 ? mtrunc(m, d) : mtrunc(m, d, s);
    }
    bool ok(const Tr &o) const
    {
        return kind == 0 || o.kind == 0 || *this == o;
    }
    const Tr &with(const Tr &o) const
    {
        return kind == 0 ? o : *this;
    }
};

template <typename S>
inline Tr trunc_of(const S &s)
{
    Tr t;
    std::visit(
        [&t](const auto &v) {
            using V = std::decay_t<decltype(v)>;
            if constexpr (std::is_same_v<V, decltype(obake::degree(std::declval<const S &>()))>) {
                t.kind = 1;
                t.d = static_cast<i64>(v);
            } else if constexpr (requires { v.second; }) {
                t.kind = 2;
                t.d = static_cast<i64>(v.first);
                t.s.insert(v.second.begin(), v.second.end());
            }
        },
        obake::get_truncation(s));
    return t;
}

template <typename S>
struct PS {
    S s;
    MP m;
    Syms syms;
    Tr t;
};

template <typename S>
inline void set_tr(S &s, const Tr &t)
{
    if (t.kind == 0) {
        obake::unset_truncation(s);
    } else if (t.kind == 1) {
        obake::set_truncation(s, t.d);
    } else {
        obake::set_truncation(s, t.d, to_ss(t.s));
    }
}

template <typename S>
inline bool check_ps(Case &c, const S &s, const MP &m, const Tr &t, const Syms &syms, const char *key, const std::string &ctx)
{
    bool ok = check_eq(c, s, m, key, ctx);
    const auto got = trunc_of(s);
    ok = c.check(got == t, cat(key, ": truncation").c_str(), [&] { return cat(ctx, " got ", got.str(), " expected ", t.str()); }) && ok;
    ok = c.check(syms_of(s) == syms, cat(key, ": symbols").c_str(), [&] { return cat(ctx, " got ", sstr(syms_of(s)), " expected ", sstr(syms)); }) && ok;
    return ok;
}

template <typename S>
struct history {
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    static constexpr bool is_int = std::is_same_v<C, int_t>;
    static constexpr bool is_dbl = std::is_same_v<C, double>;
    using P = obake::polynomial<K, C>;

    Case &c;
    Rng &r;
    GenCfg g;
    std::vector<Tr> trs;
    std::vector<PS<S>> v;
    std::string log;
    bool laurent;

    explicit history(Case &c_) : c(c_), r(c_.rng)
    {
        g.restrict_syms(r, 4);
        g.max_syms = 3;
        g.max_terms = 6;
        g.emax = 4;
        g.huge = false;
        g.dyadic = is_dbl;
        laurent = std::is_signed_v<typename K::value_type> && r.chance(1, 4);
        g.emin = laurent ? -3 : 0;
        trs.emplace_back();
        const auto some = [&] {
            Syms s;
            for (const auto &x : pool()) {
                if (r.chance(1, 8)) {
                    s.insert(x);
                }
            }
            for (const auto &x : g.universe) {
                if (r.chance(1, 3)) {
                    s.insert(x);
                }
            }
            return s;
        };
        const auto lo = std::is_signed_v<typename K::value_type> ? -2 : 0;
        const auto d1 = r.range(lo, 8), d2 = r.range(1, 10);
        const auto s1 = some();
        trs.push_back({1, d1, {}});
        if (r.chance(1, 2)) {
            trs.push_back({1, d2, {}});
        }
        trs.push_back({2, d2, s1});
        if (r.chance(1, 2)) {
            trs.push_back({2, d1, s1});
        }
        if (r.chance(1, 2)) {
            trs.push_back({2, d2, some()});
        }
        for (int i = 0; i < 4; ++i) {
            v.push_back(fresh());
        }
    }

    PS<S> fresh()
    {
        PS<S> p;
        auto x = gen_poly<S>(r, g);
        p.s = std::move(x.s);
        p.syms = x.syms;
        p.t = r.pick(trs);
        set_tr(p.s, p.t);
        p.m = p.t(x.m);
        log += cat(" new ", mstr(p.m), " ", p.t.str(), ";");
        check_ps(c, p.s, p.m, p.t, p.syms, "set_truncation", log);
        return p;
    }

    bool too_big(const PS<S> &p) const
    {
        if (p.m.size() > 60u) {
            return true;
        }
        for (const auto &[m, q] : p.m.t) {
            for (auto e : m) {
                if (e > 30 || e < -30) {
                    return true;
                }
            }
            if (is_dbl && (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 18u || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 18u)) {
                return true;
            }
            if (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 400u) {
                return true;
            }
        }
        return false;
    }

    // A binary operation between series.
    void binary(int op)
    {
        static const char *const names[] = {"+", "-", "*"};
        auto &a = v[r.below(v.size())];
        auto &b = v[r.below(v.size())];
        const auto ctx = [&] { return cat(log, " : ", mstr(a.m), " ", a.t.str(), " ", names[op], " ", mstr(b.m), " ", b.t.str()); };
        const bool compatible = a.t.ok(b.t);
        const int form = static_cast<int>(r.below(6));
        const auto expected = [&] { return op == 0 ? a.m + b.m : op == 1 ? a.m - b.m : a.m * b.m; };
        const auto a0 = a, b0 = b;
        PS<S> out;
        bool thrown = false;
        try {
            S x(a.s), y(b.s);
            switch (form) {
                case 0:
                    out.s = op == 0 ? a.s + b.s : op == 1 ? a.s - b.s : a.s * b.s;
                    break;
                case 1:
                    out.s = op == 0 ? std::move(x) + std::move(y) : op == 1 ? std::move(x) - std::move(y) : std::move(x) * std::move(y);
                    break;
                case 2:
                    out.s = op == 0 ? std::move(x) + b.s : op == 1 ? std::move(x) - b.s : std::move(x) * b.s;
                    break;
                case 3:
                    out.s = op == 0 ? a.s + std::move(y) : op == 1 ? a.s - std::move(y) : a.s * std::move(y);
                    break;
                case 4: {
                    // In place; when the two are the same object, really so.
                    if (&a == &b) {
                        op == 0 ? x += x : op == 1 ? x -= x : x *= x;
                    } else {
                        op == 0 ? x += b.s : op == 1 ? x -= b.s : x *= b.s;
                    }
                    out.s = x;
                    break;
                }
                default: {
                    auto &ref = op == 0 ? x += std::move(y) : op == 1 ? x -= std::move(y) : x *= std::move(y);
                    c.check(&ref == &x, "in-place operation returns something else", [] { return ""; });
                    out.s = std::move(x);
                    break;
                }
            }
        } catch (const std::invalid_argument &) {
            thrown = true;
        }
        c.check(thrown == !compatible, "conflicting truncations", [&] { return cat(ctx(), thrown ? " refused" : " accepted"); });
        check_ps(c, a.s, a0.m, a0.t, a0.syms, "operand", ctx());
        check_ps(c, b.s, b0.m, b0.t, b0.syms, "operand", ctx());
        if (thrown || !compatible) {
            c.event("conflicting truncations refused");
            return;
        }
        out.t = a.t.with(b.t);
        const auto exact = expected();
        out.m = out.t(exact);
        out.syms = uni(a.syms, b.syms);
        if (exact != out.m) {
            c.event("results truncated");
        }
        c.event(a.t.kind == b.t.kind ? "operations with equal truncations" : "operations with and without truncation");
        check_ps(c, out.s, out.m, out.t, out.syms, cat("series ", names[op], " series").c_str(), ctx());
        keep(std::move(out), names[op]);
    }

    void keep(PS<S> &&p, const char *what)
    {
        if (!too_big(p)) {
            auto &d = v[r.below(v.size())];
            d = std::move(p);
            log += cat(" ", what, "->", &d - v.data(), ";");
            if (log.size() > 3000u) {
                log = "...";
            }
        }
    }

    void scalar()
    {
        const auto a = r.pick(v);
        const Q q(gen_cf<C>(r, g));
        const auto sc = from_q<C>(q);
        const auto ctx = [&] { return cat(mstr(a.m), " ", a.t.str(), " with scalar ", q.get_str()); };
        PS<S> out;
        out.t = a.t;
        out.syms = a.syms;
        const auto op = r.below(7);
        S x(a.s);
        const char *what = "";
        switch (op) {
            case 0:
                what = "series + scalar";
                out.s = r.chance(1, 2) ? a.s + sc : sc + std::move(x);
                out.m = out.t(a.m + MP(q));
                break;
            case 1:
                what = "series - scalar";
                out.s = r.chance(1, 2) ? a.s - sc : std::move(x) - sc;
                out.m = out.t(a.m - MP(q));
                break;
            case 2:
                what = "scalar - series";
                out.s = r.chance(1, 2) ? sc - a.s : sc - std::move(x);
                out.m = out.t(MP(q) - a.m);
                break;
            case 3:
                what = "series * scalar";
                out.s = r.chance(1, 2) ? a.s * sc : sc * std::move(x);
                out.m = a.m * q;
                break;
            case 4:
                what = "series += scalar";
                if (r.chance(1, 2)) {
                    x += sc;
                    out.m = out.t(a.m + MP(q));
                } else {
                    x -= sc;
                    out.m = out.t(a.m - MP(q));
                }
                out.s = std::move(x);
                break;
            case 5:
                what = "series *= scalar";
                x *= sc;
                out.s = std::move(x);
                out.m = a.m * q;
                break;
            default:
                if constexpr (is_int) {
                    // The coefficients become rational ones.
                    using S2 = obake::p_series<K, rat_t>;
                    const Q q2 = q / 3;
                    const S2 y = a.s + from_q<rat_t>(q2);
                    check_ps(c, y, out.t(a.m + MP(q2)), a.t, a.syms, "series + scalar of another type", ctx());
                    const S2 z = from_q<rat_t>(q2) * a.s;
                    check_ps(c, z, a.m * q2, a.t, a.syms, "series * scalar of another type", ctx());
                    c.event("operations with scalars");
                    return;
                } else {
                    what = "series / scalar";
                    Q dv(q);
                    if (is_dbl) {
                        dv = r.chance(1, 2) ? Q(2) : Q(1, 4);
                    }
                    const auto dvs = from_q<C>(dv);
                    if (r.chance(1, 2)) {
                        out.s = a.s / dvs;
                    } else {
                        x /= dvs;
                        out.s = x;
                    }
                    out.m = a.m * Q(1 / dv);
                }
                break;
        }
        c.event("operations with scalars");
        check_ps(c, out.s, out.m, out.t, out.syms, what, ctx());
        keep(std::move(out), what);
    }

    void unary()
    {
        auto &a = v[r.below(v.size())];
        const auto ctx = [&] { return cat(log, " : ", mstr(a.m), " ", a.t.str()); };
        PS<S> out(a);
        switch (r.below(14)) {
            case 0: {
                out.s = r.chance(1, 2) ? -a.s : -S(a.s);
                out.m = -a.m;
                check_ps(c, out.s, out.m, out.t, out.syms, "negation", ctx());
                keep(std::move(out), "negation");
                break;
            }
            case 1: {
                // Another truncation.
                out.t = r.pick(trs);
                set_tr(out.s, out.t);
                out.m = out.t(a.m);
                if (out.m != a.m) {
                    c.event("terms removed by set_truncation");
                }
                check_ps(c, out.s, out.m, out.t, out.syms, "change of truncation", cat(ctx(), " to ", out.t.str()));
                keep(std::move(out), "set");
                break;
            }
            case 2: {
                // Terms beyond the truncation, inserted by hand, then truncate().
                if (a.syms.empty()) {
                    break;
                }
                Mono m{};
                for (const auto &x : a.syms) {
                    m[pool_idx(x)] = r.range(0, 9);
                }
                const Q q(gen_cf<C>(r, g));
                out.s.add_term(make_key<K>(m, a.syms), from_q<C>(q));
                out.m.add(m, q);
                check_eq(c, out.s, out.m, "add_term", ctx());
                obake::truncate(out.s);
                out.m = out.t(out.m);
                check_ps(c, out.s, out.m, out.t, out.syms, "truncate", ctx());
                keep(std::move(out), "truncate");
                break;
            }
            case 3:
            case 4: {
                const auto n = r.below(5);
                if (laurent && n > 1u) {
                    break;
                }
                bool rounds = false;
                for (const auto &[m, q] : a.m.t) {
                    rounds = rounds || mpz_sizeinbase(q.get_num_mpz_t(), 2) > 9u || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 4u;
                }
                if (is_dbl && n > 2u && rounds) {
                    break;
                }
                out.s = obake::pow(a.s, static_cast<int>(n));
                out.m = n ? a.m : out.t(MP(Q(1)));
                for (u64 i = 1; i < n; ++i) {
                    out.m = out.t(out.m * a.m);
                }
                // Powers of constants and zeroth powers are not required to keep the symbols.
                out.syms = syms_of(out.s);
                check_ps(c, out.s, out.m, out.t, out.syms, "pow", cat(ctx(), " to the ", n));
                c.event("powers");
                keep(std::move(out), "pow");
                break;
            }
            case 5: {
                const auto x = r.pick(g.universe);
                out.s = r.chance(1, 2) ? obake::diff(a.s, x) : obake::diff(S(a.s), x);
                out.m = mdiff(a.m, x);
                check_ps(c, out.s, out.m, out.t, out.syms, "diff", cat(ctx(), " in ", x));
                c.event("derivatives");
                keep(std::move(out), "diff");
                break;
            }
            case 6: {
                const auto x = r.pick(g.universe);
                bool log_ = false;
                for (const auto &[m, q] : a.m.t) {
                    log_ = log_ || m[pool_idx(x)] == -1;
                }
                if (is_int || is_dbl || log_) {
                    break;
                }
                out.s = obake::integrate(a.s, x);
                const auto exact = mintegrate(a.m, x);
                out.m = out.t(exact);
                out.syms.insert(x);
                if (out.m != exact) {
                    c.event("integrals truncated");
                }
                check_ps(c, out.s, out.m, out.t, out.syms, "integrate", cat(ctx(), " in ", x));
                keep(std::move(out), "integrate");
                break;
            }
            case 7: {
                subs(a);
                break;
            }
            case 8: {
                // Conversions.
                const P p(a.s);
                check_eq(c, p, a.m, "to polynomial", ctx());
                c.check(syms_of(p) == a.syms, "to polynomial: symbols", ctx);
                const S back(p);
                check_ps(c, back, a.m, Tr{}, a.syms, "from polynomial", ctx());
                if constexpr (!is_dbl) {
                    using S2 = obake::p_series<K, std::conditional_t<is_int, rat_t, int_t>>;
                    bool integral = true;
                    for (const auto &[m, q] : a.m.t) {
                        integral = integral && q.get_den() == 1;
                    }
                    if (integral || is_int) {
                        const S2 s2(a.s);
                        check_ps(c, s2, a.m, a.t, a.syms, "to other coefficients", ctx());
                        mixed(a, s2);
                    }
                }
                c.event("conversions");
                break;
            }
            case 9: {
                Syms extra = gen_syms(r, g);
                out.s = obake::add_symbols(a.s, to_ss(extra));
                out.syms = uni(a.syms, extra);
                check_ps(c, out.s, out.m, out.t, out.syms, "add_symbols", ctx());
                keep(std::move(out), "add_symbols");
                break;
            }
            case 10: {
                out.s = obake::trim(a.s);
                Syms used;
                for (const auto &[m, q] : a.m.t) {
                    for (const auto &x : a.syms) {
                        if (m[pool_idx(x)]) {
                            used.insert(x);
                        }
                    }
                }
                out.syms = used;
                check_ps(c, out.s, out.m, out.t, out.syms, "trim", ctx());
                keep(std::move(out), "trim");
                break;
            }
            case 11: {
                const auto pred = [](const auto &q) { return q > 0; };
                out.m = mfilter(a.m, [&](const Mono &, const Q &q) { return pred(q); });
                out.s = obake::filtered(a.s, [&](const auto &t) { return pred(to_q(t.second)); });
                check_ps(c, out.s, out.m, out.t, out.syms, "filtered", ctx());
                obake::filter(a.s, [](const auto &) { return true; });
                check_ps(c, a.s, a.m, a.t, a.syms, "filter", ctx());
                keep(std::move(out), "filtered");
                break;
            }
            case 12: {
                // Copies, moves, swaps, assignments.
                auto &b = v[r.below(v.size())];
                if (&a != &b) {
                    using std::swap;
                    swap(a.s, b.s);
                    check_ps(c, a.s, b.m, b.t, b.syms, "swap", ctx());
                    check_ps(c, b.s, a.m, a.t, a.syms, "swap", ctx());
                    S tmp(std::move(a.s));
                    a.s = std::move(b.s);
                    b.s = std::move(tmp);
                    check_ps(c, a.s, a.m, a.t, a.syms, "swap by moves", ctx());
                    check_ps(c, b.s, b.m, b.t, b.syms, "swap by moves", ctx());
                }
                S e(a.s);
                e.clear();
                check_ps(c, e, MP{}, Tr{}, Syms{}, "clear", ctx());
                e = a.s;
                e.clear_terms();
                check_ps(c, e, MP{}, a.t, a.syms, "clear_terms", ctx());
                break;
            }
            default: {
                // Comparison, with another series and with the same under other truncations and symbols.
                const auto &b = v[r.below(v.size())];
                c.check((a.s == b.s) == (a.m == b.m && a.t == b.t), "equality",
                        [&] { return cat(ctx(), " and ", mstr(b.m), " ", b.t.str()); });
                c.check((a.s != b.s) == !(a.m == b.m && a.t == b.t), "inequality",
                        [&] { return cat(ctx(), " and ", mstr(b.m), " ", b.t.str()); });
                S x = obake::add_symbols(a.s, to_ss(gen_syms(r, g)));
                c.check(a.s == x && !(x != a.s), "equality with other symbols", ctx);
                const auto t = r.pick(trs);
                if (t(a.m) == a.m) {
                    set_tr(x, t);
                    c.check((a.s == x) == (a.t == t) && (x != a.s) == !(a.t == t), "equality of truncations", [&] { return cat(ctx(), " and ", t.str()); });
                }
                std::map<std::string, Q> at;
                obake::symbol_map<C> sm;
                for (const auto &y : a.syms) {
                    const Q q(laurent ? (is_int ? Q(1) : Q(2)) : Q(static_cast<long>(r.range(-2, 2))));
                    at[y] = q;
                    sm[y] = from_q<C>(q);
                }
                const auto val = obake::evaluate(a.s, sm);
                const Q ev = meval(a.m, at);
                c.check(to_q(val) == ev, "evaluation", [&] { return cat(ctx(), " got ", to_q(val).get_str(), " expected ", ev.get_str()); });
                c.event("comparisons");
            }
        }
    }

    // Operations between series with different coefficients.
    template <typename S2>
    void mixed(const PS<S> &a, const S2 &s2)
    {
        const auto &b = v[r.below(v.size())];
        const auto ctx = [&] { return cat(mstr(b.m), " ", b.t.str(), " with ", mstr(a.m), " ", a.t.str()); };
        using R = obake::p_series<K, rat_t>;
        const bool compatible = a.t.ok(b.t);
        const auto t = b.t.with(a.t);
        const auto syms = uni(a.syms, b.syms);
        for (int i = 0; i < 4; ++i) {
            bool thrown = false;
            try {
                if (i == 0) {
                    const R x = b.s + s2;
                    check_ps(c, x, t(b.m + a.m), t, syms, "mixed +", ctx());
                } else if (i == 1) {
                    const R x = s2 - b.s;
                    check_ps(c, x, t(a.m - b.m), t, syms, "mixed -", ctx());
                } else if (i == 2) {
                    const R x = b.s * s2;
                    check_ps(c, x, t(b.m * a.m), t, syms, "mixed *", ctx());
                } else if constexpr (!is_int) {
                    S x(b.s);
                    x += s2;
                    x -= s2;
                    x -= S2(s2);
                    check_ps(c, x, t(t(b.m) - a.m), t, syms, "mixed -=", ctx());
                }
            } catch (const std::invalid_argument &) {
                thrown = true;
            }
            if (i < 3) {
                c.check(thrown == !compatible, "conflicting truncations, mixed", ctx);
            }
        }
        c.event("mixed operations");
    }

    void subs(const PS<S> &a)
    {
        if (laurent || a.m.size() > 12u) {
            return;
        }
        const auto ctx0 = cat(mstr(a.m), " ", a.t.str());
        // By scalars.
        {
            std::map<std::string, MP> mm;
            obake::symbol_map<C> sm;
            std::string ctx(ctx0);
            for (const auto &x : g.universe) {
                if (r.chance(1, 3)) {
                    const Q q(static_cast<long>(r.range(-2, 2)));
                    mm[x] = MP(q);
                    sm[x] = from_q<C>(q);
                    ctx += cat(" ", x, "=", q.get_str());
                }
            }
            const auto ret = obake::subs(a.s, sm);
            check_sub(ret, a, Tr{}, mm, "substitution of scalars", ctx);
        }
        // By series.
        {
            std::map<std::string, MP> mm;
            obake::symbol_map<S> sm;
            std::string ctx(ctx0);
            GenCfg gs(g);
            gs.max_terms = 3;
            gs.emax = 2;
            const bool tr = r.chance(1, 2);
            for (const auto &x : g.universe) {
                if (r.chance(1, 3)) {
                    auto p = gen_poly<S>(r, gs);
                    if (tr) {
                        set_tr(p.s, a.t);
                        p.m = a.t(p.m);
                    }
                    for (const auto &[m, q] : a.m.t) {
                        if (m[pool_idx(x)] > 5) {
                            return;
                        }
                    }
                    ctx += cat(" ", x, "=", mstr(p.m));
                    mm[x] = p.m;
                    sm[x] = p.s;
                }
            }
            if (is_dbl && mm.size() > 1u) {
                return;
            }
            const auto ret = obake::subs(a.s, sm);
            check_sub(ret, a, tr ? a.t : Tr{}, mm, "substitution of series", ctx);
        }
    }
    template <typename R>
    void check_sub(const R &ret, const PS<S> &a, const Tr &, const std::map<std::string, MP> &mm, const char *key, const std::string &ctx)
    {
        if (!check_invariants(c, ret, key)) {
            return;
        }
        const auto got = a.t(to_model(ret)), want = a.t(msubs(a.m, mm));
        c.check(got == want, key, [&] { return cat(ctx, " got ", mstr(got), " expected ", mstr(want)); });
        // Nothing is beyond the truncation in a result which is truncated.
        const auto rt = trunc_of(ret);
        c.check(rt(to_model(ret)) == to_model(ret), cat(key, ": beyond the truncation").c_str(), [&] { return ctx; });
        if (a.t.kind != 0 && !a.m.t.empty()) {
            c.check(rt == a.t, cat(key, ": truncation").c_str(), [&] { return cat(ctx, " got ", rt.str()); });
        }
        c.event("substitutions");
    }

    void run(unsigned n)
    {
        for (unsigned i = 0; i < n; ++i) {
            switch (r.below(12)) {
                case 0:
                case 1:
                    binary(0);
                    break;
                case 2:
                case 3:
                    binary(1);
                    break;
                case 4:
                case 5:
                case 6:
                    binary(2);
                    break;
                case 7:
                    scalar();
                    break;
                case 8:
                    if (r.chance(1, 2)) {
                        v[r.below(v.size())] = fresh();
                        break;
                    }
                    [[fallthrough]];
                default:
                    unary();
            }
        }
        for (const auto &x : v) {
            check_ps(c, x.s, x.m, x.t, x.syms, "at the end", log);
        }
        c.seen(log);
        c.sample(log);
    }
};

// The functions which make series out of names.
template <typename S>
inline void make(Case &c)
{
    auto &r = c.rng;
    using D = decltype(obake::degree(std::declval<const S &>()));
    Syms ss;
    while (ss.size() < 3u) {
        ss.insert(r.pick(pool()));
    }
    const std::vector<std::string> n(ss.begin(), ss.end());
    const auto lo = std::is_signed_v<D> ? -1 : 0;
    const auto d = r.range(lo, 3);
    Syms ts{n[r.below(3)]};
    if (r.chance(1, 2)) {
        ts.insert(n[r.below(3)]);
    }
    const auto go = [&](auto arr, const Tr &t, bool all, const char *key) {
        for (std::size_t i = 0; i < 3u; ++i) {
            check_ps(c, arr[i], t(MP::var(n[i])), t, all ? ss : Syms{n[i]}, key, t.str());
        }
    };
    go(obake::make_p_series<S>(n[0], n[1].c_str(), n[2]), Tr{}, false, "make_p_series");
    go(obake::make_p_series<S>(to_ss(ss), n[0], n[1], n[2].c_str()), Tr{}, true, "make_p_series with symbols");
    go(obake::make_p_series_t<S>(d, n[0], n[1].c_str(), n[2]), Tr{1, d, {}}, false, "make_p_series_t");
    go(obake::make_p_series_t<S>(to_ss(ss), d, n[0], n[1], n[2].c_str()), Tr{1, d, {}}, true, "make_p_series_t with symbols");
    go(obake::make_p_series_p<S>(d, to_ss(ts), n[0], n[1].c_str(), n[2]), Tr{2, d, ts}, false, "make_p_series_p");
    go(obake::make_p_series_p<S>(to_ss(ss), d, to_ss(ts), n[0], n[1], n[2].c_str()), Tr{2, d, ts}, true, "make_p_series_p with symbols");
    const auto refused = [&](auto f, const char *key) {
        bool t = false;
        try {
            f();
        } catch (const std::invalid_argument &) {
            t = true;
        }
        c.check(t, key, [] { return ""; });
    };
    refused([&] { (void)obake::make_p_series<S>(to_ss(ss), "not there"); }, "unknown generator accepted");
    refused([&] { (void)obake::make_p_series_t<S>(to_ss(ss), d, "~"); }, "unknown generator accepted");
    refused([&] { (void)obake::make_p_series_p<S>(to_ss(ss), d, to_ss(ts), ""); }, "unknown generator accepted");
    // Limits which do not fit the type of the degree are refused, and nothing changes.
    auto [x] = obake::make_p_series_t<S>(2, n[0]);
    const auto big = int_t(std::to_string(std::numeric_limits<D>::max())) + 1;
    for (int i = 0; i < 2; ++i) {
        bool t = false;
        try {
            if (i) {
                obake::set_truncation(x, big, to_ss(ts));
            } else {
                obake::set_truncation(x, big);
            }
        } catch (const obake::safe_cast_failure &) {
            t = true;
        }
        c.check(t, "a limit out of range was accepted", [] { return ""; });
        check_ps(c, x, MP::var(n[0]), Tr{1, 2, {}}, Syms{n[0]}, "limit out of range", "");
    }
    obake::set_truncation(x, int_t(1));
    check_ps(c, x, MP::var(n[0]), Tr{1, 1, {}}, Syms{n[0]}, "limit of another type", "");
    c.event("generators");
    c.seen(c.idx);
}

// Products of many terms (multithreaded path).
template <typename S>
inline void large(Case &c)
{
    auto &r = c.rng;
    GenCfg g;
    g.huge = false;
    g.fractions = false;
    Syms ss{"x", "y", "z"};
    const auto gen = [&](unsigned n, i64 emax) {
        MP m;
        for (unsigned i = 0; i < n; ++i) {
            Mono k{};
            for (const auto &x : ss) {
                k[pool_idx(x)] = r.range(0, emax);
            }
            m.add(k, gen_cf<int_t>(r, g));
        }
        return m;
    };
    const Tr t = r.chance(1, 2) ? Tr{1, r.range(0, 60), {}} : Tr{2, r.range(0, 40), Syms{"x", "z"}};
    PS<S> a, b;
    a.m = gen(1300, 25);
    a.s = from_model<S>(a.m, ss, static_cast<unsigned>(r.below(4)));
    b.m = gen(10 + static_cast<unsigned>(r.below(60)), 20);
    b.s = from_model<S>(b.m, ss);
    const bool both = r.chance(1, 2);
    if (both || r.chance(1, 2)) {
        set_tr(a.s, t);
        a.m = t(a.m);
    }
    if (both || trunc_of(a.s).kind == 0) {
        set_tr(b.s, t);
        b.m = t(b.m);
    }
    const auto exact = a.m * b.m;
    const auto m = t(exact);
    check_ps(c, a.s * b.s, m, t, ss, "large product", t.str());
    check_ps(c, b.s * a.s, m, t, ss, "large product, swapped", t.str());
    c.event("large products");
    if (exact != m) {
        c.event("large products truncated");
    }
    c.seen(mhash(m));
}

} // namespace c14

#define C14_TYPE(tag, K, C)                                                                                            \
    VF_WORKLOAD("history-" tag, 260, 8000)                                                                             \
    {                                                                                                                  \
        c14::history<obake::p_series<K, C>> h(c);                                                                      \
        h.run(24);                                                                                                     \
    }                                                                                                                  \
    VF_WORKLOAD("make-" tag, 40, 600)                                                                                  \
    {                                                                                                                  \
        c14::make<obake::p_series<K, C>>(c);                                                                           \
    }                                                                                                                  \
    VF_WORKLOAD("large-" tag, 6, 150)                                                                                  \
    {                                                                                                                  \
        c14::large<obake::p_series<K, C>>(c);                                                                          \
    }

#endif
