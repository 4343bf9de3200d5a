// Ring arithmetic of polynomials against the reference model, over histories of operations.
#include "polyk.hpp"

#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>

namespace c01
{

using namespace vf;

template <typename S>
inline Q gen_scalar_q(Rng &r)
{
    using C = obake::series_cf_t<S>;
    Q q(static_cast<long>(r.range(-4, 4)));
    if constexpr (std::is_same_v<C, rat_t>) {
        if (r.chance(1, 3)) {
            q /= Q(static_cast<long>(r.range(1, 5)));
        }
    }
    return q;
}

// A short history of operations over a few polynomials, each mirrored by the model and
// compared after every step.
template <typename S>
inline void history(Case &c, GenCfg g, unsigned steps)
{
    using C = obake::series_cf_t<S>;
    auto &r = c.rng;
    constexpr unsigned N = 4;
    std::vector<Gen<S>> v;
    std::string log;
    u64 h = 0;
    for (unsigned i = 0; i < N; ++i) {
        v.push_back(gen_poly<S>(r, g));
        check_eq(c, v.back().s, v.back().m, "construction");
        h = mix64(h ^ mhash(v.back().m));
    }
    auto small = [&](const MP &m) { return m.size() <= 60u; };
    for (unsigned st = 0; st < steps; ++st) {
        const auto i = r.below(N), j = r.below(N), k = r.below(N);
        auto op = r.below(21);
        if ((op == 4 || op == 5 || op == 6) && (!small(v[i].m) || !small(v[j].m) || v[i].m.size() * v[j].m.size() > 400u)) {
            op = 0;
        }
        // Keep the exponents within bounds.
        if (op == 4 || op == 5 || op == 6) {
            i64 mx = 0;
            for (auto *p : {&v[i].m, &v[j].m}) {
                i64 cur = 0;
                for (const auto &t : p->t) {
                    for (auto e : t.first) {
                        cur = std::max<i64>(cur, e < 0 ? -e : e);
                    }
                }
                mx += cur;
            }
            if (mx > 40) {
                op = 1;
            }
            // Likewise for the coefficients (doubles must remain exact).
            if constexpr (std::is_same_v<C, double>) {
                for (auto *p : {&v[i].m, &v[j].m}) {
                    for (const auto &t : p->t) {
                        if (abs(t.second) > 1000) {
                            op = 1;
                        }
                    }
                }
            }
        }
        if constexpr (std::is_same_v<C, double>) {
            // No repeated doubling beyond 2**50.
            for (auto &p : v) {
                for (const auto &t : p.m.t) {
                    if (abs(t.second) > 1e12) {
                        p = gen_poly<S>(r, g);
                        break;
                    }
                }
            }
        }
        const Q sq = gen_scalar_q<S>(r);
        const auto sc = from_q<C>(sq);
        MP em;
        Syms es;
        S res;
        bool in_place = false, moved_i = false, moved_j = false, generated_k = true;
        auto &a = v[i];
        auto &b = v[j];
        switch (op) {
            case 0:
                res = a.s + b.s;
                em = a.m + b.m;
                es = uni(a.syms, b.syms);
                break;
            case 1:
                res = a.s - b.s;
                em = a.m - b.m;
                es = uni(a.syms, b.syms);
                break;
            case 2: {
                em = a.m + b.m;
                es = uni(a.syms, b.syms);
                if (i == j) {
                    auto cp(b.s);
                    res = std::move(a.s) + cp;
                } else {
                    res = std::move(a.s) + b.s;
                }
                moved_i = true;
                break;
            }
            case 3: {
                em = a.m - b.m;
                es = uni(a.syms, b.syms);
                auto cp(a.s);
                if (r.chance(1, 2)) {
                    res = cp - std::move(b.s);
                } else {
                    res = std::move(cp) - std::move(b.s);
                }
                moved_j = true;
                break;
            }
            case 4:
                res = a.s * b.s;
                em = a.m * b.m;
                es = uni(a.syms, b.syms);
                break;
            case 5: {
                em = a.m * b.m;
                es = uni(a.syms, b.syms);
                auto cp(b.s);
                res = std::move(a.s) * std::move(cp);
                moved_i = true;
                break;
            }
            case 6:
                em = a.m * b.m;
                es = uni(a.syms, b.syms);
                a.s *= b.s;
                in_place = true;
                break;
            case 7:
                em = a.m + b.m;
                es = uni(a.syms, b.syms);
                a.s += b.s;
                in_place = true;
                break;
            case 8:
                em = a.m - b.m;
                es = uni(a.syms, b.syms);
                a.s -= b.s;
                in_place = true;
                break;
            case 9:
                em = a.m + b.m;
                es = uni(a.syms, b.syms);
                if (i != j) {
                    a.s += std::move(b.s);
                    moved_j = true;
                } else {
                    a.s += a.s;
                }
                in_place = true;
                break;
            case 10:
                em = a.m - b.m;
                es = uni(a.syms, b.syms);
                if (i != j) {
                    a.s -= std::move(b.s);
                    moved_j = true;
                } else {
                    a.s -= a.s;
                }
                in_place = true;
                break;
            case 11:
                res = a.s + sc;
                em = a.m + MP(sq);
                es = a.syms;
                break;
            case 12:
                res = sc - a.s;
                em = MP(sq) - a.m;
                es = a.syms;
                break;
            case 13:
                res = a.s * sc;
                em = a.m * sq;
                es = a.syms;
                break;
            case 14:
                a.s -= sc;
                em = a.m - MP(sq);
                es = a.syms;
                in_place = true;
                break;
            case 15:
                a.s *= sc;
                em = a.m * sq;
                es = a.syms;
                in_place = true;
                break;
            case 16:
                if (r.chance(1, 2)) {
                    res = -a.s;
                } else {
                    auto cp(a.s);
                    res = -std::move(cp);
                }
                em = -a.m;
                es = a.syms;
                break;
            case 17: {
                // Division by a nonzero scalar.
                Q d(static_cast<long>(r.range(1, 7)));
                if (r.chance(1, 2)) {
                    d = -d;
                }
                es = a.syms;
                if constexpr (std::is_same_v<C, rat_t>) {
                    em = a.m * (1 / d);
                    res = a.s / from_q<C>(d);
                } else if constexpr (std::is_same_v<C, int_t>) {
                    // Truncated division: terms may vanish.
                    for (const auto &[m, q] : a.m.t) {
                        mpz_class t;
                        mpz_tdiv_q(t.get_mpz_t(), q.get_num().get_mpz_t(), d.get_num().get_mpz_t());
                        em.add(m, Q(t));
                    }
                    if (r.chance(1, 2)) {
                        res = a.s / from_q<C>(d);
                    } else {
                        res = a.s;
                        res /= from_q<C>(d);
                    }
                } else {
                    d = r.chance(1, 2) ? 2 : -1;
                    em = a.m * (1 / d);
                    res = a.s / from_q<C>(d);
                }
                break;
            }
            case 18: {
                obake::negate(a.s);
                em = -a.m;
                es = a.syms;
                in_place = true;
                break;
            }
            case 19: {
                // Integral scalars of C++ types on either side.
                const int n = static_cast<int>(r.range(-3, 3));
                if (r.chance(1, 2)) {
                    res = n * a.s + n;
                } else {
                    res = n + a.s * n;
                }
                em = a.m * Q(n) + MP(Q(n));
                es = a.syms;
                break;
            }
            default: {
                // A difference that must cancel, via different groupings.
                res = (a.s + b.s) - (b.s + a.s);
                es = uni(a.syms, b.syms);
                break;
            }
        }
        c.event("operations");
        log += std::to_string(op) + ",";
        const auto ctx = [&]() { return cat("op ", op, " step ", st, " history ", log, " a=", mstr(a.m), " b=", mstr(b.m), " sc=", sq.get_str()); };
        const S &out = in_place ? a.s : res;
        if (!check_eq(c, out, em, "operation", ctx())) {
            return;
        }
        if (!c.check(syms_of(out) == es, "symbol set of the result", [&] { return ctx() + " got " + sstr(syms_of(out)) + " expected " + sstr(es); })) {
            return;
        }
        if (em.t.empty() && (!a.m.t.empty() || !b.m.t.empty())) {
            c.event("full cancellations");
        }
        if (a.syms != b.syms) {
            c.event("operations merging symbols");
        }
        // The other operands must not have changed.
        if (in_place) {
            a.m = em;
            a.syms = es;
        } else if (!moved_i && !(moved_j && i == j)) {
            check_eq(c, a.s, a.m, "left operand unchanged");
        }
        if (!moved_j && !(in_place && i == j)) {
            if (!(moved_i && i == j)) {
                check_eq(c, b.s, b.m, "right operand unchanged");
            }
        }
        // Comparison against another member, and against itself.
        {
            c.check(a.s == a.s || moved_i || (moved_j && i == j), "reflexive equality");
            if (!moved_i && !moved_j) {
                c.check((a.s == b.s) == (a.m == b.m), "equality", [&] { return ctx(); });
                c.check((a.s != b.s) == !(a.m == b.m), "inequality", [&] { return ctx(); });
            }
        }
        if (moved_i) {
            v[i] = gen_poly<S>(r, g);
        }
        if (moved_j && j != i) {
            v[j] = gen_poly<S>(r, g);
        }
        if (moved_j && j == i) {
            v[i] = gen_poly<S>(r, g);
        }
        if (!in_place && generated_k) {
            v[k].s = std::move(res);
            v[k].m = em;
            v[k].syms = es;
            h = mix64(h ^ mhash(em));
        }
        if (v[i].m.size() > 150u) {
            v[i] = gen_poly<S>(r, g);
        }
        if (v[k].m.size() > 150u) {
            v[k] = gen_poly<S>(r, g);
        }
    }
    c.seen(h);
    c.sample("history of operations " + log + " over " + mstr(v[0].m));
}

// Laws of the ring, on the real objects alone.
template <typename S>
inline void laws(Case &c, GenCfg g)
{
    auto &r = c.rng;
    auto a = gen_poly<S>(r, g), b = gen_poly<S>(r, g), d = gen_poly<S>(r, g);
    const auto ctx = [&] { return cat("a=", mstr(a.m), " b=", mstr(b.m), " d=", mstr(d.m)); };
    c.check(a.s * (b.s + d.s) == a.s * b.s + a.s * d.s, "distributivity", ctx);
    c.check((a.s * b.s) * d.s == a.s * (b.s * d.s), "associativity", ctx);
    c.check(a.s * b.s == b.s * a.s, "commutativity", ctx);
    c.check((a.s - b.s) * (a.s + b.s) == a.s * a.s - b.s * b.s, "difference of squares", ctx);
    c.check((a.s - a.s).empty() && a.s - a.s == 0, "cancellation", ctx);
    c.check((0 * a.s).empty(), "annihilation", ctx);
    c.check(1 * a.s == a.s && a.s * 1 == a.s && a.s + 0 == a.s, "neutral elements", ctx);
    c.event("law triples");
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)) ^ mix64(mix64(mhash(d.m))));
}

} // namespace c01
