// Evaluation and substitution against the reference model.
#include "polyk.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>

namespace c08
{

using namespace vf;

// Values which divide each other exactly in binary, for doubles.
inline Q dyadic(Rng &r)
{
    static const char *v[] = {"1", "-1", "2", "-2", "1/2", "-1/2", "4", "0"};
    return Q(v[r.below(8)]);
}

inline bool vanishes(const MP &p, const std::map<std::string, Q> &v)
{
    for (const auto &[m, q] : p.t) {
        for (const auto &[s, x] : v) {
            if (x == 0 && m[pool_idx(s)] < 0) {
                return true;
            }
        }
    }
    return false;
}

template <typename S>
inline Syms inner_syms(const S &s)
{
    Syms r;
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        for (const auto &t : s) {
            const auto i = syms_of(t.second);
            r.insert(i.begin(), i.end());
        }
    }
    return r;
}

template <typename U, typename S, typename G>
inline void run(Case &c, G &&gen, const GenCfg &g)
{
    auto &r = c.rng;
    const auto p = gen(), q = gen();
    Syms needed = uni(p.syms, inner_syms(p.s));
    const auto isyms = inner_syms(p.s);
    std::vector<std::string> names(pool().begin(), pool().end());
    for (int rep = 0; rep < 4; ++rep) {
        // A map which holds all of the symbols, and possibly others.
        std::map<std::string, Q> v;
        for (const auto &n : names) {
            if (needed.count(n) || q.syms.count(n) || r.chance(1, 3)) {
                Q x;
                if constexpr (std::is_same_v<U, double>) {
                    x = dyadic(r);
                } else {
                    x = Q(static_cast<long>(r.range(-4, 4)));
                    if constexpr (std::is_same_v<U, rat_t>) {
                        if (r.chance(1, 2)) {
                            x /= Q(static_cast<long>(r.range(1, 4)));
                        }
                    } else if (g.emin < 0) {
                        x = r.chance(1, 2) ? 1 : -1;
                    }
                }
                if (is_series_v<obake::series_cf_t<S>> && g.emin < 0 && x == 0) {
                    // Powers of the two levels may cancel.
                    x = 3;
                }
                v[n] = x;
            }
        }
        if (vanishes(p.m, v) || vanishes(q.m, v)) {
            continue;
        }
        obake::symbol_map<U> sm;
        for (const auto &[n, x] : v) {
            sm.emplace(n, from_q<U>(x));
        }
        const auto ctx = [&] {
            std::string s = mstr(p.m) + " at";
            for (const auto &[n, x] : v) {
                s += " " + n + "=" + x.get_str();
            }
            return s;
        };
        c.seen(hash_str(ctx()));
        const Q expected = meval(p.m, v);
        const auto e = obake::evaluate(p.s, sm);
        c.check(to_q(e) == expected, "evaluation", [&] { return ctx() + " got " + to_q(e).get_str() + " expected " + expected.get_str(); });
        c.event("evaluations");
        // Homomorphism.
        if (p.m.size() * q.m.size() <= 60u) {
            auto sm2 = sm;
            bool ok = true;
            for (const auto &n : inner_syms(q.s)) {
                ok = ok && v.count(n);
            }
            if (ok) {
                const auto eq = obake::evaluate(q.s, sm2);
                c.check(to_q(obake::evaluate(p.s * q.s, sm2)) == to_q(e) * to_q(eq), "evaluation of a product", ctx);
                c.check(to_q(obake::evaluate(p.s - q.s, sm2)) == to_q(e) - to_q(eq), "evaluation of a difference", ctx);
                c.event("evaluations of sums and products");
            }
        }
        // A symbol is missing.
        if (!p.syms.empty()) {
            auto less = sm;
            std::vector<std::string> ps(p.syms.begin(), p.syms.end());
            less.erase(r.pick(ps));
            try {
                (void)obake::evaluate(p.s, less);
                c.check(false, "evaluation with a missing symbol accepted", ctx);
            } catch (const std::invalid_argument &) {
                c.event("missing symbols refused");
            }
        }
        // Substitution of values for some of the symbols.
        {
            obake::symbol_map<U> some;
            std::map<std::string, MP> mm;
            for (const auto &[n, x] : v) {
                if (r.chance(1, 2)) {
                    some.emplace(n, from_q<U>(x));
                    mm.emplace(n, MP(x));
                }
            }
            // Negative powers: evaluate those symbols away first.
            MP exp;
            for (const auto &[m, k] : p.m.t) {
                Q f(k);
                Mono rest(m);
                for (const auto &[n, x] : mm) {
                    const auto i = pool_idx(n);
                    f *= qpow(v.at(n), m[i]);
                    rest[i] = 0;
                }
                exp.add(rest, f);
            }
            const auto s = obake::subs(p.s, some);
            check_eq(c, s, exp, "substitution of values", ctx());
            c.event("substitutions of values");
            // Substituting, then evaluating.
            bool left = true;
            for (const auto &n : isyms) {
                left = left && v.count(n);
            }
            if (left) {
                c.check(to_q(obake::evaluate(s, sm)) == expected, "evaluation after a substitution", ctx);
            }
        }
    }
    c.sample(mstr(p.m));
}

// Substitution of polynomials, all at once.
template <typename S, typename V, typename G, typename GV>
inline void subs_poly(Case &c, G &&gen, GV &&genv, const GenCfg &g)
{
    auto &r = c.rng;
    const auto p = gen();
    const auto names = g.universe.empty() ? std::vector<std::string>(pool().begin(), pool().end()) : g.universe;
    obake::symbol_map<V> sm;
    std::map<std::string, MP> mm;
    const auto n = 1 + r.below(3);
    for (u64 i = 0; i < n; ++i) {
        const auto x = r.pick(names);
        auto q = genv();
        mm[x] = q.m;
        sm[x] = q.s;
    }
    std::string ctx = mstr(p.m) + " with";
    for (const auto &[x, m] : mm) {
        ctx += " " + x + "=" + mstr(m);
    }
    c.seen(hash_str(ctx));
    const auto copy = p.s;
    const auto s = obake::subs(p.s, sm);
    check_eq(c, s, msubs(p.m, mm), "substitution of polynomials", ctx);
    c.check(to_model(p.s) == to_model(copy), "operand of the substitution modified");
    // No symbols to replace.
    const auto same = obake::subs(p.s, obake::symbol_map<V>{});
    check_eq(c, same, p.m, "empty substitution", ctx);
    c.event("substitutions of polynomials");
    c.sample(ctx);
}

} // namespace c08
