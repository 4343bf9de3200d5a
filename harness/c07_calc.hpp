// Derivatives and antiderivatives against the reference model.
#include "polyk.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>

namespace c07
{

using namespace vf;

template <typename S>
struct leaf {
    using type = S;
};
template <typename S>
    requires(is_series_v<S>)
struct leaf<S> {
    using type = typename leaf<obake::series_cf_t<S>>::type;
};

// Truncating division, coefficient by coefficient, for integral coefficients.
inline MP mintegrate_trunc(const MP &a, const std::string &s)
{
    MP r;
    const auto i = pool_idx(s);
    for (const auto &[m, q] : a.t) {
        auto m2 = m;
        m2[i] += 1;
        const mpz_class z = q.get_num() / mpz_class(static_cast<long>(m2[i]));
        if (z != 0) {
            r.add(m2, Q(z));
        }
    }
    return r;
}

// Equality up to the rounding of floating point coefficients.
template <typename S>
inline bool check_near(Case &c, const S &s, const MP &m, const char *key, const std::string &ctx)
{
    if (!check_invariants(c, s, key)) {
        return false;
    }
    const auto sm = to_model(s);
    bool ok = sm.size() == m.size();
    for (auto i = sm.t.begin(), j = m.t.begin(); ok && i != sm.t.end(); ++i, ++j) {
        const Q d = abs(i->second - j->second), tol = abs(j->second) / Q(1000000000000l);
        ok = i->first == j->first && d <= tol;
    }
    return c.check(ok, key, [&] { return ctx + " got " + mstr(sm) + " expected " + mstr(m); });
}

template <typename S>
inline MP model_coeff_syms(const S &, const std::string &)
{
    return MP{};
}

// Does a coefficient of s depend on x?
template <typename S>
inline bool cf_depends(const S &s, const std::string &x)
{
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        for (const auto &t : s) {
            if (!mdiff(to_model(t.second), x).t.empty()) {
                return true;
            }
        }
    }
    return false;
}

// The exponents of x in the keys.
template <typename S>
inline bool has_inverse(const S &s, const std::string &x)
{
    const auto &ss = s.get_symbol_set();
    const auto it = ss.find(x);
    if (it == ss.end()) {
        return false;
    }
    const auto i = static_cast<std::size_t>(it - ss.begin());
    for (const auto &t : s) {
        if (unpack(t.first, ss.size())[i] == -1) {
            return true;
        }
    }
    return false;
}

template <typename S, typename G>
inline void run(Case &c, G &&gen, const GenCfg &g)
{
    using L = typename leaf<S>::type;
    constexpr bool recursive = is_series_v<obake::series_cf_t<S>>;
    auto &r = c.rng;
    const auto p = gen(), q = gen();
    const auto names = g.universe.empty() ? std::vector<std::string>(pool().begin(), pool().end()) : g.universe;
    for (int rep = 0; rep < 3; ++rep) {
        const std::string x = r.pick(names);
        const auto ctx = cat("with respect to ", x, " of ", mstr(p.m), " over ", sstr(p.syms));
        c.seen(hash_str(ctx));
        // Derivatives.
        {
            const auto copy = p.s;
            const auto d = r.chance(1, 2) ? obake::diff(p.s, x) : obake::diff(S(p.s), x);
            check_eq(c, d, mdiff(p.m, x), "derivative", ctx);
            c.check(to_model(p.s) == to_model(copy), "operand of the derivative modified");
            c.event("derivatives");
            if (p.syms.count(x)) {
                c.event("derivatives with respect to a symbol of the polynomial");
            }
            if constexpr (!recursive) {
                // Every symbol of the operand is left in the result.
                c.check(syms_of(d) == p.syms || d.empty(), "symbols of the derivative", [&] { return ctx; });
            }
            const std::string y = r.pick(names);
            const auto d1 = obake::diff(obake::diff(p.s, x), y), d2 = obake::diff(obake::diff(p.s, y), x);
            c.check(to_model(d1) == to_model(d2), "mixed derivatives", [&] { return ctx + " and " + y; });
            if (p.m.size() * q.m.size() < 40u) {
                check_eq(c, obake::diff(p.s * q.s, x), mdiff(p.m * q.m, x), "derivative of a product", ctx);
                c.check(to_model(obake::diff(p.s * q.s, x)) == to_model(p.s * obake::diff(q.s, x) + obake::diff(p.s, x) * q.s),
                        "product rule", [&] { return ctx; });
            }
        }
        // Antiderivatives.
        const bool dep = cf_depends(p.s, x), inv = has_inverse(p.s, x);
        try {
            const auto copy = p.s;
            const auto in = r.chance(1, 2) ? obake::integrate(p.s, x) : obake::integrate(S(p.s), x);
            c.check(!dep, "antiderivative with dependent coefficients accepted", [&] { return ctx; });
            c.check(!inv, "antiderivative of the inverse accepted", [&] { return ctx; });
            c.check(to_model(p.s) == to_model(copy), "operand of the antiderivative modified");
            if (dep || inv) {
                continue;
            }
            if constexpr (std::is_same_v<L, double>) {
                check_near(c, in, mintegrate(p.m, x), "antiderivative", ctx);
            } else if constexpr (std::is_same_v<L, rat_t>) {
                check_eq(c, in, mintegrate(p.m, x), "antiderivative", ctx);
                check_eq(c, obake::diff(in, x), p.m, "derivative of the antiderivative", ctx);
            } else {
                check_eq(c, in, mintegrate_trunc(p.m, x), "antiderivative with truncation", ctx);
            }
            c.event("antiderivatives");
            if (!p.syms.count(x)) {
                c.event("antiderivatives with respect to a new symbol");
            }
        } catch (const std::invalid_argument &) {
            c.check(dep, "antiderivative rejected", [&] { return ctx; });
            c.event("dependent coefficients refused");
        } catch (const std::domain_error &) {
            c.check(inv, "antiderivative rejected", [&] { return ctx; });
            c.event("logarithms refused");
        }
    }
    c.sample(mstr(p.m));
}

} // namespace c07
