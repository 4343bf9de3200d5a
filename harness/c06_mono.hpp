// Operations on monomials against plain exponent vectors.
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>

#include "wide.hpp"

namespace c06
{

using namespace vf;

template <typename K>
using vec = std::vector<typename K::value_type>;

template <typename K>
inline i128 limit_for(std::size_t n)
{
    static std::map<std::size_t, i128> m;
    auto it = m.find(n);
    if (it == m.end()) {
        it = m.emplace(n, measured_limit<K>(n)).first;
    }
    return it->second;
}

template <typename K>
inline typename K::value_type gen_e(Rng &r, i128 lim)
{
    using T = typename K::value_type;
    i128 e;
    switch (r.below(7)) {
        case 0:
            e = lim - r.range(0, 2);
            break;
        case 1:
            e = lim / 2 + r.range(-2, 2);
            break;
        case 2:
            e = 0;
            break;
        case 3:
            e = static_cast<i128>(r.next() >> 1) % (lim + 1);
            break;
        default:
            e = r.range(0, 5);
            break;
    }
    e = std::max<i128>(0, std::min(e, lim));
    if (std::is_signed_v<T> && r.chance(2, 5)) {
        e = -e;
    }
    return static_cast<T>(e);
}

template <typename T>
inline bool degree_fits(i128 d)
{
    return d <= std::numeric_limits<T>::max() && d >= std::numeric_limits<T>::min();
}

template <typename K>
inline std::vector<i128> wide_of(const vec<K> &v)
{
    return std::vector<i128>(v.begin(), v.end());
}

inline std::string vs(const std::vector<i128> &v)
{
    std::string s = "(";
    for (auto x : v) {
        s += wi(x) + " ";
    }
    return s + ")";
}

template <typename K, unsigned MaxN>
inline void run(Case &c)
{
    using T = typename K::value_type;
    auto &r = c.rng;
    // Names, in order.
    std::vector<std::string> all;
    for (unsigned i = 0; i < 40; ++i) {
        all.push_back(std::string(1, static_cast<char>('a' + i / 10)) + std::to_string(i % 10));
    }
    const auto n = static_cast<unsigned>(r.below(MaxN + 1u));
    obake::symbol_set ss;
    while (ss.size() < n) {
        ss.insert(r.pick(all));
    }
    const auto lim = n ? limit_for<K>(n) : i128(0);
    const std::vector<std::string> names(ss.begin(), ss.end());
    for (int rep = 0; rep < 6; ++rep) {
        vec<K> v(n), w(n);
        const bool zeros = r.chance(1, 8);
        for (unsigned i = 0; i < n; ++i) {
            v[i] = zeros ? T(0) : gen_e<K>(r, lim);
            w[i] = r.chance(1, 2) ? gen_e<K>(r, lim) : v[i];
        }
        if (n && r.chance(1, 2)) {
            w = v;
            if (r.chance(2, 3)) {
                w[r.below(n)] = gen_e<K>(r, lim);
            }
        }
        const K a(v.begin(), v.end()), b(w.begin(), w.end());
        const auto wv = wide_of<K>(v), ww = wide_of<K>(w);
        const auto ctx = [&] { return cat("exponents ", vs(wv), " and ", vs(ww)); };
        c.seen(hash_str(vs(wv) + vs(ww)));
        c.event("pairs of monomials");
        c.check(unpack(a, n) == wv && unpack(b, n) == ww, "construction", ctx);
        c.check(K(v.begin(), n) == a && K(v) == a, "equivalent constructors", ctx);
        c.check((a == b) == (v == w) && (a != b) == (v != w), "equality", ctx);
        if (v == w) {
            c.check(obake::hash(a) == obake::hash(b), "equal monomials with different hashes", ctx);
        }
        c.check(!obake::key_is_zero(a, ss), "zero monomial", ctx);
        c.check(obake::key_is_compatible(a, ss), "incompatible with its own symbols", ctx);
        c.check(obake::key_is_one(a, ss) == std::all_of(v.begin(), v.end(), [](T x) { return x == 0; }), "unitary", ctx);
        c.check(obake::key_is_one(K(ss), ss) && obake::key_is_compatible(K(ss), ss), "monomial from symbols", ctx);
        // Degrees.
        // Partial sums may overflow only if the exponents of the same sign do.
        const auto judge = [&](const char *key, i128 expected, i128 pos, i128 neg, auto &&f, const std::string &x) {
            try {
                const i128 got = static_cast<i128>(f());
                c.check(got == expected, key, [&] { return ctx() + x + " got " + wi(got) + " expected " + wi(expected); });
            } catch (const std::overflow_error &) {
                c.check(!degree_fits<T>(pos) || !degree_fits<T>(neg), key, ctx);
                c.event("degrees which overflow");
            }
        };
        i128 d = 0, dpos = 0, dneg = 0;
        for (auto x : wv) {
            d += x;
            (x > 0 ? dpos : dneg) += x;
        }
        judge("degree", d, dpos, dneg, [&] { return obake::key_degree(a, ss); }, "");
        obake::symbol_idx_set si;
        i128 pd = 0, ppos = 0, pneg = 0;
        std::string sel;
        for (unsigned i = 0; i < n; ++i) {
            if (r.chance(1, 2)) {
                si.insert(i);
                pd += wv[i];
                (wv[i] > 0 ? ppos : pneg) += wv[i];
                sel += " " + std::to_string(i);
            }
        }
        judge("partial degree", pd, ppos, pneg, [&] { return obake::key_p_degree(a, si, ss); }, " at" + sel);
        // Multiplication.
        {
            std::vector<i128> s(n);
            bool fits = true;
            for (unsigned i = 0; i < n; ++i) {
                s[i] = wv[i] + ww[i];
                fits = fits && s[i] <= lim && s[i] >= (std::is_signed_v<T> ? -lim : i128(0));
            }
            const std::vector<K> ra{a}, rb{b};
            const bool ok = obake::monomial_range_overflow_check(ra, rb, ss);
            // The total degree must be representable too.
            i128 ds = 0;
            for (auto x : s) {
                ds += x;
            }
            const bool dfits = degree_fits<T>(ds);
            c.check(ok == (fits && dfits), "overflow check of a pair", ctx);
            if (fits) {
                K out(ss);
                if (r.chance(1, 2)) {
                    obake::monomial_mul(out, a, b, ss);
                    c.check(unpack(out, n) == s, "product", ctx);
                } else {
                    // The output may be one of the factors.
                    out = a;
                    obake::monomial_mul(out, out, b, ss);
                    c.check(unpack(out, n) == s, "product in place", ctx);
                    out = b;
                    obake::monomial_mul(out, a, out, ss);
                    c.check(unpack(out, n) == s, "product in place", ctx);
                }
                c.check(obake::key_is_compatible(out, ss), "incompatible product", ctx);
                if constexpr (obake::is_homomorphically_hashable_monomial_v<K>) {
                    c.check(obake::hash(out) == obake::hash(a) + obake::hash(b), "homomorphic hashing", ctx);
                }
                c.event("products of monomials");
            }
        }
        // Powers.
        {
            i64 e = r.range(0, 4);
            if (r.chance(1, 3)) {
                e = static_cast<i64>(r.wild() >> 1);
            }
            if (std::is_signed_v<T> && r.chance(1, 3)) {
                e = -e;
            }
            std::vector<i128> s(n);
            bool fits = true;
            for (unsigned i = 0; i < n; ++i) {
                s[i] = wv[i] * e;
                fits = fits && s[i] <= lim && s[i] >= (std::is_signed_v<T> ? -lim : i128(0));
            }
            const auto pc = [&] { return cat("exponents ", vs(wv), " to the power of ", e); };
            try {
                const auto p = r.chance(1, 2) ? obake::monomial_pow(a, e, ss) : obake::monomial_pow(a, int_t(e), ss);
                c.check(fits, "power out of range accepted", pc);
                c.check(unpack(p, n) == s, "power", pc);
                c.event("powers of monomials");
            } catch (const std::overflow_error &) {
                c.check(!fits, "power rejected", pc);
                c.event("powers of monomials which overflow");
            }
            // Rational exponents: integral, or refused.
            const int den = r.chance(1, 2) ? 1 : static_cast<int>(r.range(2, 9));
            const auto q = rat_t(int_t(e), int_t(den));
            const auto qc = [&] { return cat("exponents ", vs(wv), " to the power of ", e, "/", den); };
            const bool whole = e % den == 0;
            bool qfits = true;
            for (unsigned i = 0; i < n && whole; ++i) {
                s[i] = wv[i] * (e / den);
                qfits = qfits && s[i] <= lim && s[i] >= (std::is_signed_v<T> ? -lim : i128(0));
            }
            try {
                const auto p = obake::monomial_pow(a, q, ss);
                c.check(whole && qfits, "rational power accepted", qc);
                c.check(!whole || unpack(p, n) == s, "rational power", qc);
                c.event("rational powers");
            } catch (const std::invalid_argument &) {
                c.check(!whole, "rational power rejected", qc);
                c.event("powers which are not integral");
            } catch (const std::overflow_error &) {
                c.check(whole && !qfits, "rational power rejected (overflow)", qc);
            }
        }
        // Differentiation, integration.
        if (n) {
            const auto i = static_cast<unsigned>(r.below(n));
            const auto dc = [&] { return cat("exponents ", vs(wv), " at ", i); };
            auto s = wv;
            if (s[i] != 0) {
                s[i] -= 1;
            }
            try {
                const auto p = obake::monomial_diff(a, obake::symbol_idx(i), ss);
                c.check(static_cast<i128>(p.first) == wv[i], "factor of the derivative", dc);
                if (wv[i] != 0) {
                    c.check(unpack(p.second, n) == s, "derivative", dc);
                }
                c.event("derivatives of monomials");
            } catch (const std::overflow_error &) {
                c.check(s[i] < -lim, "derivative rejected", dc);
            }
            s = wv;
            s[i] += 1;
            try {
                const auto p = obake::monomial_integrate(a, obake::symbol_idx(i), ss);
                c.check(s[i] != 0, "antiderivative of the inverse accepted", dc);
                c.check(static_cast<i128>(p.first) == s[i] && unpack(p.second, n) == s, "antiderivative", dc);
                c.event("antiderivatives of monomials");
            } catch (const std::overflow_error &) {
                c.check(s[i] > lim, "antiderivative rejected", dc);
            } catch (const std::domain_error &) {
                c.check(s[i] == 0, "antiderivative rejected", dc);
                c.event("logarithms refused");
            }
        }
        // Merging of symbols.
        {
            obake::symbol_set big(ss);
            const auto extra = r.below(4);
            for (u64 i = 0; i < extra; ++i) {
                big.insert(r.pick(all));
            }
            // ins_map: index in ss -> symbols to be inserted before it.
            obake::symbol_idx_map<obake::symbol_set> im;
            std::vector<i128> s;
            for (const auto &name : big) {
                const auto it = ss.find(name);
                if (it == ss.end()) {
                    const auto pos = static_cast<std::size_t>(ss.lower_bound(name) - ss.begin());
                    im[pos].insert(name);
                    s.push_back(0);
                } else {
                    s.push_back(wv[static_cast<std::size_t>(it - ss.begin())]);
                }
            }
            if (!im.empty() && big.size() <= MaxN) {
                const auto mc = [&] { return cat("exponents ", vs(wv), " merged into ", vs(s)); };
                const auto lim2 = limit_for<K>(big.size());
                const bool fits = std::all_of(s.begin(), s.end(), [&](i128 x) { return x <= lim2 && x >= -lim2; });
                try {
                    const auto m = obake::key_merge_symbols(a, im, ss);
                    c.check(unpack(m, big.size()) == s, "symbol merging", mc);
                    c.check(obake::key_is_compatible(m, big), "incompatible merged monomial", mc);
                    c.event("merged monomials");
                } catch (const std::overflow_error &) {
                    c.check(!fits, "symbol merging rejected", mc);
                }
            }
        }
        // Trimming.
        {
            std::vector<int> tv(n, 1);
            for (auto &x : tv) {
                x = static_cast<int>(r.below(2));
            }
            auto exp = tv;
            for (unsigned i = 0; i < n; ++i) {
                if (v[i] != 0) {
                    exp[i] = 0;
                }
            }
            obake::key_trim_identify(tv, a, ss);
            c.check(tv == exp, "trim identification", ctx);
            // Remove some of the symbols.
            obake::symbol_idx_set rm;
            std::vector<i128> left;
            for (unsigned i = 0; i < n; ++i) {
                if (r.chance(1, 3)) {
                    rm.insert(i);
                } else {
                    left.push_back(wv[i]);
                }
            }
            const auto m = obake::key_trim(a, rm, ss);
            c.check(unpack(m, left.size()) == left, "trim", [&] { return cat(vs(wv), " -> ", vs(left)); });
            c.event("trimmed monomials");
        }
        // Evaluation and substitution, over moderate exponents.
        {
            vec<K> u(n);
            for (auto &x : u) {
                x = static_cast<T>(r.range(std::is_signed_v<T> ? -3 : 0, 3));
            }
            const i128 lo = std::min<i128>(lim, 3);
            for (auto &x : u) {
                if (static_cast<i128>(x) > lo || (std::is_signed_v<T> && static_cast<i128>(x) < -lo)) {
                    x = 0;
                }
            }
            const K k(u.begin(), u.end());
            obake::symbol_idx_map<rat_t> em, sm;
            Q expected(1), factor(1);
            auto rest = wide_of<K>(u);
            for (unsigned i = 0; i < n; ++i) {
                const Q q = Q(static_cast<long>(r.range(1, 5))) / Q(static_cast<long>(r.range(1, 5))) * (r.chance(1, 2) ? 1 : -1);
                em.emplace(i, from_q<rat_t>(q));
                expected *= qpow(q, static_cast<i64>(u[i]));
                if (r.chance(1, 2)) {
                    sm.emplace(i, from_q<rat_t>(q));
                    factor *= qpow(q, static_cast<i64>(u[i]));
                    rest[i] = 0;
                }
            }
            const auto ec = [&] { return cat("exponents ", vs(wide_of<K>(u))); };
            c.check(to_q(rat_t(obake::key_evaluate(k, em, ss))) == expected, "evaluation", ec);
            const auto p = obake::monomial_subs(k, sm, ss);
            c.check(to_q(rat_t(p.first)) == factor && unpack(p.second, n) == rest, "substitution", ec);
            c.event("evaluated monomials");
        }
    }
    // Compatibility with other symbol sets.
    {
        vec<K> v(n);
        for (auto &x : v) {
            x = gen_e<K>(r, lim);
        }
        const K a(v.begin(), v.end());
        // A monomial of this type with too many symbols.
        obake::symbol_set huge(ss);
        for (unsigned i = 0; i < 70; ++i) {
            huge.insert("h" + std::to_string(i));
        }
        c.check(!obake::key_is_compatible(a, huge), "compatible with too many symbols");
        c.event("incompatible monomials");
    }
    // Overflow check over ranges: it must refuse iff the range of an exponent of the products may exceed the limits.
    if (n) {
        const auto gen = [&](std::size_t m) {
            std::vector<vec<K>> x(m, vec<K>(n));
            const bool tame = r.chance(1, 2);
            if (m > 5000u && r.chance(2, 3)) {
                // Small exponents, apart from a few at random places.
                for (auto &y : x) {
                    for (auto &z : y) {
                        z = static_cast<T>(r.below(2));
                    }
                }
                for (u64 i = 0, e = r.below(3); i < e; ++i) {
                    x[r.below(m)][r.below(n)] = gen_e<K>(r, tame ? std::max<i128>(lim / 2, 1) : lim);
                }
                return x;
            }
            for (auto &y : x) {
                for (auto &z : y) {
                    z = gen_e<K>(r, tame ? std::max<i128>(lim / 2, 1) : lim);
                }
            }
            return x;
        };
        const bool large = r.chance(1, 25);
        const auto x = gen(large ? 5001 + r.below(r.chance(1, 3) ? 30000 : 2000) : 1 + r.below(5)), y = gen(large && r.chance(1, 10) ? 5001 + r.below(3000) : 1 + r.below(4));
        std::vector<K> kx, ky;
        std::vector<i128> mnx(n), mxx(n), mny(n), mxy(n);
        const auto upd = [&](const std::vector<vec<K>> &z, std::vector<K> &k, std::vector<i128> &mn, std::vector<i128> &mx) {
            bool first = true;
            for (const auto &e : z) {
                k.emplace_back(e.begin(), e.end());
                for (unsigned i = 0; i < n; ++i) {
                    mn[i] = first ? i128(e[i]) : std::min<i128>(mn[i], e[i]);
                    mx[i] = first ? i128(e[i]) : std::max<i128>(mx[i], e[i]);
                }
                first = false;
            }
        };
        upd(x, kx, mnx, mxx);
        upd(y, ky, mny, mxy);
        // The ranges of the total degrees.
        const auto drange = [&](const std::vector<vec<K>> &z) {
            i128 mn = 0, mx = 0;
            bool first = true;
            for (const auto &e : z) {
                i128 s = 0;
                for (auto q : e) {
                    s += q;
                }
                mn = first ? s : std::min(mn, s);
                mx = first ? s : std::max(mx, s);
                first = false;
            }
            return std::make_pair(mn, mx);
        };
        const auto dx = drange(x), dy = drange(y);
        bool fits = degree_fits<T>(dx.first + dy.first) && degree_fits<T>(dx.second + dy.second);
        for (unsigned i = 0; i < n; ++i) {
            fits = fits && mxx[i] + mxy[i] <= lim && mnx[i] + mny[i] >= (std::is_signed_v<T> ? -lim : i128(0));
        }
        const auto oc = [&] { return cat("maxima ", vs(mxx), vs(mxy), " minima ", vs(mnx), vs(mny), " limit ", wi(lim)); };
        c.check(obake::monomial_range_overflow_check(kx, ky, ss) == fits, "overflow check of ranges", oc);
        c.check(obake::monomial_range_overflow_check(ky, kx, ss) == fits, "overflow check of ranges, swapped", oc);
        c.event(fits ? "ranges without overflow" : "ranges with overflow");
        if (large) {
            c.event("large ranges");
        }
        const std::vector<K> none;
        c.check(obake::monomial_range_overflow_check(kx, none, ss) && obake::monomial_range_overflow_check(none, kx, ss), "empty ranges");
    }
    c.sample(cat("monomials in ", n, " symbols"));
}

} // namespace c06

#define C06(tag, K, N)                                                                                                 \
    VF_WORKLOAD(tag, 700, 40000)                                                                                       \
    {                                                                                                                  \
        c06::run<K, N>(c);                                                                                             \
    }
