// Exponents near the limits: every operation is exact, or reports an overflow.
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/safe_cast.hpp>

#include "wide.hpp"

namespace c04
{

using namespace vf;

template <typename S>
inline void run(Case &c, unsigned max_syms, bool packed)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using T = typename K::value_type;
    auto &r = c.rng;

    // The symbols of the operands.
    const std::vector<std::string> P(pool().begin(), pool().end());
    const auto draw = [&](unsigned n) {
        Syms s;
        while (s.size() < n) {
            s.insert(r.pick(P));
        }
        return std::vector<std::string>(s.begin(), s.end());
    };
    const auto U = draw(1u + static_cast<unsigned>(r.below(max_syms)));
    const auto sub = [&]() {
        if (r.chance(2, 3)) {
            return U;
        }
        Syms s;
        for (const auto &x : U) {
            if (r.chance(2, 3)) {
                s.insert(x);
            }
        }
        return std::vector<std::string>(s.begin(), s.end());
    };
    const auto build = [&](unsigned max_t) {
        const auto syms = sub();
        S s;
        s.set_symbol_set(obake::symbol_set(syms.begin(), syms.end()));
        if (syms.empty()) {
            s.add_term(K(s.get_symbol_set()), C(3));
            return s;
        }
        const auto lim = measured_limit<K>(packed ? syms.size() : 1u);
        const auto limU = measured_limit<K>(packed ? U.size() : 1u);
        const auto nt = 1u + r.below(max_t);
        // A regime for the whole operand.
        const auto regime = r.below(4);
        for (u64 i = 0; i < nt; ++i) {
            std::vector<T> v;
            for (std::size_t k = 0; k < syms.size(); ++k) {
                const auto base = r.chance(1, 2) ? lim : limU;
                i128 e = 0;
                switch (regime == 3 ? r.below(3) : regime) {
                    case 0:
                        e = base / 2 + r.range(-3, 3);
                        break;
                    case 1:
                        e = base - r.range(0, 4);
                        break;
                    default:
                        e = r.range(0, 6);
                        break;
                }
                if (r.chance(1, 4)) {
                    e = 0;
                }
                e = std::max<i128>(0, std::min(e, lim));
                if (std::is_signed_v<T> && r.chance(1, 3)) {
                    e = -e;
                }
                v.push_back(static_cast<T>(e));
            }
            s.add_term(K(v.begin(), v.end()), C(static_cast<long>(r.range(1, 7))));
        }
        return s;
    };

    const auto judge = [&](const char *op, const WMP &expected, auto &&f, const std::string &ctx) {
        try {
            const auto ret = f();
            if (!check_invariants(c, ret, op)) {
                return;
            }
            const auto got = to_wide(ret);
            c.check(got == expected, op, [&] { return ctx + " got " + wstr(got) + " expected " + wstr(expected); });
            c.event("results exact");
        } catch (const std::overflow_error &) {
            c.event("overflows reported");
        }
        c.event(op);
    };

    for (int rep = 0; rep < 3; ++rep) {
        const auto a = build(4), b = build(4);
        const auto wa = to_wide(a), wb = to_wide(b);
        const auto ctx = cat("a=", wstr(wa), " b=", wstr(wb));
        const Syms sa = syms_of(a);
        c.seen(hash_str(ctx));
        c.sample(ctx);
        judge("mul", wa * wb, [&] { return a * b; }, ctx);
        judge("add", wa + wb, [&] { return a + b; }, ctx);
        if (!sa.empty()) {
            const auto x = r.pick(std::vector<std::string>(sa.begin(), sa.end()));
            // Derivative.
            WMP d;
            for (const auto &[m, q] : wa.t) {
                const auto e = wexp(m, x);
                if (e != 0) {
                    d.add(wset(m, x, e - 1), q * Q(mpz_class(wi(e))));
                }
            }
            judge("diff", d, [&] { return obake::diff(a, x); }, ctx + " d/d" + x);
            // Antiderivative.
            bool minus1 = false;
            WMP in;
            for (const auto &[m, q] : wa.t) {
                const auto e = wexp(m, x);
                if (e == -1) {
                    minus1 = true;
                } else {
                    in.add(wset(m, x, e + 1), q / Q(mpz_class(wi(e + 1))));
                }
            }
            if (!minus1) {
                judge("integrate", in, [&] { return obake::integrate(a, x); }, ctx + " over " + x);
            }
            // Powers of a monomial.
            S mono;
            mono.set_symbol_set(a.get_symbol_set());
            mono.add_term(a.begin()->first, C(1));
            const auto wm = to_wide(mono);
            i64 n = r.range(0, 5);
            switch (r.below(4)) {
                case 0:
                    n = static_cast<i64>(r.wild() >> 1);
                    break;
                case 1:
                    if (std::is_signed_v<T>) {
                        n = -n;
                    }
                    break;
                case 2: {
                    // Right at the limit of the first symbol.
                    const auto lim = measured_limit<K>(packed ? sa.size() : 1u);
                    const auto &m = wm.t.begin()->first;
                    if (!m.empty()) {
                        auto e = m.begin()->second;
                        e = e < 0 ? -e : e;
                        n = static_cast<i64>(std::min<i128>(lim / e + r.range(0, 1), std::numeric_limits<i64>::max()));
                    }
                    break;
                }
                default:
                    break;
            }
            WMP pw;
            WMono pm;
            for (const auto &[s, e] : wm.t.begin()->first) {
                pm = wset(pm, s, e * n);
            }
            pw.add(pm, 1);
            judge("pow", pw, [&] { return obake::pow(mono, n); }, cat(wstr(wm), " to the power of ", n));
            // Substitution of a monomial for a symbol, small nonnegative powers.
            bool small = true;
            WMP sb;
            for (const auto &[m, q] : wa.t) {
                const auto e = wexp(m, x);
                if (e < 0 || e > 6) {
                    small = false;
                    break;
                }
                WMP cur;
                cur.add(wset(m, x, 0), q);
                for (i128 i = 0; i < e; ++i) {
                    cur = cur * wb;
                }
                sb = sb + cur;
            }
            if (small && wb.t.size() < 3u) {
                judge("subs", sb, [&] { return obake::subs(a, obake::symbol_map<S>{{x, b}}); }, ctx + " for " + x);
            }
        }
    }
    // Construction from exponents out of range.
    {
        const auto n = 1u + r.below(max_syms);
        const auto lim = measured_limit<K>(packed ? n : 1u);
        std::vector<i64> v;
        bool bad = false;
        for (u64 i = 0; i < n; ++i) {
            i128 e = 0;
            switch (r.below(4)) {
                case 0:
                    e = lim + r.range(-1, 2);
                    break;
                case 1:
                    e = -lim + r.range(-2, 1);
                    break;
                case 2:
                    e = static_cast<i64>(r.wild());
                    break;
                default:
                    e = r.range(0, 3);
                    break;
            }
            if (e > std::numeric_limits<i64>::max()) {
                e = std::numeric_limits<i64>::max();
            }
            e = std::max<i128>(e, std::numeric_limits<i64>::min());
            v.push_back(static_cast<i64>(e));
            const i128 lo = std::is_signed_v<T> ? -lim : i128(0);
            bad = bad || e > lim || e < lo;
        }
        std::string ctx = "exponents";
        for (auto x : v) {
            ctx += " " + std::to_string(x);
        }
        try {
            const K k(v.begin(), v.end());
            c.check(!bad, "exponents out of range accepted", [&] { return ctx; });
            const auto u = unpack(k, v.size());
            c.check(std::equal(u.begin(), u.end(), v.begin(), v.end(), [](i128 p, i64 q) { return p == q; }), "construction", [&] { return ctx; });
            c.event("constructions");
        } catch (const std::overflow_error &) {
            c.check(bad, "valid exponents rejected", [&] { return ctx; });
            c.event("constructions rejected");
        } catch (const obake::safe_cast_failure &) {
            c.check(bad, "valid exponents rejected", [&] { return ctx; });
            c.event("constructions rejected");
        }
    }
}

// Moderate exponents: far from the limits, no overflow may be reported.
template <typename S>
inline void moderate(Case &c, unsigned max_syms, bool packed)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using T = typename K::value_type;
    auto &r = c.rng;
    Syms s;
    const auto n = 1u + r.below(max_syms);
    while (s.size() < n) {
        s.insert(r.pick(pool()));
    }
    // The sum of the absolute values of all the exponents of a product is within the limits.
    auto lim = measured_limit<K>(packed ? n : 1u) / static_cast<i128>(2u * n);
    const auto build = [&]() {
        S p;
        p.set_symbol_set(to_ss(s));
        for (u64 i = 1 + r.below(5); i; --i) {
            std::vector<T> v;
            for (u64 k = 0; k < n; ++k) {
                auto e = static_cast<i64>(lim) - r.range(0, std::min<i64>(3, static_cast<i64>(lim)));
                if (r.chance(1, 3)) {
                    e = e / 2;
                }
                v.push_back(static_cast<T>(std::is_signed_v<T> && r.chance(1, 2) ? -e : e));
            }
            p.add_term(K(v.begin(), v.end()), C(static_cast<long>(r.range(1, 7))));
        }
        return p;
    };
    const auto a = build(), b = build();
    const auto wa = to_wide(a), wb = to_wide(b);
    const auto ctx = cat("a=", wstr(wa), " b=", wstr(wb));
    c.no_throw("overflow reported although the exponents fit", [&] {
        const auto ret = a * b;
        check_invariants(c, ret, "moderate");
        const auto got = to_wide(ret);
        c.check(got == wa * wb, "product", [&] { return ctx + " got " + wstr(got); });
        c.check(to_wide(obake::pow(a, 2)) == wa * wa, "square", [&] { return ctx; });
        c.event("products within the limits");
    });
    c.seen(hash_str(ctx));
}

// Thousands of small terms, a few of them near the limits.
template <typename S>
inline void large(Case &c, bool packed)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using T = typename K::value_type;
    auto &r = c.rng;
    const std::size_t n = 3;
    const auto lim = measured_limit<K>(packed ? n : 1u);
    const Syms s{"x", "y", "z"};
    S a, b;
    a.set_symbol_set(to_ss(s));
    b.set_symbol_set(to_ss(s));
    const auto total = 5001 + static_cast<long>(r.below(1500));
    for (long i = 0; i < total; ++i) {
        const std::vector<T> v{static_cast<T>(i % 19), static_cast<T>(i / 19 % 19), static_cast<T>(i / 361)};
        a.add_term(K(v.begin(), v.end()), C(i % 5 + 1));
    }
    const auto extreme = [&](S &p, bool full) {
        std::vector<T> v{0, 0, 0};
        i128 e = full ? lim - r.range(0, 2) : lim / 2 + r.range(-1, 2);
        if (std::is_signed_v<T> && r.chance(1, 2)) {
            e = -e;
        }
        const auto at = r.below(n);
        v[at] = static_cast<T>(e);
        if (std::is_signed_v<T> && r.chance(2, 3)) {
            // So that the degree says nothing about the exponents.
            v[(at + 1 + r.below(2)) % n] = static_cast<T>(-e);
        }
        p.add_term(K(v.begin(), v.end()), C(1));
    };
    const bool full = r.chance(1, 2);
    extreme(a, full);
    if (!full || r.chance(1, 6)) {
        extreme(b, full);
    }
    std::vector<T> one;
    for (std::size_t i = 0; i < n; ++i) {
        one.push_back(static_cast<T>(r.range(std::is_signed_v<T> ? -3 : 0, 3)));
    }
    b.add_term(K(one.begin(), one.end()), C(1));
    const auto wa = to_wide(a), wb = to_wide(b);
    const auto ctx = [&] { return cat("many terms, the largest exponents of them at ", full ? "the limit" : "half of the limit", ", times ", wstr(wb)); };
    const auto w = wa * wb;
    // Whether the exponents of the result are all within the limits.
    bool fits = true;
    for (const auto &[m, q] : w.t) {
        for (const auto &[x, e] : m) {
            fits = fits && e <= lim && e >= (std::is_signed_v<T> ? -lim : i128(0));
        }
    }
    for (int i = 0; i < 2; ++i) {
        try {
            const auto ret = i ? b * a : a * b;
            check_invariants(c, ret, "large");
            c.check(fits, "overflow not reported", ctx);
            c.check(to_wide(ret) == w, "large product", ctx);
            c.event("large products exact");
        } catch (const std::overflow_error &) {
            c.event("overflows of large products reported");
        }
    }
    c.seen(c.idx);
}

} // namespace c04

#define C04_TYPE(tag, K, C, ms, packed)                                                                               \
    VF_WORKLOAD("limits-" tag, 150, 8000)                                                                            \
    {                                                                                                                  \
        c04::run<obake::polynomial<K, C>>(c, ms, packed);                                                              \
    }                                                                                                                  \
    VF_WORKLOAD("large-" tag, 24, 250)                                                                              \
    {                                                                                                                  \
        c04::large<obake::polynomial<K, C>>(c, packed);                                                                \
    }                                                                                                                  \
    VF_WORKLOAD("moderate-" tag, 150, 5000)                                                                           \
    {                                                                                                                  \
        c04::moderate<obake::polynomial<K, C>>(c, ms, packed);                                                         \
    }
