// Powers, in all orders, against the repeated products of the model: what was computed (or interrupted) before must not matter.
#ifndef C15_POW_HPP
#define C15_POW_HPP

#include <atomic>
#include <chrono>
#include <thread>

#include <tbb/blocked_range.h>
#include <tbb/parallel_for.h>
#include <tbb/partitioner.h>

#include "polyk.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/power_series/power_series.hpp>

namespace c15
{

using namespace vf;

// A base: a description, from which objects are made.
struct Base {
    MP m;
    Syms syms;
    unsigned seg = 0;
    // For the power series.
    int kind = 0;
    i64 d = 0;
    Syms ts;
    // The powers in the model.
    std::vector<MP> p;

    MP trunc(const MP &x) const
    {
        return kind == 0 ? x : kind == 1 ? mtrunc(x, d) : mtrunc(x, d, ts);
    }
    const MP &pow(unsigned n)
    {
        if (p.empty()) {
            p.emplace_back(Q(1));
        }
        while (p.size() <= n) {
            p.push_back(p.size() == 1u ? m : trunc(p.back() * m));
        }
        return p[n];
    }
    std::string str() const
    {
        return cat(mstr(m), " in ", sstr(syms), kind ? cat(" to degree ", d, kind == 2 ? " in " + sstr(ts) : "") : "", " 2^", seg);
    }
};

template <typename S>
inline constexpr bool is_ps = false;
template <typename K, typename C>
inline constexpr bool is_ps<obake::p_series<K, C>> = true;

template <typename S>
inline S build(Rng &r, const Base &b)
{
    using C = obake::series_cf_t<S>;
    if constexpr (is_series_v<C>) {
        // The symbols of the second half of the pool are those of the coefficients.
        using K = obake::series_key_t<S>;
        Syms so, si;
        for (const auto &x : b.syms) {
            (pool_idx(x) < NP / 2 ? so : si).insert(x);
        }
        std::map<Mono, MP> parts;
        for (const auto &[m, q] : b.m.t) {
            Mono o{}, i{};
            for (std::size_t k = 0; k < NP; ++k) {
                (k < NP / 2 ? o : i)[k] = m[k];
            }
            parts[o].add(i, q);
        }
        S s;
        s.set_symbol_set(to_ss(so));
        s.set_n_segments(b.seg);
        for (const auto &[o, mp] : parts) {
            s.add_term(make_key<K>(o, so), from_model<C>(mp, si));
        }
        return s;
    } else {
        S s = from_model<S>(b.m, b.syms, b.seg);
        if constexpr (is_ps<S>) {
            if (b.kind == 1) {
                obake::set_truncation(s, b.d);
            } else if (b.kind == 2) {
                obake::set_truncation(s, b.d, to_ss(b.ts));
            }
        }
        (void)r;
        return s;
    }
}

// The description of the bases of a case: they share keys, coefficients, symbols, so that they look alike.
template <typename S>
inline std::vector<Base> family(Case &c, Rng &r)
{
    using C = obake::series_cf_t<S>;
    constexpr bool dbl = std::is_same_v<C, double>;
    GenCfg g;
    g.restrict_syms(r, 5);
    g.max_syms = 4;
    g.max_terms = dbl ? 4 : 5;
    g.emax = 4;
    g.cmax = dbl ? 3 : 5;
    g.huge = false;
    g.fractions = !dbl;
    using T = typename obake::series_key_t<S>::value_type;
    const bool laurent = std::is_signed_v<T> && !is_ps<S> && r.chance(1, 3);
    g.emin = laurent ? -3 : 0;
    std::vector<Base> v;
    while (v.size() < 6u) {
        Base b;
        if (v.empty() || r.chance(1, 4)) {
            b.syms = gen_syms(r, g);
            using G = std::conditional_t<is_series_v<C>, rat_t, C>;
            b.m = gen_mp<G>(r, b.syms, g);
            if (b.m.size() < 2u && r.chance(2, 3)) {
                continue;
            }
            b.seg = static_cast<unsigned>(r.below(4));
        } else {
            b = r.pick(v);
            b.p.clear();
            switch (r.below(7)) {
                case 0:
                    // Other coefficients, the same keys.
                    b.m = b.m * Q(static_cast<long>(r.chance(1, 2) ? -1 : 2));
                    break;
                case 1: {
                    // One other coefficient.
                    if (b.m.size()) {
                        auto it = b.m.t.begin();
                        std::advance(it, static_cast<long>(r.below(b.m.size())));
                        it->second = it->second == 3 ? Q(2) : Q(3);
                    }
                    break;
                }
                case 2:
                    // More symbols.
                    b.syms.insert(r.pick(g.universe));
                    break;
                case 3: {
                    // A symbol renamed: the keys may well look the same.
                    Syms used;
                    for (const auto &x : g.universe) {
                        if (!b.syms.count(x)) {
                            used.insert(x);
                        }
                    }
                    if (!used.empty() && !b.syms.empty()) {
                        const auto from = *b.syms.begin(), to = *used.begin();
                        MP n;
                        for (const auto &[m0, q] : b.m.t) {
                            auto m = m0;
                            std::swap(m[pool_idx(from)], m[pool_idx(to)]);
                            n.add(m, q);
                        }
                        b.m = n;
                        b.syms.erase(from);
                        b.syms.insert(to);
                    }
                    break;
                }
                case 4:
                    b.seg = static_cast<unsigned>(r.below(6));
                    break;
                case 5: {
                    // One term more or less.
                    if (b.m.size() > 1u && r.chance(1, 2)) {
                        b.m.t.erase(b.m.t.begin());
                    } else {
                        b.m.add(Mono{}, Q(1));
                    }
                    break;
                }
                default:
                    break;
            }
        }
        if (is_ps<S> && r.chance(1, 2)) {
            b.kind = static_cast<int>(r.below(3));
            b.d = r.range(1, 7);
            b.ts = gen_syms(r, g);
        }
        b.m = b.trunc(b.m);
        v.push_back(std::move(b));
    }
    (void)c;
    return v;
}

template <typename S>
inline bool check_pow(Case &c, const S &s, Base &b, unsigned n, const char *key, const std::string &ctx)
{
    bool ok = check_eq(c, s, b.pow(n), key, cat(ctx, " : ", b.str(), " to the ", n));
    if constexpr (is_ps<S>) {
        int kind = static_cast<int>(obake::get_truncation(s).index());
        ok = c.check(kind == b.kind, "truncation of a power", [&] { return cat(b.str(), " got kind ", kind); }) && ok;
        if (kind == 1) {
            ok = c.check(std::get<1>(obake::get_truncation(s)) == b.d, "truncation of a power", [&] { return b.str(); }) && ok;
        } else if (kind == 2) {
            const auto &p = std::get<2>(obake::get_truncation(s));
            ok = c.check(p.first == b.d && p.second == to_ss(b.ts), "truncation of a power", [&] { return b.str(); }) && ok;
        }
    }
    return ok;
}

template <typename S>
inline S do_pow(Rng &r, S &s, unsigned n)
{
    using C = obake::series_cf_t<S>;
    switch (r.below(5)) {
        case 0:
            return obake::pow(s, static_cast<int>(n));
        case 1:
            return obake::pow(std::as_const(s), n);
        case 2: {
            S x(s);
            return obake::pow(std::move(x), static_cast<long long>(n));
        }
        case 3:
            if constexpr (std::is_same_v<C, int_t> || std::is_same_v<C, rat_t>) {
                return obake::pow(s, int_t(n));
            }
            [[fallthrough]];
        default:
            return obake::pow(s, static_cast<short>(n));
    }
}

inline bool affordable(const Base &b, unsigned n)
{
    // A bound to the number of terms of the power.
    double terms = 1;
    const double k = static_cast<double>(b.m.size());
    for (unsigned i = 0; i < n && k > 1; ++i) {
        terms = terms * (k + i) / (i + 1.);
    }
    return terms < 1500;
}

template <typename S>
inline void history(Case &c, unsigned steps)
{
    auto &r = c.rng;
    auto v = family<S>(c, r);
    if (r.chance(1, 16)) {
        obake::customisation::internal::clear_series_pow_map();
        c.event("caches cleared");
    }
    using C = obake::series_cf_t<S>;
    const unsigned nmax = std::is_same_v<C, double> ? 4 : 7;
    std::string log;
    std::vector<S> live;
    for (auto &b : v) {
        live.push_back(build<S>(r, b));
        log += b.str() + "; ";
    }
    c.seen(log);
    c.sample(log);
    for (unsigned i = 0; i < steps; ++i) {
        const auto k = r.below(v.size());
        auto &b = v[k];
        auto &s = live[k];
        switch (r.below(8)) {
            case 0: {
                // A new object, equal to the previous one; or one with another value in its place.
                if (r.chance(1, 2)) {
                    s = build<S>(r, b);
                } else {
                    const auto j = r.below(v.size());
                    if (j != k) {
                        b = v[j];
                        s = live[j];
                    }
                }
                log += cat(k, " rebuilt; ");
                break;
            }
            case 1: {
                // Exponents which are refused.
                if (b.m.size() < 2u) {
                    break;
                }
                bool thrown = false;
                try {
                    (void)obake::pow(s, -static_cast<int>(r.range(1, 3)));
                } catch (const std::invalid_argument &) {
                    thrown = true;
                }
                c.check(thrown, "a negative exponent was accepted", [&] { return b.str(); });
                check_eq(c, s, b.m, "base after a refusal");
                c.event("exponents refused");
                break;
            }
            case 2: {
                // Negative powers of single terms.
                if constexpr (std::is_same_v<C, rat_t>) {
                    using T = typename obake::series_key_t<S>::value_type;
                    if (b.m.size() != 1u || b.kind || !std::is_signed_v<T>) {
                        break;
                    }
                    const auto n = static_cast<int>(r.range(1, 3));
                    const auto &t = *b.m.t.begin();
                    MP e;
                    Mono m{};
                    for (std::size_t x = 0; x < NP; ++x) {
                        m[x] = -n * t.first[x];
                    }
                    Q q(1);
                    for (int x = 0; x < n; ++x) {
                        q /= t.second;
                    }
                    e.add(m, q);
                    check_eq(c, obake::pow(s, -n), e, "negative power", b.str());
                    c.event("negative powers");
                }
                break;
            }
            default: {
                const auto n = static_cast<unsigned>(r.below(r.chance(1, 6) ? nmax * 2u : nmax));
                if (!affordable(b, n)) {
                    break;
                }
                log += cat(k, "^", n, "; ");
                S p = do_pow(r, s, n);
                check_pow(c, p, b, n, "power", log);
                check_eq(c, s, b.m, "base of a power", log);
                c.check(s.get_symbol_set() == to_ss([&] {
                            Syms o;
                            for (const auto &x : b.syms) {
                                if (!is_series_v<C> || pool_idx(x) < NP / 2) {
                                    o.insert(x);
                                }
                            }
                            return o;
                        }()),
                        "symbols of the base");
                if (n > 0u && b.m.size() > 1u) {
                    c.check(p.get_symbol_set() == s.get_symbol_set(), "symbols of a power", [&] { return log; });
                }
                c.event("powers", 1);
                if (n > 1u && b.m.size() > 1u) {
                    c.event("powers by multiplication");
                }
                // The result belongs to the caller.
                if (r.chance(1, 3)) {
                    for (auto &t : p) {
                        obake::negate(t.second);
                    }
                } else if (r.chance(1, 2)) {
                    p.clear();
                }
            }
        }
    }
}

// Several threads, the same bases.
template <typename S>
inline void threads(Case &c)
{
    auto v = family<S>(c, c.rng);
    std::vector<S> live;
    std::vector<unsigned> lim;
    std::string log;
    for (auto &b : v) {
        live.push_back(build<S>(c.rng, b));
        log += b.str() + "; ";
        unsigned n = 1;
        while (n < 6u && affordable(b, n + 1u)) {
            ++n;
        }
        lim.push_back(n);
        b.pow(n);
    }
    c.seen(log);
    c.sample(log);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    const int nt = 4;
    for (int t = 0; t < nt; ++t) {
        const auto seed = c.rng.next();
        ts.emplace_back([&, seed] {
            Rng r(seed);
            auto mine = v;
            ++ready;
            while (ready < nt) {
            }
            for (int i = 0; i < 10; ++i) {
                const auto k = r.below(live.size());
                const auto n = static_cast<unsigned>(r.below(lim[k] + 1u));
                const S p = obake::pow(std::as_const(live[k]), n);
                check_pow(c, p, mine[k], n, "power in a thread", log);
                c.event("powers in threads");
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
}

// Large bases: the products run in parallel.
template <typename S>
inline S large_base(Rng &r, std::vector<std::int64_t> &id)
{
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    S p;
    p.set_symbol_set(obake::symbol_set{"x", "y", "z"});
    p.set_n_segments(static_cast<unsigned>(r.below(3)));
    const auto k = r.range(1, 1000000);
    id.push_back(k);
    for (int i = 0; i < 1500; ++i) {
        const T e[] = {static_cast<T>(i % 31), static_cast<T>((i * 7) % 37), static_cast<T>((i / 31) % 50)};
        p.add_term(K(e, e + 3), obake::series_cf_t<S>(static_cast<int>(i + 1 + k)));
    }
    return p;
}

// A large base multiplied in parallel while the group of tasks is cancelled by the failure of another.
template <typename S>
inline void cancelled(Case &c)
{
    auto &r = c.rng;
    std::vector<std::int64_t> id;
    const S p = large_base<S>(r, id);
    const S expected = p * p;
    const auto delay = r.below(6000);
    c.seen(cat(id[0], " ", delay));
    c.sample(cat("base ", id[0], " interrupted after ", delay, " us"));
    for (int i = 0; i < 2; ++i) {
        bool thrown = false;
        try {
            tbb::parallel_for(
                tbb::blocked_range<int>(0, 2, 1),
                [&](const auto &rg) {
                    for (int k = rg.begin(); k != rg.end(); ++k) {
                        if (k == 0) {
                            (void)obake::pow(p, 2);
                        } else {
                            std::this_thread::sleep_for(std::chrono::microseconds(delay));
                            throw std::runtime_error("another task");
                        }
                    }
                },
                tbb::simple_partitioner{});
        } catch (const std::runtime_error &) {
            thrown = true;
        }
        if (thrown) {
            c.event("groups of tasks cancelled");
        }
    }
    const S later = obake::pow(p, 2);
    check_invariants(c, later, "power after a cancellation");
    c.check(later == expected, "power after a cancellation", [&] { return cat(later.size(), " terms instead of ", expected.size()); });
}

// Many tasks which compute large powers: the threads which wait for a product must not take up another power.
template <typename S>
inline void tasks(Case &c)
{
    auto &r = c.rng;
    std::vector<std::int64_t> id;
    std::vector<S> v, e;
    for (int i = 0; i < 3; ++i) {
        v.push_back(large_base<S>(r, id));
        e.push_back(v.back() * v.back());
    }
    c.seen(cat(id[0], " ", id[1], " ", id[2]));
    std::atomic<unsigned> bad{0};
    tbb::parallel_for(
        tbb::blocked_range<int>(0, 12, 1),
        [&](const auto &rg) {
            for (int k = rg.begin(); k != rg.end(); ++k) {
                const auto i = static_cast<std::size_t>(k) % v.size();
                const S p = obake::pow(v[i], 2);
                bad += p != e[i];
                c.event("large powers in tasks");
            }
        },
        tbb::simple_partitioner{});
    c.check(bad == 0u, "power in a task", [&] { return cat(bad.load(), " are wrong"); });
}

// Failures while a power is being computed: overflows of the exponents.
template <typename S>
inline void overflowing(Case &c)
{
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    auto &r = c.rng;
    // The size of one field is known only by trying.
    const auto fits = [&](i64 x) {
        try {
            S p;
            p.set_symbol_set(obake::symbol_set{"x", "y"});
            const T e[] = {static_cast<T>(x), 0};
            p.add_term(K(e, e + 2), 1);
            return true;
        } catch (const std::overflow_error &) {
            return false;
        }
    };
    i64 lo = 1, hi = i64(1) << (sizeof(T) * 8u - 2u);
    while (lo + 1 < hi) {
        const auto m = lo + (hi - lo) / 2;
        (fits(m) ? lo : hi) = m;
    }
    // The highest power which fits.
    const auto n = static_cast<unsigned>(r.range(2, 5));
    const i64 e0 = lo / n - r.range(0, 3);
    Base b;
    b.syms = Syms{"x", "y"};
    Mono m{};
    m[pool_idx("x")] = e0;
    b.m.add(m, Q(static_cast<long>(r.range(1, 5))));
    m[pool_idx("x")] = 0;
    m[pool_idx("y")] = 1;
    b.m.add(m, Q(static_cast<long>(r.range(1, 5))));
    c.seen(b.str());
    c.sample(b.str());
    S s = build<S>(r, b);
    for (int i = 0; i < 8; ++i) {
        const auto k = static_cast<unsigned>(r.below(n + 4u));
        bool thrown = false;
        try {
            const S p = do_pow(r, s, k);
            check_pow(c, p, b, k, "power near the limit", b.str());
        } catch (const std::overflow_error &) {
            thrown = true;
        }
        if (static_cast<i128>(e0) * k > static_cast<i128>(lo)) {
            c.check(thrown, "overflow of an exponent not noticed", [&] { return cat(b.str(), " to the ", k); });
            c.event("powers which overflow");
        } else if (k <= n) {
            c.check(!thrown, "a power which fits was refused", [&] { return cat(b.str(), " to the ", k, " limit ", lo); });
        }
    }
}

} // namespace c15

#define C15_TYPE(name, ...)                                                                                            \
    VF_WORKLOAD("history-" name, 150, 5000)                                                                            \
    {                                                                                                                  \
        c15::history<__VA_ARGS__>(c, 24);                                                                              \
    }                                                                                                                  \
    VF_WORKLOAD("threads-" name, 24, 1000)                                                                             \
    {                                                                                                                  \
        c15::threads<__VA_ARGS__>(c);                                                                                  \
    }

#endif
