// Exception safety: coefficients whose operations fail at chosen points, and failures of the allocations.
#ifndef C12_EXC_HPP
#define C12_EXC_HPP

#include "polyk.hpp"

#include <atomic>
#include <iostream>
#include <memory>
#include <new>
#include <optional>

#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>

namespace c12
{

using namespace vf;

struct injected : std::exception {
    const char *what() const noexcept override
    {
        return "injected failure";
    }
};

// ---- Injection.
// Failures of the operations on coefficients, in any thread.
inline std::atomic<long> countdown{0};
inline std::atomic<long> ticks{0};
inline void tick()
{
    ticks.fetch_add(1, std::memory_order_relaxed);
    if (countdown.load(std::memory_order_relaxed) > 0 && countdown.fetch_sub(1, std::memory_order_relaxed) == 1) {
        throw injected{};
    }
}
// Failures of the allocations, in the current thread only.
extern thread_local long alloc_countdown;
extern thread_local long alloc_ticks;
extern thread_local long outstanding;

// ---- The coefficients.
inline std::atomic<long> live{0}, misuses{0};

template <int N>
class tcx
{
    template <int M>
    friend class tcx;
    using tc = tcx;
    long v = 0;
    // On the heap: the sanitizer sees any use after the end of its life.
    std::unique_ptr<unsigned> m = std::make_unique<unsigned>(magic);
    static constexpr unsigned magic = 0xa11ce;

    static void use(const tc &x)
    {
        if (x.m && *x.m != magic) {
            misuses.fetch_add(1, std::memory_order_relaxed);
        }
    }

public:
    tcx()
    {
        live.fetch_add(1, std::memory_order_relaxed);
    }
    explicit tcx(long n) : v(n)
    {
        tick();
        live.fetch_add(1, std::memory_order_relaxed);
    }
    explicit tcx(int n) : tcx(static_cast<long>(n)) {}
    explicit tcx(const int_t &n) : tcx(static_cast<long>(n)) {}
    tcx(const tcx &o) : v(o.v)
    {
        use(o);
        tick();
        live.fetch_add(1, std::memory_order_relaxed);
    }
    // Conversions from the other types of coefficients.
    template <int M>
        requires(M != N)
    explicit tcx(const tcx<M> &o) : v(o.v)
    {
        tick();
        live.fetch_add(1, std::memory_order_relaxed);
    }
    template <int M>
        requires(M != N)
    explicit tcx(tcx<M> &&o) : v(o.v)
    {
        tick();
        o.v = 0;
        live.fetch_add(1, std::memory_order_relaxed);
    }
    tcx(tcx &&o) noexcept : v(std::exchange(o.v, 0)), m(std::move(o.m))
    {
        live.fetch_add(1, std::memory_order_relaxed);
    }
    tc &operator=(const tc &o)
    {
        use(o);
        tick();
        auto p = std::make_unique<unsigned>(magic);
        m = std::move(p);
        v = o.v;
        return *this;
    }
    tc &operator=(tc &&o) noexcept
    {
        if (this != &o) {
            v = std::exchange(o.v, 0);
            m = std::move(o.m);
        }
        return *this;
    }
    ~tcx()
    {
        live.fetch_sub(1, std::memory_order_relaxed);
        if (m) {
            *m = 0;
        }
    }
    long get() const
    {
        return v;
    }
#define C12_OP(op)                                                                                                     \
    tc &operator op##=(const tc &o)                                                                                    \
    {                                                                                                                  \
        use(*this);                                                                                                    \
        use(o);                                                                                                        \
        tick();                                                                                                        \
        v op## = o.v;                                                                                                  \
        return *this;                                                                                                  \
    }                                                                                                                  \
    friend tc operator op(const tc &a, const tc &b)                                                                    \
    {                                                                                                                  \
        tc r(a);                                                                                                       \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <int M>                                                                                                   \
        requires(M != N)                                                                                               \
    tc &operator op##=(const tcx<M> &o)                                                                                \
    {                                                                                                                  \
        return *this op## = tc(o);                                                                                     \
    }
    C12_OP(+)
    C12_OP(-)
    C12_OP(*)
    C12_OP(/)
#undef C12_OP
    tc operator-() const
    {
        use(*this);
        return tc(-v);
    }
    friend tc operator*(const tc &a, std::int64_t n)
    {
        tc r(a);
        r *= tc(static_cast<long>(n));
        return r;
    }
    friend tc operator*(std::int64_t n, const tc &a)
    {
        return a * n;
    }
    friend bool operator==(const tc &a, const tc &b)
    {
        use(a);
        use(b);
        return a.v == b.v;
    }
    friend bool operator!=(const tc &a, const tc &b)
    {
        return !(a == b);
    }
    friend bool is_zero(const tc &a)
    {
        use(a);
        return a.v == 0;
    }
    friend tc pow(const tc &b, std::int64_t n)
    {
        tc r(1l);
        for (; n > 0; --n) {
            r *= b;
        }
        return r;
    }
    friend tc operator*(const tc &a, const int_t &n)
    {
        return a * static_cast<std::int64_t>(n);
    }
    friend tc operator*(const int_t &n, const tc &a)
    {
        return a * n;
    }
    friend tc diff(const tc &, const std::string &)
    {
        return tc(0l);
    }
    friend std::ostream &operator<<(std::ostream &os, const tc &a)
    {
        return os << a.v;
    }
    // Pretend to be large: not many terms are needed by the algorithms for large operands.
    friend std::size_t byte_size(const tc &)
    {
        return 1000;
    }
};

using tc = tcx<0>;
// Another type of coefficients.
using tc2 = tcx<1>;

// Mixed operations.
#define C12_MIXED(op)                                                                                                  \
    inline tc operator op(const tc2 &a, const tc &b)                                                                   \
    {                                                                                                                  \
        tc r(a);                                                                                                       \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    inline tc operator op(const tc &a, const tc2 &b)                                                                   \
    {                                                                                                                  \
        tc r(a);                                                                                                       \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }
C12_MIXED(+)
C12_MIXED(-)
C12_MIXED(*)
#undef C12_MIXED

} // namespace c12

namespace c12
{
inline Q to_q(const c12::tc &x)
{
    return Q(x.get());
}
} // namespace vf

namespace c12
{

enum class mode { cf, alloc };

struct disarm {
    ~disarm()
    {
        countdown = 0;
        alloc_countdown = 0;
    }
};

inline void arm(mode m, long k)
{
    if (m == mode::cf) {
        ticks = 0;
        countdown = k;
    } else {
        alloc_ticks = 0;
        alloc_countdown = k;
    }
}

// An operation: a and b are constant for it unless said otherwise in mod (1: a, 2: b); d is the destination.
// run returns the result (nullopt: it is in a).
template <typename S>
struct op {
    std::string name;
    unsigned mod;
    std::function<void(S &, S &, S &)> run;
    std::function<MP(const MP &, const MP &)> expect;
};

// Run an operation without failures, then with a failure in each of the points found (or some of them).
template <typename S>
inline void inject(Case &c, mode md, const Gen<S> &ga, const Gen<S> &gb, const Gen<S> &gd, const op<S> &o, unsigned cap,
                   bool salted)
{
    // Keep the set of symbols of the empty series alive: clear() is noexcept, and with no such set around it has
    // to allocate one.
    static const S keep;
    long n_points = 0;
    const auto md_name = md == mode::cf ? "coefficients" : "allocations";
    std::vector<long> ks{0};
    static long salt = 0;
    for (std::size_t i = 0; i < ks.size(); ++i) {
        const auto k = ks[i];
        const auto live0 = live.load();
        // Never reuse a base: its powers would be found in the cache.
        const Q sq(salted ? ++salt : 0l);
        auto ctx = [&] {
            return cat(o.name, " failing at point ", k, " of ", n_points, " a=", mstr(ga.m), " ", sstr(ga.syms), " seg ", ga.seg,
                       " b=", mstr(gb.m), " ", sstr(gb.syms), " seg ", gb.seg, " d=", mstr(gd.m), " salt ", sq.get_str());
        };
        bool thrown = false;
        {
            S a(ga.s), b(gb.s), d(gd.s);
            auto am = ga.m;
            if (salted) {
                am = am + MP(sq);
                a += from_q<tc>(sq);
            }
            const auto bm = gb.m;
            const auto em = o.expect(am, bm);
            {
                disarm dd;
                arm(md, k);
                try {
                    o.run(a, b, d);
                } catch (const injected &) {
                    thrown = true;
                } catch (const std::bad_alloc &) {
                    thrown = true;
                }
                if (i == 0u) {
                    n_points = md == mode::cf ? ticks.load() : alloc_ticks;
                }
            }
            auto value = [&](const S &s, const MP &m, const char *key) { check_eq(c, s, m, key, ctx()); };
            if (!thrown) {
                value(d, em, "result");
            } else {
                c.event(md == mode::cf ? "failures of coefficients" : "failures of allocations");
                check_invariants(c, d, "destination after a failure");
            }
            if (!(o.mod & 1u)) {
                value(a, am, "first operand unchanged");
                c.check(syms_of(a) == ga.syms, "symbols of the first operand unchanged", ctx);
            }
            if (!(o.mod & 2u)) {
                value(b, bm, "second operand unchanged");
                c.check(syms_of(b) == gb.syms, "symbols of the second operand unchanged", ctx);
            }
            if (thrown && c.idx % 2) {
                // Try again: whatever was modified can be assigned to.
                a = ga.s;
                if (salted) {
                    a += from_q<tc>(sq);
                }
                b = gb.s;
                d = gd.s;
                value(a, am, "reassigned after a failure");
                value(d, gd.m, "destination reassigned after a failure");
                if (c.no_throw("second attempt", [&] { o.run(a, b, d); })) {
                    value(d, em, "result of the second attempt");
                }
                c.event("second attempts");
            }
        }
        c.check(salted || live.load() == live0, "coefficients leaked or destroyed twice",
                [&] { return cat(live.load() - live0, " ", ctx()); });
        c.check(misuses.load() == 0, "use of a dead coefficient", ctx);
        if (i == 0u) {
            // Which points to try.
            if (static_cast<u64>(n_points) <= cap) {
                for (long j = 1; j <= n_points; ++j) {
                    ks.push_back(j);
                }
                c.event("operations failed in all their points");
            } else {
                // Log scale and uniform.
                for (unsigned j = 0; j < cap; ++j) {
                    ks.push_back(1 + static_cast<long>(c.rng.below(j % 2 ? static_cast<u64>(n_points) : static_cast<u64>(n_points) / (1 + c.rng.below(20)) + 1u)));
                }
            }
        } else if (k <= n_points && md == mode::cf) {
            // Failures cannot be swallowed.
            c.check(thrown || salted, "failure ignored", ctx);
        }
    }
    c.event((std::string("operations subject to failures of ") + md_name).c_str());
    c.seen(hash_str(o.name) ^ mhash(ga.m) ^ mix64(mhash(gb.m)));
    c.sample(cat(o.name, ": ", ks.size() - 1u, " failures of ", md_name, ", of ", n_points, " points, a=", mstr(ga.m)));
}

inline long tdiv(const Q &q, long d)
{
    return q.get_num().get_si() / d;
}

inline MP mdiv(const MP &a, long d)
{
    MP r;
    for (const auto &[m, q] : a.t) {
        r.add(m, Q(tdiv(q, d)));
    }
    return r;
}

template <typename S>
inline std::vector<op<S>> ring_ops()
{
    using CF = obake::series_cf_t<S>;
    std::vector<op<S>> v;
    auto fst = [](const MP &a, const MP &) { return a; };
    auto add = [](const MP &a, const MP &b) { return a + b; };
    auto sub = [](const MP &a, const MP &b) { return a - b; };
    auto mul = [](const MP &a, const MP &b) { return a * b; };
    v.push_back({"copy", 0, [](S &a, S &, S &d) { S x(a); d = std::move(x); }, fst});
    v.push_back({"copy assignment", 0, [](S &a, S &, S &d) { d = a; }, fst});
    v.push_back({"move assignment", 1, [](S &a, S &, S &d) { d = std::move(a); }, fst});
    v.push_back({"a+b", 0, [](S &a, S &b, S &d) { d = std::as_const(a) + std::as_const(b); }, add});
    v.push_back({"a-b", 0, [](S &a, S &b, S &d) { d = std::as_const(a) - std::as_const(b); }, sub});
    v.push_back({"a*b", 0, [](S &a, S &b, S &d) { d = std::as_const(a) * std::as_const(b); }, mul});
    v.push_back({"a+=b", 0, [](S &a, S &b, S &d) { d = a; d += b; }, add});
    v.push_back({"a-=b", 0, [](S &a, S &b, S &d) { d = a; d -= b; }, sub});
    v.push_back({"a*=b", 0, [](S &a, S &b, S &d) { d = a; d *= b; }, mul});
    v.push_back({"a+=move(b)", 2, [](S &a, S &b, S &d) { d = a; d += std::move(b); }, add});
    v.push_back({"a-=move(b)", 2, [](S &a, S &b, S &d) { d = a; d -= std::move(b); }, sub});
    v.push_back({"move(a)+b", 1, [](S &a, S &b, S &d) { d = std::move(a) + b; }, add});
    v.push_back({"a-move(b)", 2, [](S &a, S &b, S &d) { d = a - std::move(b); }, sub});
    v.push_back({"move(a)*move(b)", 3, [](S &a, S &b, S &d) { d = std::move(a) * std::move(b); }, mul});
    v.push_back({"a+3", 0, [](S &a, S &, S &d) { d = a + tc(3); }, [](const MP &a, const MP &) { return a + MP(Q(3)); }});
    v.push_back({"3-a", 0, [](S &a, S &, S &d) { d = tc(3) - a; }, [](const MP &a, const MP &) { return MP(Q(3)) - a; }});
    v.push_back({"a*3", 0, [](S &a, S &, S &d) { d = a * tc(3); }, [](const MP &a, const MP &) { return a * Q(3); }});
    v.push_back({"a*0", 0, [](S &a, S &, S &d) { d = tc(0) * a; }, [](const MP &, const MP &) { return MP(); }});
    v.push_back({"a*=3", 0, [](S &a, S &, S &d) { d = a; d *= tc(3); }, [](const MP &a, const MP &) { return a * Q(3); }});
    if constexpr (!is_series_v<CF>) {
        v.push_back({"a/2", 0, [](S &a, S &, S &d) { d = a / tc(2); }, [](const MP &a, const MP &) { return mdiv(a, 2); }});
        v.push_back({"a/=2", 0, [](S &a, S &, S &d) { d = a; d /= tc(2); }, [](const MP &a, const MP &) { return mdiv(a, 2); }});
    }
    v.push_back({"-a", 0, [](S &a, S &, S &d) { d = -a; }, [](const MP &a, const MP &) { return -a; }});
    v.push_back({"negate", 0, [](S &a, S &, S &d) { d = a; obake::negate(d); }, [](const MP &a, const MP &) { return -a; }});
    v.push_back({"equality", 0, [](S &a, S &b, S &d) {
                     const bool e = a == b;
                     S x(a);
                     d = e ? S(1) : S(2);
                 },
                 [](const MP &a, const MP &b) { return MP(Q(a == b ? 1 : 2)); }});
    v.push_back({"constant", 0, [](S &a, S &, S &d) { d = S(tc(5), a.get_symbol_set()); }, [](const MP &, const MP &) { return MP(Q(5)); }});
    v.push_back({"trim", 0, [](S &a, S &, S &d) { d = obake::trim(a); }, fst});
    v.push_back({"add_symbols", 0, [](S &a, S &b, S &d) { d = obake::add_symbols(a, b.get_symbol_set()); }, fst});
    v.push_back({"filtered", 0, [](S &a, S &, S &d) { d = obake::filtered(a, [](const auto &) { tick(); return true; }); }, fst});
    v.push_back({"filter", 0, [](S &a, S &, S &d) { d = a; obake::filter(d, [](const auto &) { tick(); return false; }); },
                 [](const MP &, const MP &) { return MP(); }});
    v.push_back({"insertion", 0, [](S &a, S &b, S &d) {
                     // All the terms of a, twice.
                     S x;
                     x.set_symbol_set(a.get_symbol_set());
                     x.set_n_segments(b.get_s_size());
                     for (const auto &t : a) {
                         x.add_term(t.first, t.second);
                         auto cp(t.second);
                         x.add_term(t.first, std::move(cp));
                     }
                     d = std::move(x);
                 },
                 [](const MP &a, const MP &) { return a * Q(2); }});
    v.push_back({"removal", 0, [](S &a, S &, S &d) {
                     d = a;
                     for (const auto &t : a) {
                         d.template add_term<false>(t.first, t.second);
                     }
                 },
                 [](const MP &, const MP &) { return MP(); }});
    v.push_back({"swap", 0, [](S &a, S &, S &d) { S x(a); x.swap(d); }, fst});
    return v;
}

template <typename S>
inline std::vector<op<S>> poly_ops()
{
    std::vector<op<S>> v;
    using K = obake::series_key_t<S>;
    v.push_back({"pow", 0, [](S &a, S &, S &d) { d = obake::pow(a, 3); }, [](const MP &a, const MP &) { return mpow(a, 3); }});
    v.push_back({"pow, twice", 0, [](S &a, S &, S &d) { d = obake::pow(a, 2); d = obake::pow(a, 3); }, [](const MP &a, const MP &) { return mpow(a, 3); }});
    v.push_back({"diff", 0, [](S &a, S &, S &d) { d = obake::diff(a, "x"); }, [](const MP &a, const MP &) { return mdiff(a, "x"); }});
    v.push_back({"subs", 0, [](S &a, S &b, S &d) { d = obake::subs(a, obake::symbol_map<S>{{"x", b}}); },
                 [](const MP &a, const MP &b) { return msubs(a, {{"x", b}}); }});
    v.push_back({"evaluate", 0, [](S &a, S &, S &d) {
                     obake::symbol_map<tc> sm;
                     long n = 1;
                     for (const auto &s : a.get_symbol_set()) {
                         sm.emplace(s, tc(static_cast<long>(pool_idx(s)) - 4));
                         (void)n;
                     }
                     d = S(obake::evaluate(a, sm));
                 },
                 [](const MP &a, const MP &) {
                     std::map<std::string, Q> m;
                     for (std::size_t i = 0; i < NP; ++i) {
                         m[pool()[i]] = Q(static_cast<long>(i) - 4);
                     }
                     return MP(meval(a, m));
                 }});
    v.push_back({"truncate", 0, [](S &a, S &, S &d) { d = a; obake::truncate_degree(d, 3); }, [](const MP &a, const MP &) { return mtrunc(a, 3); }});
    v.push_back({"truncated product", 0, [](S &a, S &b, S &d) { d = obake::polynomials::truncated_mul(a, b, 4); }, [](const MP &a, const MP &b) { return mtrunc(a * b, 4); }});
    v.push_back({"conversion", 0, [](S &a, S &, S &d) {
                     using S2 = obake::polynomial<K, tc2>;
                     S2 x(a);
                     S2 y(std::move(x));
                     S cp(a);
                     y = std::move(cp);
                     d = S(std::move(y));
                 },
                 [](const MP &a, const MP &) { return a; }});
    v.push_back({"mixed sum", 0, [](S &a, S &b, S &d) {
                     using S2 = obake::polynomial<K, tc2>;
                     S2 x(a);
                     d = x + b;
                     d = a - std::move(x) + d;
                 },
                 [](const MP &a, const MP &b) { return a + b; }});
    return v;
}

inline GenCfg cfg(Case &c)
{
    GenCfg g;
    g.restrict_syms(c.rng, 5);
    if (c.idx % 2) {
        g.universe[0] = "x";
        std::sort(g.universe.begin(), g.universe.end());
    }
    g.max_syms = 3;
    g.max_terms = 6;
    g.emax = 3;
    g.huge = false;
    g.fractions = false;
    g.max_log2_seg = 2;
    return g;
}

template <typename S>
inline void all_ops(Case &c, mode md, const std::vector<op<S>> &ops, unsigned cap)
{
    const auto g = cfg(c);
    auto &r = c.rng;
    const auto &o = ops[c.idx % ops.size()];
    auto gen = [&]() {
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            auto gi = g;
            gi.max_terms = 3;
            auto go = g;
            go.max_terms = 4;
            return gen_rec<S>(r, go, gi);
        } else {
            return gen_poly<S>(r, g);
        }
    };
    auto a = gen(), b = gen(), d = gen();
    if (r.chance(1, 3)) {
        b.m = a.m;
        b.s = a.s;
        b.syms = a.syms;
    }
    if (md == mode::alloc && o.name == "swap") {
        // The swap of boost's small_vector is noexcept, but it may need memory.
        c.event("swaps, not subject to failures of allocations");
        S x(a.s), y(b.s);
        x.swap(y);
        check_eq(c, x, b.m, "swap", mstr(a.m));
        check_eq(c, y, a.m, "swap", mstr(a.m));
        return;
    }
    const bool salted = o.name.substr(0, 3) == "pow" || o.name == "subs";
    inject(c, md, a, b, d, o, cap, salted);
}

} // namespace c12

#endif
