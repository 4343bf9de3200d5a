// The parallel algorithms under the race detector: randomised partitions and schedules, results compared with the model.
#ifndef C17_PAR_HPP
#define C17_PAR_HPP

#include <tbb/vf_tbb.h>

#include "c12_exc.hpp"

#include <obake/byte_size.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/power_series/power_series.hpp>

namespace c17
{

using namespace vf;
using c12::tc;

template <typename S>
inline Gen<S> gen(Rng &r, const Syms &syms, unsigned n, i64 lo, i64 hi)
{
    Gen<S> x;
    x.syms = syms;
    x.seg = static_cast<unsigned>(r.below(4));
    const bool clustered = r.chance(1, 4);
    for (unsigned i = 0; i < n; ++i) {
        Mono m{};
        for (const auto &s : syms) {
            m[pool_idx(s)] = r.range(lo, hi) * (clustered ? 4 : 1);
        }
        x.m.add(m, Q(static_cast<long>(r.range(0, 1) ? r.range(1, 4) : -r.range(1, 4))));
    }
    x.s = from_model<S>(x.m, x.syms, x.seg);
    return x;
}

struct tasks_counter {
    Case &c;
    u64 n0;
    explicit tasks_counter(Case &c_) : c(c_), n0(tbb::vfd::n_tasks())
    {
        tbb::vfd::state().store(c.rng.next());
    }
    ~tasks_counter()
    {
        c.event("parallel tasks", tbb::vfd::n_tasks() - n0);
    }
};

// Products of all kinds.
template <typename A, typename B>
inline void products(Case &c, i64 lo)
{
    auto &r = c.rng;
    tasks_counter tk(c);
    Syms sa{"a", "x", "z"}, sb;
    if (r.chance(1, 2)) {
        sb = sa;
    } else {
        sb = Syms{"x", "z"};
        if (r.chance(1, 2)) {
            sb.insert("b");
        }
    }
    const auto hi = r.chance(1, 2) ? 6 : 14;
    const auto a = gen<A>(r, sa, 34u + static_cast<unsigned>(r.below(60)), lo, hi);
    const auto b = gen<B>(r, sb, 34u + static_cast<unsigned>(r.below(60)), lo, hi);
    const auto ctx = cat(mstr(a.m).substr(0, 80), "... 2^", a.seg, " times ", mstr(b.m).substr(0, 80), "... 2^", b.seg);
    c.sample(ctx);
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
    const auto live0 = c12::live.load(std::memory_order_relaxed);
    {
        const auto ab = a.m * b.m;
        switch (r.below(5)) {
            case 0: {
                const auto d = a.s * b.s;
                check_eq(c, d, ab, "product", ctx);
                // Again, with other partitions.
                const auto e = b.s * a.s;
                c.check(d == e, "product, another schedule", [&] { return ctx; });
                if (d.get_s_size() > 0u) {
                    c.event("segmented products");
                }
                c.event("products");
                break;
            }
            case 1: {
                const auto d = a.s * a.s;
                check_eq(c, d, a.m * a.m, "square", ctx);
                c.event("squares");
                break;
            }
            case 2: {
                const auto lim = lo ? r.range(-6, 30) : r.range(0, 60);
                check_eq(c, obake::polynomials::truncated_mul(a.s, b.s, lim), mtrunc(ab, lim), "truncated product", ctx);
                c.event("truncated products");
                break;
            }
            case 3: {
                const auto lim = lo ? r.range(-6, 20) : r.range(0, 40);
                const Syms s{"x", "b"};
                check_eq(c, obake::polynomials::truncated_mul(a.s, b.s, lim, to_ss(s)), mtrunc(ab, lim, s), "truncated product, partial degree", ctx);
                c.event("truncated products");
                break;
            }
            default: {
                auto d = a.s;
                d *= b.s;
                check_eq(c, d, ab, "product in place", ctx);
                // What else runs in parallel.
                (void)obake::byte_size(d);
                const auto e = d;
                d.clear();
                check_eq(c, e, ab, "copy of a product", ctx);
                c.check(d.empty(), "clear");
                c.event("products");
            }
        }
    }
    c.check(c12::live.load(std::memory_order_relaxed) == live0, "coefficients leaked or destroyed twice", [&] { return ctx; });
    check_eq(c, a.s, a.m, "operand unchanged");
    check_eq(c, b.s, b.m, "operand unchanged");
}

// Failures in the threads.
template <typename S>
inline void failing(Case &c)
{
    auto &r = c.rng;
    tasks_counter tk(c);
    const auto a = gen<S>(r, Syms{"a", "x", "z"}, 40, 0, 10);
    const auto b = gen<S>(r, Syms{"a", "x"}, 40, 0, 10);
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
    const auto live0 = c12::live.load();
    for (int i = 0; i < 4; ++i) {
        c12::countdown = 1 + static_cast<long>(r.below(i % 2 ? 200 : 4000));
        bool thrown = false;
        try {
            const S d = i % 2 ? a.s * b.s : obake::polynomials::truncated_mul(a.s, b.s, 12);
            check_eq(c, d, i % 2 ? a.m * b.m : mtrunc(a.m * b.m, 12), "product");
        } catch (const c12::injected &) {
            thrown = true;
        }
        c12::countdown = 0;
        if (thrown) {
            c.event("products which failed in a thread");
        }
        c.check(c12::live.load() == live0, "coefficients leaked or destroyed twice");
    }
    check_eq(c, a.s, a.m, "operand unchanged");
    check_eq(c, b.s, b.m, "operand unchanged");
    check_eq(c, a.s * b.s, a.m * b.m, "product after failures");
}

// Several threads multiply, with operands in common.
template <typename S>
inline void together(Case &c)
{
    auto &r = c.rng;
    tasks_counter tk(c);
    const auto a = gen<S>(r, Syms{"a", "x", "z"}, 36, 0, 10);
    const auto b = gen<S>(r, Syms{"a", "x"}, 36, 0, 10);
    c.seen(mhash(a.m) ^ mix64(mhash(b.m)));
    const auto ab = a.m * b.m, aa = a.m * a.m;
    const auto tr = mtrunc(ab, 12);
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) {
        ts.emplace_back([&, t] {
            if (t == 0) {
                check_eq(c, a.s * b.s, ab, "product");
            } else if (t == 1) {
                check_eq(c, a.s * a.s, aa, "square");
            } else {
                check_eq(c, obake::polynomials::truncated_mul(a.s, b.s, 12), tr, "truncated product");
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    c.event("simultaneous products", 3);
}

} // namespace c17

#endif
