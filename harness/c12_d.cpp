#include "c12_exc.hpp"

#include <cstdlib>

namespace c12
{
thread_local long alloc_countdown = 0;
thread_local long alloc_ticks = 0;
thread_local long outstanding = 0;
} // namespace c12

static void *get(std::size_t n, std::size_t al)
{
    ++c12::alloc_ticks;
    if (c12::alloc_countdown > 0 && --c12::alloc_countdown == 0) {
        throw std::bad_alloc();
    }
    void *p = al > 16u ? std::aligned_alloc(al, (n + al - 1u) / al * al) : std::malloc(n ? n : 1u);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}

void *operator new(std::size_t n)
{
    return get(n, 1);
}
void *operator new(std::size_t n, std::align_val_t a)
{
    return get(n, static_cast<std::size_t>(a));
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::align_val_t) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t, std::align_val_t) noexcept
{
    std::free(p);
}

using namespace vf;
using namespace c12;
using S = obake::polynomial<pm_t<std::int64_t>, tc>;

// Products which take the multithreaded path: failures in any of the threads.
VF_WORKLOAD("failures-in-threads", 30, 600)
{
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 4);
    g.max_syms = 3;
    g.huge = false;
    g.fractions = false;
    g.emax = 12;
    g.cmax = 3;
    auto big = [&] {
        Gen<S> x;
        x.syms = Syms(g.universe.begin(), g.universe.begin() + 3);
        x.seg = static_cast<unsigned>(r.below(3));
        g.max_terms = 0;
        for (unsigned i = 0; i < 120; ++i) {
            Mono m{};
            for (const auto &s : x.syms) {
                m[pool_idx(s)] = r.range(0, 12);
            }
            x.m.add(m, gen_cf<int_t>(r, g));
        }
        x.s = from_model<S>(x.m, x.syms, x.seg);
        return x;
    };
    const auto a = big(), b = big();
    Gen<S> d;
    d.seg = 0;
    std::vector<op<S>> ops;
    ops.push_back({"large a*b", 0, [](S &x, S &y, S &z) { z = x * y; }, [](const MP &x, const MP &y) { return x * y; }});
    ops.push_back({"large a*a", 0, [](S &x, S &, S &z) { z = x * x; }, [](const MP &x, const MP &) { return x * x; }});
    ops.push_back({"large truncated a*b", 0, [](S &x, S &y, S &z) { z = obake::polynomials::truncated_mul(x, y, 25); },
                   [](const MP &x, const MP &y) { return mtrunc(x * y, 25); }});
    inject(c, mode::cf, a, b, d, ops[c.idx % 3], c.thorough ? 40 : 12, false);
    c.event("large products subject to failures");
}
