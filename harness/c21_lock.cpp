// Locks exclude each other's holders, and publish what was done under them.
#include "vf.hpp"

#include <atomic>
#include <barrier>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <obake/detail/atomic_flag_array.hpp>
#include <obake/detail/atomic_lock_guard.hpp>
#include <obake/detail/fw_utils.hpp>
#include <obake/detail/hc.hpp>

using namespace vf;
using obake::detail::atomic_flag_array;
using obake::detail::atomic_lock_guard;

namespace
{

// Run f(t) in n threads, started together.
template <typename F>
void together(unsigned n, const F &f)
{
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) != n) {
                std::this_thread::yield();
            }
            f(t);
        });
    }
    for (auto &t : ts) {
        t.join();
    }
}

void maybe_yield(Rng &r)
{
    if (r.chance(1, 4)) {
        std::this_thread::yield();
    }
}

} // namespace

VF_WORKLOAD("flags", 400, 12000)
{
    auto &r = c.rng;
    const auto n = static_cast<std::size_t>(r.chance(1, 3) ? r.below(4) : r.below(std::size_t(1) << r.below(13)));
    // NOTE: leave behind memory which is not zero.
    for (int k = 0; k < 4; ++k) {
        const std::unique_ptr<unsigned char[]> g(new unsigned char[n + 1u]);
        for (std::size_t i = 0; i <= n; ++i) {
            const_cast<volatile unsigned char &>(g[i]) = 0xff;
        }
    }
    atomic_flag_array a(n);
    const auto &ca = a;
    std::vector<bool> m(n);
    for (std::size_t i = 0; i < n; ++i) {
        c.check(!a[i].test(std::memory_order_relaxed), "a flag is set from the start", [&] { return cat(i, " of ", n); });
        c.check(&ca[i] == &a[i], "constant access", [&] { return cat(i, " of ", n); });
        if (i) {
            c.check(&a[i] == &a[i - 1u] + 1, "flags overlap or are far apart", [&] { return cat(i, " of ", n); });
        }
    }
    const auto ops = n ? 2u * n : 0u;
    for (std::size_t k = 0; k < ops; ++k) {
        const auto i = static_cast<std::size_t>(r.below(n));
        if (r.chance(1, 2)) {
            c.check(a[i].test_and_set() == m[i], "another flag changed", [&] { return cat(i, " of ", n); });
            m[i] = true;
        } else {
            a[i].clear();
            m[i] = false;
        }
    }
    for (std::size_t i = 0; i < n; ++i) {
        c.check(a[i].test_and_set() == m[i], "another flag changed", [&] { return cat(i, " of ", n); });
    }
    c.event("flags", n);
    c.seen(n);
}

VF_WORKLOAD("exclusion", 30, 900)
{
    // Plain (i.e., not atomic) data protected by an array of locks.
    auto &r = c.rng;
    const auto nt = static_cast<unsigned>(2u + r.below(4));
    const auto nl = static_cast<std::size_t>(1u + r.below(6));
    const unsigned iters = 300;
    struct cell {
        u64 n = 0, h = 1;
        int inside = 0;
        std::vector<unsigned> log;
    };
    std::vector<cell> cells(nl);
    atomic_flag_array locks(nl);
    std::atomic<unsigned> bad{0}, handovers{0};
    const auto seed = r.next();
    const bool throwing = r.chance(1, 2);
    together(nt, [&](unsigned t) {
        Rng q(mix64(seed + t));
        for (unsigned k = 0; k < iters; ++k) {
            const auto i = static_cast<std::size_t>(q.below(nl));
            try {
                const atomic_lock_guard lock(locks[i]);
                auto &x = cells[i];
                if (x.inside++) {
                    bad.fetch_add(1, std::memory_order_relaxed);
                }
                if (!x.log.empty() && x.log.back() != t) {
                    handovers.fetch_add(1, std::memory_order_relaxed);
                }
                x.log.push_back(t);
                maybe_yield(q);
                ++x.n;
                x.h = x.h * 3u + 1u;
                --x.inside;
                if (throwing && q.chance(1, 10)) {
                    throw std::runtime_error("x");
                }
            } catch (const std::runtime_error &) {
            }
        }
    });
    u64 tot = 0;
    for (const auto &x : cells) {
        tot += x.n;
        u64 h = 1;
        for (u64 k = 0; k < x.n; ++k) {
            h = h * 3u + 1u;
        }
        c.check(h == x.h && x.log.size() == x.n, "updates under a lock are lost", [&] { return cat(x.n, " updates"); });
    }
    c.check(tot == u64(iters) * nt, "updates under a lock are lost", [&] { return cat(tot, " of ", iters * nt); });
    c.check(bad.load() == 0u, "two holders of a lock", [&] { return cat(bad.load()); });
    for (std::size_t i = 0; i < nl; ++i) {
        c.check(!locks[i].test(std::memory_order_relaxed), "a lock is not released", [&] { return cat(i); });
    }
    c.event("locked sections", tot);
    c.event("locks passed between threads", handovers.load());
    c.sample(cat(nt, " threads, ", nl, " locks, ", tot, " updates, ", handovers.load(), " times by another thread than the one before"));
    c.seen(cat(nt, "-", nl, "-", throwing, "-", handovers.load()));
}

VF_WORKLOAD("publication", 20, 600)
{
    // What was written under a lock is read by the next holders: objects created by a thread, destroyed by another.
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    std::vector<std::unique_ptr<std::string>> box;
    std::vector<unsigned> got(4);
    unsigned made = 0, taken = 0;
    const auto seed = c.rng.next();
    together(4, [&](unsigned t) {
        Rng q(mix64(seed + t));
        for (unsigned k = 0; k < 300; ++k) {
            if (q.chance(1, 2)) {
                auto p = std::make_unique<std::string>(std::to_string(mix64(k)) + "-a-string-on-the-heap");
                atomic_lock_guard lock(f);
                box.push_back(std::move(p));
                ++made;
            } else {
                std::unique_ptr<std::string> p;
                {
                    atomic_lock_guard lock(f);
                    if (!box.empty()) {
                        p = std::move(box.back());
                        box.pop_back();
                        ++taken;
                    }
                }
                if (p) {
                    got[t] += p->find("-a-string-on-the-heap") != std::string::npos;
                }
            }
        }
    });
    c.check(made == taken + box.size(), "objects are lost", [&] { return cat(made, " ", taken, " ", box.size()); });
    c.check(got[0] + got[1] + got[2] + got[3] == taken, "objects are damaged", [&] { return cat(taken); });
    c.event("objects passed between threads", taken);
    c.seen(cat(made, "-", taken));
}

VF_WORKLOAD("cores", 40, 1600)
{
    // At least one core, in all threads, whatever the system says.
    const auto old = std::getenv("VF_HC");
    const std::string saved = old ? old : "";
    const auto n = static_cast<unsigned>(c.rng.chance(1, 3) ? 0 : c.rng.below(200));
    ::setenv("VF_HC", std::to_string(n).c_str(), 1);
    std::vector<std::vector<unsigned>> got(3);
    together(3, [&](unsigned t) {
        for (int k = 0; k < 20; ++k) {
            got[t].push_back(obake::detail::hc());
        }
    });
    if (old) {
        ::setenv("VF_HC", saved.c_str(), 1);
    } else {
        ::unsetenv("VF_HC");
    }
    for (const auto &v : got) {
        for (const auto x : v) {
            c.check(x == (n ? n : 1u), "number of cores", [&] { return cat(x, " instead of ", n); });
        }
    }
    c.event("numbers of cores", 60);
    c.seen(n);
}

namespace
{

std::atomic<int> created{0}, destroyed{0};

template <int N>
struct single {
    std::string name{"object " + std::to_string(N) + " shared by all the users"};
    std::vector<int> v{std::vector<int>(static_cast<std::size_t>(N % 17 + 1), N)};
    single()
    {
        created.fetch_add(1, std::memory_order_relaxed);
    }
    ~single()
    {
        destroyed.fetch_add(1, std::memory_order_relaxed);
    }
};

template <int N>
void use_single(const void *&p, bool &ok)
{
    auto &s = obake::detail::fw_holder_class<single<N>>::get();
    p = &s;
    ok = s.name == "object " + std::to_string(N) + " shared by all the users" && s.v == std::vector<int>(static_cast<std::size_t>(N % 17 + 1), N);
}

using use_t = void (*)(const void *&, bool &);

template <int... I>
std::vector<use_t> make_uses(std::integer_sequence<int, I...>)
{
    return {&use_single<I>...};
}

} // namespace

VF_WORKLOAD("flyweights", 30, 600)
{
    // The storage of the flyweights, created by whoever comes first, once per process.
    static const auto uses = make_uses(std::make_integer_sequence<int, 240>{});
    static std::vector<const void *> known(uses.size());
    const unsigned nt = 4;
    std::vector<std::vector<std::pair<const void *, bool>>> got(nt);
    // A slice per case: mostly types which were never used before.
    std::vector<std::size_t> pick;
    for (std::size_t k = 0; k < 24; ++k) {
        pick.push_back((c.idx * 8u + k) % uses.size());
    }
    const auto before = created.load();
    std::size_t fresh = 0;
    for (const auto k : pick) {
        fresh += known[k] == nullptr;
    }
    together(nt, [&](unsigned t) {
        for (std::size_t k = 0; k < pick.size(); ++k) {
            const void *p = nullptr;
            bool ok = false;
            uses[pick[(k + (t / 2) * 3u) % pick.size()]](p, ok);
            got[t].emplace_back(p, ok);
        }
    });
    for (unsigned t = 0; t < nt; ++t) {
        for (std::size_t k = 0; k < pick.size(); ++k) {
            const auto [p, ok] = got[t][k];
            auto &kn = known[pick[(k + (t / 2) * 3u) % pick.size()]];
            if (!kn) {
                kn = p;
            }
            c.check(ok, "the object is not constructed", [&] { return cat(k); });
            c.check(kn == p, "two objects of a type", [&] { return cat(k); });
        }
    }
    for (std::size_t i = 0; i < known.size(); ++i) {
        for (std::size_t j = 0; j < i; ++j) {
            c.check(!known[i] || known[i] != known[j], "an object for two types", [&] { return cat(i, " ", j); });
        }
    }
    c.check(created.load() == before + static_cast<int>(fresh), "number of objects", [&] { return cat(created.load() - before, " instead of ", fresh); });
    c.check(destroyed.load() == 0, "objects destroyed early", [&] { return cat(destroyed.load()); });
    c.event("objects created by threads", fresh);
    c.seen(c.idx);
}
