// A small, header-only (hence fully instrumented) implementation of the parts of TBB used by
// the library. For the thread sanitizer builds: the tasks of every algorithm are really run by
// several std::threads, over a randomised partition of the range, in a randomised order, with
// randomised yields between the tasks; joins are the only synchronisation it adds. For the builds
// which look at the splits and at the joins of the reductions (which TBB itself only performs when
// it has idle threads): the same, with VF_TBB_THREADS=1.
#ifndef VF_TBB_H
#define VF_TBB_H

#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iterator>
#include <mutex>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <sched.h>

namespace tbb
{

struct split {
};

template <typename Value>
class blocked_range
{
public:
    using const_iterator = Value;
    using size_type = std::size_t;

    blocked_range() = default;
    blocked_range(Value b, Value e, size_type grain = 1) : m_end(e), m_begin(b), m_grain(grain) {}
    const_iterator begin() const
    {
        return m_begin;
    }
    const_iterator end() const
    {
        return m_end;
    }
    size_type size() const
    {
        return static_cast<size_type>(m_end - m_begin);
    }
    size_type grainsize() const
    {
        return m_grain;
    }
    bool empty() const
    {
        return !(m_begin < m_end);
    }
    bool is_divisible() const
    {
        return m_grain < size();
    }
    blocked_range(blocked_range &r, split) : m_end(r.m_end), m_begin(r.m_begin + (r.m_end - r.m_begin) / 2), m_grain(r.m_grain)
    {
        r.m_end = m_begin;
    }

private:
    Value m_end;
    Value m_begin;
    size_type m_grain = 1;
};

class task_group_context
{
public:
    enum kind_type { isolated, bound };
    explicit task_group_context(kind_type = bound) {}
    task_group_context(const task_group_context &) = delete;
};

struct auto_partitioner {
};
struct simple_partitioner {
};
struct static_partitioner {
};
struct affinity_partitioner {
};

namespace vfd
{

inline std::atomic<std::uint64_t> &state()
{
    static std::atomic<std::uint64_t> s{std::getenv("VF_TBB_SEED") ? std::strtoull(std::getenv("VF_TBB_SEED"), nullptr, 10)
                                                                  : 12345u};
    return s;
}

inline std::uint64_t rnd()
{
    // NOTE: relaxed, so that it adds no happens-before edges.
    std::uint64_t z = state().fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline std::atomic<std::uint64_t> &n_tasks()
{
    static std::atomic<std::uint64_t> n{0};
    return n;
}

inline thread_local int depth = 0;

inline std::size_t max_threads()
{
    static const std::size_t n = std::getenv("VF_TBB_THREADS") ? std::strtoull(std::getenv("VF_TBB_THREADS"), nullptr, 10) : 4u;
    return n;
}

// Run the tasks concurrently, wait for them, rethrow the first exception.
inline void run(std::vector<std::function<void()>> &tasks)
{
    n_tasks().fetch_add(tasks.size(), std::memory_order_relaxed);
    // A random order of execution.
    for (std::size_t i = tasks.size(); i > 1u; --i) {
        std::swap(tasks[i - 1u], tasks[rnd() % i]);
    }
    std::atomic<std::size_t> next{0};
    std::atomic<bool> cancelled{false};
    std::exception_ptr ep;
    std::mutex epm;
    const int d = depth;
    auto worker = [&]() {
        const int old = depth;
        depth = d + 1;
        while (true) {
            // NOTE: relaxed, the workers must not synchronise with each other here.
            const auto i = next.fetch_add(1, std::memory_order_relaxed);
            if (i >= tasks.size() || cancelled.load(std::memory_order_relaxed)) {
                break;
            }
            for (auto y = max_threads() > 1u ? rnd() % 3u : 0u; y > 0u; --y) {
                ::sched_yield();
            }
            try {
                tasks[i]();
            } catch (...) {
                std::lock_guard lk(epm);
                if (!ep) {
                    ep = std::current_exception();
                }
                cancelled.store(true, std::memory_order_relaxed);
            }
        }
        depth = old;
    };
    const std::size_t nt = std::min<std::size_t>({tasks.size(), max_threads(), d >= 6 ? 1u : d >= 2 ? 2u : 4u});
    std::vector<std::thread> th;
    for (std::size_t i = 1; i < nt; ++i) {
        th.emplace_back(worker);
    }
    worker();
    for (auto &t : th) {
        t.join();
    }
    if (ep) {
        std::rethrow_exception(ep);
    }
}

template <typename Range>
inline std::vector<Range> partition(Range r)
{
    // Random recursive splitting into up to 16 ranges.
    std::vector<Range> out;
    if (r.empty()) {
        return out;
    }
    out.push_back(r);
    const std::size_t target = 1u + rnd() % 16u;
    std::size_t i = 0, idle = 0;
    while (out.size() < target && idle < out.size()) {
        if (i >= out.size()) {
            i = 0;
        }
        if (out[i].is_divisible()) {
            Range right(out[i], split{});
            out.insert(out.begin() + static_cast<std::ptrdiff_t>(i) + 1, right);
            i += 2;
            idle = 0;
        } else {
            ++i;
            ++idle;
        }
    }
    return out;
}

} // namespace vfd

template <typename Range, typename Body, typename... Extra>
    requires requires(const Range &r) { r.is_divisible(); }
inline void parallel_for(const Range &r, const Body &body, Extra &&...)
{
    auto parts = vfd::partition(r);
    std::vector<std::function<void()>> tasks;
    for (auto &p : parts) {
        tasks.emplace_back([&body, &p]() { body(p); });
    }
    vfd::run(tasks);
}

template <typename I, typename F>
    requires std::is_integral_v<I>
inline void parallel_for(I first, I last, const F &f)
{
    parallel_for(blocked_range<I>(first, last), [&f](const auto &r) {
        for (auto i = r.begin(); i != r.end(); ++i) {
            f(i);
        }
    });
}

template <typename Range, typename Value, typename F, typename R, typename... Extra>
inline Value parallel_reduce(const Range &r, const Value &identity, const F &f, const R &red, Extra &&...)
{
    auto parts = vfd::partition(r);
    // A body may go over several consecutive ranges in turn.
    std::vector<std::pair<std::size_t, std::size_t>> groups;
    for (std::size_t i = 0; i < parts.size();) {
        const auto n = std::min<std::size_t>(parts.size() - i, 1u + vfd::rnd() % 3u);
        groups.emplace_back(i, i + n);
        i += n;
    }
    std::vector<Value> res(groups.size(), identity);
    std::vector<std::function<void()>> tasks;
    for (std::size_t g = 0; g < groups.size(); ++g) {
        tasks.emplace_back([&f, &res, &parts, &groups, g]() {
            for (auto i = groups[g].first; i < groups[g].second; ++i) {
                res[g] = f(parts[i], std::move(res[g]));
            }
        });
    }
    vfd::run(tasks);
    if (res.empty()) {
        return identity;
    }
    Value ret = res[0];
    for (std::size_t i = 1; i < res.size(); ++i) {
        ret = red(ret, res[i]);
    }
    return ret;
}

template <typename... Fs>
inline void parallel_invoke(Fs &&...fs)
{
    std::vector<std::function<void()>> tasks;
    (tasks.emplace_back([&fs]() { fs(); }), ...);
    vfd::run(tasks);
}

template <typename It, typename Cmp>
inline void parallel_sort(It b, It e, const Cmp &cmp)
{
    const auto n = e - b;
    if (n < 64) {
        std::sort(b, e, cmp);
        return;
    }
    const auto m = b + n / 2;
    std::vector<std::function<void()>> tasks;
    tasks.emplace_back([&]() { std::sort(b, m, cmp); });
    tasks.emplace_back([&]() { std::sort(m, e, cmp); });
    vfd::run(tasks);
    std::inplace_merge(b, m, e, cmp);
}
template <typename It>
inline void parallel_sort(It b, It e)
{
    parallel_sort(b, e, std::less<>{});
}

namespace this_task_arena
{

template <typename F>
inline auto isolate(F &&f)
{
    return f();
}

} // namespace this_task_arena

} // namespace tbb

namespace oneapi
{
namespace tbb = ::tbb;
}

#endif
