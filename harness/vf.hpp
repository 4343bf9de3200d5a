// Common runtime of all the monitors: seeded case generation, recording of what
// the oracles observed, and the result file read by bin/check.py.
#ifndef VF_HPP
#define VF_HPP

#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf
{

using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline u64 hash_str(const std::string &s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return mix64(h);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // [0, n)
    u64 below(u64 n)
    {
        return n == 0 ? 0 : next() % n;
    }
    // [a, b]
    i64 range(i64 a, i64 b)
    {
        return static_cast<i64>(static_cast<u64>(a) + below(static_cast<u64>(b) - static_cast<u64>(a) + 1u));
    }
    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
    template <typename V>
    const auto &pick(const V &v)
    {
        return v[below(v.size())];
    }
    // A 64 bit value with a random bit length, often near the extremes.
    u64 wild()
    {
        const auto b = below(65);
        const u64 m = b == 0 ? 0 : (b == 64 ? ~u64(0) : ((u64(1) << b) - 1));
        switch (below(4)) {
            case 0:
                return m;
            case 1:
                return m + 1u;
            case 2:
                return m - 1u;
            default:
                return next() & m;
        }
    }
};

struct Violation {
    std::string key, msg, workload;
    u64 idx = 0;
    u64 count = 0;
};

class Recorder
{
public:
    std::mutex m;
    std::map<std::string, Violation> viol;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> samples_per;
    std::atomic<u64> evals{0};
};

inline Recorder &rec()
{
    static Recorder r;
    return r;
}

struct Case {
    std::string workload;
    u64 idx;
    bool thorough;
    Rng rng;

    // An oracle evaluation: key identifies the oracle, f builds the message.
    template <typename F>
    bool check(bool ok, const char *key, F &&f)
    {
        auto &r = rec();
        r.evals.fetch_add(1, std::memory_order_relaxed);
        if (!ok) {
            const std::string msg = f();
            fail(key, msg);
        }
        return ok;
    }
    bool check(bool ok, const char *key)
    {
        return check(ok, key, [] { return std::string(); });
    }
    void fail(const std::string &key, const std::string &msg)
    {
        auto &r = rec();
        std::lock_guard lk(r.m);
        const auto k = workload + "/" + key;
        auto &v = r.viol[k];
        if (v.count++ == 0) {
            v.key = k;
            v.msg = msg;
            v.workload = workload;
            v.idx = idx;
            std::fprintf(stderr, "VF-VIOLATION %s idx=%llu: %s\n", k.c_str(), static_cast<unsigned long long>(idx),
                         msg.substr(0, 2000).c_str());
        }
    }
    // Count an observed event.
    void event(const char *name, u64 n = 1)
    {
        auto &r = rec();
        std::lock_guard lk(r.m);
        r.counters[name] += n;
    }
    // Declare the current case as non-trivial, identified by h.
    void seen(u64 h)
    {
        auto &r = rec();
        std::lock_guard lk(r.m);
        if (r.distinct.size() < 400000u) {
            r.distinct.insert(mix64(h ^ hash_str(workload)));
        }
    }
    void seen(const std::string &s)
    {
        seen(hash_str(s));
    }
    void sample(const std::string &s)
    {
        auto &r = rec();
        std::lock_guard lk(r.m);
        if (r.samples_per[workload]++ < 1u) {
            r.samples.push_back(workload + "#" + std::to_string(idx) + ": " + s.substr(0, 300));
        }
    }
    // Run f, which must not throw.
    template <typename F>
    bool no_throw(const char *key, F &&f)
    {
        try {
            f();
            return true;
        } catch (const std::exception &e) {
            check(false, key, [&] { return std::string("unexpected exception: ") + e.what(); });
        }
        return false;
    }
};

struct Workload {
    std::string name;
    u64 n_quick, n_thorough;
    std::function<void(Case &)> f;
};

inline std::vector<Workload> &workloads()
{
    static std::vector<Workload> w;
    return w;
}

struct Register {
    Register(const char *name, u64 nq, u64 nt, std::function<void(Case &)> f)
    {
        workloads().push_back({name, nq, nt, std::move(f)});
    }
};

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_WORKLOAD(name, nq, nt) VF_WORKLOAD_(name, nq, nt, __COUNTER__)
#define VF_WORKLOAD_(name, nq, nt, id)                                                                                 \
    static void VF_CAT(vf_wl_, id)(::vf::Case &);                                                                      \
    static ::vf::Register VF_CAT(vf_reg_, id)(name, nq, nt, VF_CAT(vf_wl_, id));                                       \
    static void VF_CAT(vf_wl_, id)(::vf::Case & c)

template <typename... Args>
inline std::string cat(const Args &...args)
{
    std::ostringstream oss;
    (oss << ... << args);
    return oss.str();
}

} // namespace vf

#endif
