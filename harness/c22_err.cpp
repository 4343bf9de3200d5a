// Exceptions say what and where; stack traces are well formed.
#include "vf.hpp"

#include <algorithm>
#include <atomic>
#include <functional>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <typeinfo>
#include <vector>

#include <obake/exceptions.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/stack_trace.hpp>
#include <obake/type_name.hpp>

using namespace vf;

// Keeps all the characters, null ones included.
struct vf_whole_message : std::exception {
    std::string m;
    explicit vf_whole_message(std::string s) : m(std::move(s)) {}
    const char *what() const noexcept override
    {
        return m.c_str();
    }
};

namespace
{

struct two_args : std::runtime_error {
    int n;
    two_args(const std::string &s, int k) : std::runtime_error(s), n(k) {}
};
struct no_string {
    int n;
    explicit no_string(int k) : n(k) {}
};

struct Frame {
    std::size_t level;
    std::string where, name;
};

// A line per frame: # level | where | name, from the outermost (the highest level) to level 0.
bool parse_trace(const std::string &t, std::vector<Frame> &out)
{
    std::istringstream iss(t);
    std::string l;
    std::size_t width = 0, bar2 = 0;
    bool first = true;
    while (std::getline(iss, l)) {
        if (l.rfind("# ", 0) != 0) {
            return false;
        }
        const auto b1 = l.find(" | ");
        if (b1 == std::string::npos) {
            return false;
        }
        auto num = l.substr(2, b1 - 2);
        num.erase(0, num.find_first_not_of(' '));
        if (num.empty() || num.find_first_not_of("0123456789") != std::string::npos) {
            return false;
        }
        const auto b2 = l.find(" | ", b1 + 3);
        if (b2 == std::string::npos) {
            return false;
        }
        // Aligned columns.
        if (!first && (b1 != width || b2 != bar2)) {
            return false;
        }
        first = false;
        width = b1;
        bar2 = b2;
        out.push_back({std::stoul(num), l.substr(b1 + 3, b2 - b1 - 3), l.substr(b2 + 3)});
    }
    std::reverse(out.begin(), out.end());
    for (std::size_t i = 0; i < out.size(); ++i) {
        if (out[i].level != i) {
            return false;
        }
    }
    return true;
}

} // namespace

// NOTE: an exported name, which all the stack traces know about.
[[gnu::noinline]] void vf_nested_call(int depth, const std::function<void()> &f)
{
    if (depth) {
        vf_nested_call(depth - 1, f);
    } else {
        f();
    }
    asm volatile("" ::: "memory");
}

// The same for the place where an exception is thrown.
template <typename E>
[[gnu::noinline]] void vf_throw(u64 how, const std::string &msg)
{
    switch (how) {
        case 0:
            obake_throw(E, msg);
        case 1:
            obake_throw(E, std::string(msg));
        case 2:
            obake_throw(E, msg.c_str());
        case 3: {
            char buf[4096];
            std::copy(msg.c_str(), msg.c_str() + msg.size() + 1, buf); // The null character included.
            obake_throw(E, buf);
        }
        case 4:
            obake_throw(E, std::string_view(msg));
        default:
            break;
    }
    asm volatile("" ::: "memory");
}

namespace obake::detail
{
std::string vf_backtrace_impl(unsigned);
}

namespace
{

// As obake::stack_trace().
inline constexpr auto bt_stack_trace = [](unsigned skip = 0) {
    if (obake::stack_trace_enabled()) {
        return obake::detail::vf_backtrace_impl(skip);
    }
    return std::string{"<Stack trace generation has been disabled at runtime>"};
};

unsigned count_nested(const std::vector<Frame> &f)
{
    unsigned n = 0;
    for (const auto &x : f) {
        n += x.name.find("vf_nested_call") != std::string::npos;
    }
    return n;
}

std::string gen_msg(Rng &r, bool nulls)
{
    static const std::vector<std::string> bits{"value ", "{}", "%s", "\n", "\t", "'x'", "\\", "Exception message: ", "é", std::string(300, 'a'), "-1", " ", std::string("\0", 1), std::string("a\0b", 3)};
    std::string m;
    const auto n = r.below(6);
    for (u64 i = 0; i < n; ++i) {
        m += bits[r.below(bits.size() - (nulls ? 0u : 2u))];
    }
    return m;
}

template <typename E>
void check_what(Case &c, const std::string &w, const std::string &msg, bool enabled, const char *site = nullptr)
{
    const auto ctx = [&] { return cat(w.substr(0, 2000), " for ", msg); };
    // NOTE: the message comes last.
    const auto p = w.rfind(": " + msg + "\n");
    c.check(p != std::string::npos && p + msg.size() + 3 == w.size(), "the message is missing", ctx);
    c.check(w.find(obake::type_name<E>()) != std::string::npos, "the type is missing", ctx);
    c.check((w.find("disabled at runtime") != std::string::npos) == !enabled, "the stack trace", ctx);
    if (enabled) {
        std::vector<Frame> fr;
        const auto e = w.find("\n\nException type");
        if (c.check(e != std::string::npos, "no stack trace before the message", ctx)) {
            c.check(parse_trace(w.substr(0, e), fr) && !fr.empty(), "malformed stack trace in an exception", ctx);
            if (site && !fr.empty()) {
                c.check(fr[0].name.find(site) != std::string::npos, "the stack trace does not start where the exception is thrown", ctx);
                c.event("throw sites");
            }
        }
        c.event("exceptions with stack traces");
    } else {
        c.event("exceptions without stack traces");
    }
}

template <typename E>
void thrown(Case &c, bool enabled)
{
    auto &r = c.rng;
    const auto msg_ = gen_msg(r, std::is_same_v<E, vf_whole_message>);
    const auto depth = static_cast<int>(r.below(5));
    const auto how = r.below(5);
    // NOTE: a null character ends the arrays of characters.
    const std::string msg = how == 2u || how == 3u ? std::string(msg_.c_str()) : msg_;
    bool caught = false;
    try {
        vf_nested_call(depth, [&] {
            vf_throw<E>(how, msg_);
            asm volatile("" ::: "memory");
        });
    } catch (const std::exception &e) {
        caught = true;
        c.check(typeid(e) == typeid(E), "another type of exception", [&] { return cat(typeid(e).name(), " instead of ", typeid(E).name()); });
        if constexpr (std::is_same_v<E, vf_whole_message>) {
            check_what<E>(c, static_cast<const E &>(e).m, msg, enabled, "vf_throw");
            if (msg.find('\0') != std::string::npos) {
                c.event("messages with null characters");
            }
        } else {
            check_what<E>(c, e.what(), msg, enabled, "vf_throw");
        }
    }
    c.check(caught, "nothing thrown", [&] { return msg; });
    c.seen(msg + std::to_string(how));
}

} // namespace

VF_WORKLOAD("exceptions", 300, 10000)
{
    const bool en = c.rng.chance(1, 2);
    obake::set_stack_trace_enabled(en);
    c.check(obake::stack_trace_enabled() == en, "the switch", [] { return ""; });
    thrown<std::invalid_argument>(c, en);
    thrown<std::overflow_error>(c, en);
    thrown<std::domain_error>(c, en);
    thrown<obake::safe_cast_failure>(c, en);
    thrown<vf_whole_message>(c, en);
    // More arguments: forwarded.
    const int k = static_cast<int>(c.rng.range(-100, 100));
    try {
        obake_throw(two_args, "two", k);
    } catch (const two_args &e) {
        c.check(e.n == k, "argument of an exception", [&] { return cat(e.n); });
        check_what<two_args>(c, e.what(), "two", en);
    }
    // Neither a string nor anything else: not decorated.
    try {
        obake_throw(no_string, 42);
    } catch (const no_string &e) {
        c.check(e.n == 42, "plain exception", [&] { return cat(e.n); });
    }
    bool ba = false;
    try {
        obake_throw(std::bad_alloc, );
    } catch (const std::bad_alloc &) {
        ba = true;
    }
    c.check(ba, "exception without arguments", [] { return ""; });
    obake::set_stack_trace_enabled(true);
}

namespace
{

template <typename F>
void traces(Case &c, const F &trace, bool lines)
{
    const auto depth = static_cast<int>(c.rng.below(30));
    vf_nested_call(depth, [&] {
        const auto line = __LINE__ + 1;
        const auto t = trace();
        const auto ctx = [&] { return t; };
        std::vector<Frame> f;
        if (!c.check(parse_trace(t, f), "malformed stack trace", ctx)) {
            return;
        }
        c.check(f.size() > static_cast<std::size_t>(depth), "frames are missing", ctx);
        c.check(count_nested(f) == static_cast<unsigned>(depth) + 1u, "calls in the stack trace", ctx);
        c.check(f.back().name.find("start") != std::string::npos || f.size() > 5u, "outermost frame", ctx);
        if (lines && !f.empty()) {
            const auto &w = f[0].where;
            const auto e = cat("c22_err.cpp:", line);
            const auto p = w.find(e);
            c.check(p != std::string::npos && w.find_first_not_of(' ', p + e.size()) == std::string::npos, "the stack trace does not start where it is asked for",
                    [&] { return cat(e, "\n", t); });
            c.event("call sites");
        }
        c.event("frames", f.size());
        c.sample(t);
        const auto rstrip = [](const std::string &x) { return x.substr(0, x.find_last_not_of(' ') + 1); };
        for (unsigned k = 1; k < f.size() + 4u; ++k) {
            const auto u = trace(k);
            std::vector<Frame> g;
            const auto ctx2 = [&] { return cat("skipping ", k, "\n", u, "\n of \n", t); };
            c.check(parse_trace(u, g), "malformed stack trace", ctx2);
            const auto e = f.size() > k ? f.size() - k : 0u;
            if (c.check(g.size() == e, "frames skipped", ctx2)) {
                for (std::size_t i = 0; i < e; ++i) {
                    c.check(g[i].name == f[i + k].name && rstrip(g[i].where) == rstrip(f[i + k].where), "other frames after skipping", ctx2);
                }
            }
            c.event("partial stack traces");
        }
        for (const auto k : {1000000u, 2147483640u, 2147483645u, 2147483646u, 2147483647u, 4294967293u, 4294967295u}) {
            const auto u = trace(k);
            c.check(u.empty() || u.find("overflow") != std::string::npos, "skipping a huge number of frames", [&] { return cat(k, "\n", u); });
        }
        obake::set_stack_trace_enabled(false);
        c.check(trace() == trace(3) && trace().find("disabled") != std::string::npos, "disabled stack trace", [&] { return trace(); });
        obake::set_stack_trace_enabled(true);
        c.check(trace().find("disabled at runtime") == std::string::npos, "stack trace enabled again", [&] { return trace(); });
    });
    c.seen(cat("depth", depth, "-", c.idx));
}

} // namespace

VF_WORKLOAD("stack-traces", 60, 2000)
{
    traces(c, obake::stack_trace, false);
}

VF_WORKLOAD("stack-traces-lines", 60, 2000)
{
    traces(c, bt_stack_trace, true);
}

// NOTE: few, as the library never frees the state of libbacktrace of a thread.
VF_WORKLOAD("stack-traces-threads", 20, 400)
{
    // Stack traces with lines in several threads.
    std::vector<std::thread> ts;
    std::vector<std::string> tr[3];
    for (unsigned t = 0; t < 3; ++t) {
        ts.emplace_back([&, t] {
            for (int k = 0; k < 6; ++k) {
                vf_nested_call(k + static_cast<int>(t), [&] { tr[t].push_back(bt_stack_trace()); });
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    for (unsigned t = 0; t < 3; ++t) {
        for (std::size_t k = 0; k < tr[t].size(); ++k) {
            std::vector<Frame> f;
            c.check(parse_trace(tr[t][k], f), "malformed stack trace in a thread", [&] { return tr[t][k]; });
            c.check(count_nested(f) == k + t + 1u, "calls in the stack trace of a thread", [&] { return tr[t][k]; });
        }
    }
    c.seen(c.rng.next());
}

VF_WORKLOAD("threads", 40, 1500)
{
    // Failures in several threads, while another one turns the stack traces on and off.
    std::atomic<unsigned> left{3};
    std::vector<std::thread> ts;
    std::vector<std::string> what[3];
    for (unsigned t = 0; t < 3; ++t) {
        ts.emplace_back([&, t] {
            for (int k = 0; k < 20; ++k) {
                try {
                    vf_nested_call(k % 7, [&] { obake_throw(std::invalid_argument, cat("thread ", t, " attempt ", k)); });
                } catch (const std::invalid_argument &e) {
                    what[t].push_back(e.what());
                }
            }
            left.fetch_sub(1, std::memory_order_relaxed);
        });
    }
    bool en = false;
    while (left.load(std::memory_order_relaxed)) {
        obake::set_stack_trace_enabled(en = !en);
        std::this_thread::yield();
    }
    for (auto &t : ts) {
        t.join();
    }
    obake::set_stack_trace_enabled(true);
    for (unsigned t = 0; t < 3; ++t) {
        c.check(what[t].size() == 20u, "failures in threads", [&] { return cat(what[t].size()); });
        for (std::size_t k = 0; k < what[t].size(); ++k) {
            const auto &w = what[t][k];
            check_what<std::invalid_argument>(c, w, cat("thread ", t, " attempt ", k), w.find("disabled at runtime") == std::string::npos);
            c.event("failures in threads");
        }
    }
    c.seen(c.rng.next());
}
