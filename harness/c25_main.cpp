// The libraries of a program and its beginning and end.
#include "c25_api.hpp"

#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern char **environ;

using namespace vf;
using namespace c25;

namespace
{

std::string self()
{
    char b[4096];
    const auto n = ::readlink("/proc/self/exe", b, sizeof(b) - 1);
    return n > 0 ? std::string(b, static_cast<std::size_t>(n)) : std::string();
}

[[noreturn]] void broken(const std::string &s)
{
    std::fprintf(stderr, "VF-HARNESS-FAIL %s\n", s.c_str());
    std::fflush(stderr);
    std::_Exit(9);
}

// The same program exists without libraries, too: everything is in the executable.
const unsigned n_libs = ::access((self() + "-lib1.so").c_str(), R_OK) == 0 ? 3 : 0;

const Api *load_part(unsigned i)
{
    const auto p = self() + "-lib" + std::to_string(i) + ".so";
    const auto h = ::dlopen(p.c_str(), RTLD_LOCAL | (i % 2u ? RTLD_NOW : RTLD_LAZY));
    if (!h) {
        const auto e = ::dlerror();
        broken(e ? e : "dlopen");
    }
    const auto f = reinterpret_cast<const Api *(*)()>(::dlsym(h, "c25_api"));
    if (!f) {
        broken("dlsym");
    }
    return f();
}

// Part 0 is the executable.
const Api &part(unsigned i)
{
    static const Api *v[4] = {};
    if (!v[i]) {
        v[i] = i ? load_part(i) : new Api(make_api());
    }
    return *v[i];
}

template <typename T>
const Ops<T> &ops(unsigned i)
{
    const auto &p = part(i);
    if constexpr (std::is_same_v<T, A>) {
        return p.a;
    } else if constexpr (std::is_same_v<T, B>) {
        return p.b;
    } else if constexpr (std::is_same_v<T, S>) {
        return p.s;
    } else {
        return p.d;
    }
}

template <typename T>
struct Slot {
    T *p = nullptr;
    MP m;
    Syms s;
    unsigned by = 0;
};

template <typename T>
void parts(Case &c)
{
    auto &r = c.rng;
    auto who = [&]() -> const Ops<T> & { return ops<T>(static_cast<unsigned>(r.below(n_libs + 1u))); };
    GenCfg g;
    g.restrict_syms(r, 4);
    g.max_syms = 3;
    g.max_terms = 5;
    g.emax = 3;
    Trunc t;
    if (is_ps<T> && r.chance(2, 3)) {
        t.kind = r.chance(2, 3) ? 1 : 2;
        t.d = r.range(2, 8);
        t.s = gen_syms(r, g);
        t.s.insert(g.universe[0]);
    }
    auto cut = [&](const MP &m) { return t.kind == 1 ? mtrunc(m, t.d) : (t.kind == 2 ? mtrunc(m, t.d, t.s) : m); };
    const unsigned n = 5;
    std::vector<Slot<T>> v(n);
    std::string log = is_ps<T> ? cat("truncation ", t.kind, " ", t.d, sstr(t.s), " ") : "";
    auto set = [&](Slot<T> &d, T *p, const MP &m, const Syms &s) {
        // Destroyed by anyone.
        if (d.p) {
            who().destroy(d.p);
        }
        d.p = p;
        d.m = m;
        d.s = s;
    };
    // NOTE: all of them with the same truncation.
    for (auto &x : v) {
        const auto s = gen_syms(r, g);
        const auto m = cut(gen_mp<obake::series_cf_t<T>>(r, s, g));
        x.p = who().make(m, s, static_cast<unsigned>(r.below(3)), t);
        x.m = m;
        x.s = s;
        log += cat("<", sstr(s), mstr(m), ">");
    }
    const auto nops = 12u + r.below(12);
    for (u64 k = 0; k < nops; ++k) {
        const auto i = r.below(n), j = r.below(n), d = r.below(n);
        auto &x = v[i], &y = v[j];
        // Small enough.
        auto big = [&](const MP &m) { return m.t.size() > 60u; };
        const auto what = r.below(15);
        log += cat(" ", what, ":", i, j, d);
        switch (what) {
            case 0:
            case 1: {
                const auto z = r.below(4);
                if (z == 2u && (big(x.m) || big(y.m))) {
                    break;
                }
                const auto m = z == 1u ? x.m - y.m : (z == 2u ? cut(x.m * y.m) : x.m + y.m);
                const auto s = uni(x.s, y.s);
                const auto p = who().binary(static_cast<unsigned>(z), *x.p, *y.p);
                set(v[d], p, m, s);
                c.event("operations between parts");
                break;
            }
            case 2:
            case 3: {
                const auto z = r.below(4);
                if (z == 2u && (big(x.m) || big(y.m))) {
                    break;
                }
                const auto m = z == 1u ? x.m - y.m : (z == 2u ? cut(x.m * y.m) : x.m + y.m);
                const auto s = uni(x.s, y.s);
                who().in_place(static_cast<unsigned>(z), *x.p, *y.p);
                x.m = m;
                x.s = s;
                c.event("operations between parts");
                break;
            }
            case 4:
            case 5: {
                const auto e = static_cast<unsigned>(r.below(5));
                if (x.m.t.size() > 12u) {
                    break;
                }
                // The same power, in two of the parts.
                auto p = who().power(*x.p, e);
                const auto q = who().power(*x.p, e);
                c.check(dump(*p) == dump(*q), "powers differ", [&] { return dump(*p) + " and " + dump(*q); });
                const auto m = cut(mpow(x.m, e));
                who().destroy(q);
                const auto s = syms_of(*p);
                set(v[d], p, m, s);
                c.event("powers in two parts");
                break;
            }
            case 6: {
                const auto z = static_cast<unsigned>(r.below(5));
                auto sym = r.pick(pool());
                if (z == 3u && !x.s.empty()) {
                    sym = *x.s.begin();
                }
                if (z == 2u && x.s.count(sym)) {
                    break;
                }
                const auto p = who().unary(z, *x.p, sym);
                auto m = x.m;
                if (z == 0u) {
                    m = -m;
                } else if (z == 3u) {
                    m = mdiff(m, sym);
                }
                set(v[d], p, m, syms_of(*p));
                break;
            }
            case 7: {
                const auto z = r.below(4);
                if (z == 0u) {
                    const auto m = x.m;
                    const auto s = x.s;
                    const auto p = who().copy(*x.p);
                    set(v[d], p, m, s);
                } else if (z == 1u) {
                    who().assign(*x.p, *y.p);
                    x.m = y.m;
                    x.s = y.s;
                } else if (z == 2u && i != j) {
                    who().move_assign(*x.p, *y.p);
                    x.m = y.m;
                    x.s = y.s;
                    const auto p = who().make(MP{}, Syms{}, 0, t);
                    set(y, p, MP{}, Syms{});
                } else if (i != j) {
                    who().swap(*x.p, *y.p);
                    std::swap(x.m, y.m);
                    std::swap(x.s, y.s);
                }
                c.event("objects copied, moved, exchanged");
                break;
            }
            case 8: {
                const auto e = x.m == y.m;
                c.check(who().equal(*x.p, *y.p) == e, "comparison", [&] { return cat(e, " ", dump(*x.p), " ", dump(*y.p)); });
                break;
            }
            case 9: {
                // Saved in a part, loaded in another.
                const auto a = who().archive(*x.p);
                const auto p = who().make_default();
                who().load(*p, a);
                c.check(dump(*p) == dump(*x.p), "archives", [&] { return dump(*p) + " instead of " + dump(*x.p); });
                const auto m = x.m;
                const auto s = x.s;
                set(v[d], p, m, s);
                c.event("archives between parts");
                break;
            }
            case 10:
                part(static_cast<unsigned>(r.below(n_libs + 1u))).clear_cache();
                break;
            default: {
                // Operations of any kind, on objects of all the parts.
                std::vector<const T *> in{x.p, y.p, v[d].p};
                if (big(x.m) || big(y.m) || big(v[d].m)) {
                    break;
                }
                const c16::Op op{static_cast<unsigned>(r.below(17)), static_cast<unsigned>(r.below(3)), static_cast<unsigned>(r.below(3)), r.next()};
                if ((op.what == 3u || op.what == 16u || op.what == 7u) && (x.m.t.size() > 12u || y.m.t.size() > 12u || v[d].m.t.size() > 12u)) {
                    break;
                }
                const auto w = who().collect(in);
                const auto got = who().outcome(*w, op);
                const auto e = c16::perform(*w, op);
                c.check(got == e, cat("operation ", op.what).c_str(), [&] { return cat("got ", got.substr(0, 500), " expected ", e.substr(0, 500), " ", log.substr(0, 600)); });
                who().release(w);
                c.event("operations of any kind");
            }
        }
        for (std::size_t a = 0; a < n; ++a) {
            if (!check_eq(c, *v[a].p, v[a].m, cat("result of ", what).c_str(), log)) {
                return;
            }
            for (std::size_t b = 0; b < n; ++b) {
                // Equal sets of symbols, and equal truncations, are the same object, wherever they come from.
                const bool same = who().symbols(*v[a].p) == who().symbols(*v[b].p);
                c.check(same == (syms_of(*v[a].p) == syms_of(*v[b].p)), "the storage of the symbols is not shared",
                        [&] { return cat(dump(*v[a].p), " ", dump(*v[b].p), " ", log); });
                c.event(same ? "same sets of symbols" : "different sets of symbols");
                if constexpr (is_ps<T>) {
                    const bool st = who().trunc(*v[a].p) == who().trunc(*v[b].p);
                    c.check(st == (dump_tag(v[a].p->tag()) == dump_tag(v[b].p->tag())), "the storage of the truncations is not shared",
                            [&] { return cat(dump(*v[a].p), " ", dump(*v[b].p), " ", log); });
                }
            }
        }
    }
    for (auto &x : v) {
        who().destroy(x.p);
    }
    c.seen(log);
    c.sample(log);
}

template <typename T>
void parts_threads(Case &c)
{
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 4);
    g.max_syms = 3;
    g.max_terms = 5;
    g.emax = 3;
    g.huge = false;
    g.fractions = false;
    // All the libraries are there.
    for (unsigned i = 0; i <= n_libs; ++i) {
        part(i);
    }
    std::vector<const T *> in;
    std::string log;
    Trunc t;
    t.kind = is_ps<T> ? static_cast<int>(r.below(2)) : 0;
    t.d = 5;
    for (unsigned i = 0; i < 3; ++i) {
        const auto s = gen_syms(r, g);
        in.push_back(ops<T>(static_cast<unsigned>(r.below(n_libs + 1u))).make(gen_mp<obake::series_cf_t<T>>(r, s, g), s, 0, t));
        log += dump(*in.back());
    }
    const auto v = ops<T>(n_libs ? 1 : 0).collect(in);
    const unsigned kinds[] = {0, 1, 2, 3, 16, 16, 16, 8, 8, 12, 7, 9, 14};
    std::vector<std::vector<c16::Op>> o(n_libs + 1u);
    for (auto &x : o) {
        for (unsigned k = 0; k < 8; ++k) {
            x.push_back({kinds[r.below(std::size(kinds))], static_cast<unsigned>(r.below(3)), static_cast<unsigned>(r.below(3)), r.next()});
        }
    }
    std::vector<std::vector<std::string>> res(n_libs + 1u);
    std::vector<std::thread> ts;
    std::atomic<unsigned> ready{0};
    for (unsigned i = 0; i <= n_libs; ++i) {
        ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) <= n_libs) {
                std::this_thread::yield();
            }
            for (const auto &x : o[i]) {
                res[i].push_back(ops<T>(i).outcome(*v, x));
            }
        });
    }
    for (auto &x : ts) {
        x.join();
    }
    for (unsigned i = 0; i <= n_libs; ++i) {
        for (std::size_t k = 0; k < o[i].size(); ++k) {
            const auto e = ops<T>(static_cast<unsigned>(r.below(n_libs + 1u))).outcome(*v, o[i][k]);
            c.check(res[i][k] == e, cat("operation ", o[i][k].what).c_str(),
                    [&] { return cat("got ", res[i][k].substr(0, 400), " expected ", e.substr(0, 400), " operands ", log.substr(0, 600)); });
            c.event("operations of the parts in threads");
        }
    }
    ops<T>(n_libs ? 2 : 0).release(v);
    for (auto p : in) {
        ops<T>(static_cast<unsigned>(r.below(n_libs + 1u))).destroy(const_cast<T *>(p));
    }
    c.seen(log);
    c.sample(log);
}

} // namespace

VF_WORKLOAD("parts-packed", 200, 6000)
{
    parts<A>(c);
}
VF_WORKLOAD("parts-dynamic", 200, 6000)
{
    parts<B>(c);
}
VF_WORKLOAD("parts-truncated", 200, 6000)
{
    parts<S>(c);
}
VF_WORKLOAD("parts-truncated-dynamic", 200, 6000)
{
    parts<D>(c);
}
VF_WORKLOAD("threads-packed", 60, 1500)
{
    parts_threads<A>(c);
}
VF_WORKLOAD("threads-dynamic", 60, 1500)
{
    parts_threads<B>(c);
}
VF_WORKLOAD("threads-truncated", 60, 1500)
{
    parts_threads<S>(c);
}

VF_WORKLOAD("failures", 60, 1500)
{
    // Thrown in a part, caught in another; the switch of the stack traces is one for all.
    auto &r = c.rng;
    const auto i = static_cast<unsigned>(r.below(n_libs + 1u)), j = static_cast<unsigned>(r.below(n_libs + 1u));
    const auto what = static_cast<unsigned>(r.below(n_failures));
    const bool on = r.chance(1, 2), old = part(i).traced();
    part(i).trace(on);
    c.check(part(j).traced() == on, "stack traces not switched everywhere", [&] { return cat(i, j, on); });
    const auto e = caught([&] { fail(what); });
    const auto got = caught([&] { part(j).fail(what); });
    c.check(got == e && e != "nothing", "failures of another part", [&] { return cat(got, " instead of ", e); });
    part(j).trace(old);
    c.check(part(i).traced() == old, "stack traces not switched everywhere", [&] { return cat(i, j, on); });
    c.check(part(i).cores() == part(j).cores(), "number of cores");
    c.event("failures between parts");
    c.sample(got);
    c.seen(cat(i, j, what, on));
}

namespace
{

// The body of the programs started below.
void child(Case &c)
{
    auto &r = c.rng;
    unsigned id = 1;
    auto some = [&] { return static_cast<unsigned>(r.below(r.chance(1, 2) ? 1u : n_libs + 1u)); };
    // NOTE: handlers may be there before anything else happens.
    const auto n = 2u + r.below(9);
    for (u64 k = 0; k < n; ++k) {
        const auto p = some();
        switch (r.below(8)) {
            case 0:
                (void)caught([&] { part(p).fail(static_cast<unsigned>(r.below(n_failures))); });
                break;
            case 1:
                part(p).clear_cache();
                break;
            case 2: {
                // The objects of a thread go away with it.
                const auto a = r.next(), b = r.next(), d = r.next();
                const auto q = some();
                part(p);
                part(q);
                std::thread([&] {
                    part(p).keep(id, a);
                    part(q).keep(id + 1u, b);
                    part(p).keep(id + 2u, d);
                }).join();
                id += 3u;
                break;
            }
            case 3: {
                const std::unique_ptr<B> x(ops<B>(p).make(MP::var("x") + MP(Q(1)), Syms{"x"}, 0, {}));
                const std::unique_ptr<B> y(ops<B>(p).power(*x, 3));
                const std::unique_ptr<B> z(ops<B>(p).unary(2, *y, "y"));
                break;
            }
            default:
                part(p).keep(id++, r.next());
        }
    }
    switch (r.below(6)) {
        case 0:
        case 1:
            std::exit(0);
        case 2:
            part(0).put("way 1");
            std::quick_exit(0);
        case 3:
            part(0).put("way 2");
            std::thread([] { std::exit(0); }).join();
            break;
        default:
            break;
    }
}

const bool is_child = [] {
    if (std::getenv("VF_CHILD")) {
        workloads().clear();
        workloads().push_back({"child", 1, 1, &child});
    }
    return true;
}();

} // namespace

VF_WORKLOAD("programs", 200, 8000)
{
    // Whole programs, with series in objects of all durations, which work with them until the end.
    const char *tmp = std::getenv("VF_TMP");
    const auto base = cat(tmp ? tmp : "/tmp", "/life-", ::getpid(), "-", c.idx);
    const auto logf = base + ".log", errf = base + ".err";
    const auto seed = c.rng.next() & 0xffffffffu;
    std::vector<std::string> env;
    for (auto e = environ; *e; ++e) {
        if (std::strncmp(*e, "VF_CHILD=", 9) != 0 && std::strncmp(*e, "VF_LOG=", 7) != 0) {
            env.emplace_back(*e);
        }
    }
    env.push_back(cat("VF_CHILD=", seed));
    env.push_back("VF_LOG=" + logf);
    std::vector<std::string> args{self(), "--only", "child", "--idx", "0", "--seed", std::to_string(seed)};
    std::vector<char *> ep, ap;
    for (auto &x : env) {
        ep.push_back(x.data());
    }
    for (auto &x : args) {
        ap.push_back(x.data());
    }
    ep.push_back(nullptr);
    ap.push_back(nullptr);
    ::posix_spawn_file_actions_t fa;
    ::posix_spawn_file_actions_init(&fa);
    ::posix_spawn_file_actions_addopen(&fa, 1, errf.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    ::posix_spawn_file_actions_adddup2(&fa, 1, 2);
    ::pid_t pid = 0;
    if (::posix_spawn(&pid, ap[0], &fa, nullptr, ap.data(), ep.data()) != 0) {
        broken("posix_spawn");
    }
    ::posix_spawn_file_actions_destroy(&fa);
    int st = 0;
    bool stuck = true;
    for (int k = 0; k < 12000; ++k) {
        if (::waitpid(pid, &st, WNOHANG) == pid) {
            stuck = false;
            break;
        }
        ::usleep(10000);
    }
    if (stuck) {
        ::kill(pid, SIGKILL);
        ::waitpid(pid, &st, 0);
    }
    std::string err, line;
    {
        std::ifstream f(errf);
        std::stringstream ss;
        ss << f.rdbuf();
        err = ss.str();
    }
    ::unlink(errf.c_str());
    std::map<u64, char> want;
    std::map<u64, std::string> got;
    // At a quick exit, only the handlers of those are run; a thread which ends the program keeps the objects of the others.
    u64 way = 0;
    {
        std::ifstream f(logf);
        while (std::getline(f, line)) {
            std::istringstream iss(line);
            std::string w;
            u64 id = 0;
            iss >> w >> id;
            if (w == "way") {
                way = id;
            } else if (w == "want") {
                iss >> want[id];
            } else {
                std::getline(iss, w);
                if (got.count(id)) {
                    c.check(false, "reported twice", [&] { return line; });
                }
                got[id] = w;
            }
        }
    }
    ::unlink(logf.c_str());
    if (err.find("VF-HARNESS-FAIL") != std::string::npos || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !stuck)) {
        broken("a program of C25: " + err);
    }
    if (!c.check(!stuck, "a program does not end", [&] { return cat("seed ", seed, " ", err.substr(0, 1500)); })) {
        return;
    }
    const bool fine = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    // What went wrong, in a few words.
    std::string what = "a program fails";
    for (const auto w : {"heap-use-after-free", "heap-buffer-overflow", "SEGV", "double-free", "runtime error", "terminate called", "Assertion"}) {
        if (err.find(w) != std::string::npos) {
            what += cat(": ", w);
            break;
        }
    }
    for (auto &ch : what) {
        ch = ch == ' ' ? '_' : ch;
    }
    c.check(fine, what.c_str(), [&] { return cat("seed ", seed, " status ", st, "\n", err.substr(0, 3500)); });
    for (const auto &[id, w] : got) {
        c.check(w == " ok", "results at the end", [&] { return cat("seed ", seed, " object ", id, w); });
        c.event("objects which worked at the end");
    }
    if (fine) {
        for (const auto &[id, k] : want) {
            const auto w = (k == 'q') == (way == 1u);
            if (w && !(k == 't' && way)) {
                c.check(got.count(id), "objects which never went away", [&] { return cat("seed ", seed, " object ", id, k, " way ", way); });
            }
            if (got.count(id)) {
                c.event(k == 'q' ? "handlers of quick exits" : (k == 't' ? "objects of threads" : "objects and handlers at the end"));
            }
        }
        c.event(way == 1u ? "quick exits" : (way == 2u ? "exits of threads" : "exits"));
        c.event("programs which ended");
    }
    c.seen(cat(seed));
    c.sample(cat("seed ", seed, ", ", want.size(), " objects"));
}
