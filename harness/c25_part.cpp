// A part of a program: this is in the executable and in each of the libraries it loads.
#include "c25_api.hpp"

#include <cstdlib>
#include <fcntl.h>
#include <thread>
#include <unistd.h>

namespace c25
{

namespace
{

void put(const std::string &s)
{
    // NOTE: nothing which could be gone already.
    const char *p = std::getenv("VF_LOG");
    const int fd = p ? ::open(p, O_WRONLY | O_APPEND | O_CREAT, 0644) : -1;
    const auto l = s + "\n";
    if (fd < 0 || ::write(fd, l.data(), l.size()) != static_cast<ssize_t>(l.size())) {
        std::fprintf(stderr, "VF-HARNESS-FAIL cannot write the log\n");
        std::_Exit(9);
    }
    ::close(fd);
}

// What will be computed, and what has to come out.
struct Plan {
    unsigned n = 0;
    u64 id = 0, seed = 0;
    MP x, y, sum, diff, prod, pw, der, sum2;
    Syms sx, sy;
    Trunc t;
    std::string der_sym;
};

template <typename T>
MP cut(const Plan &p, const MP &m)
{
    if (is_ps<T> && p.t.kind == 1) {
        return mtrunc(m, p.t.d);
    }
    return m;
}

template <typename T>
Plan *make_plan(u64 id, u64 seed)
{
    Rng r(seed);
    auto p = new Plan;
    p->id = id;
    p->seed = seed;
    GenCfg g;
    g.restrict_syms(r, 4);
    g.max_syms = 3;
    g.max_terms = 5;
    g.emax = 3;
    g.huge = false;
    if (is_ps<T> && r.chance(1, 2)) {
        p->t.kind = 1;
        p->t.d = r.range(2, 7);
    }
    p->sx = gen_syms(r, g);
    p->sy = gen_syms(r, g);
    p->x = cut<T>(*p, gen_mp<obake::series_cf_t<T>>(r, p->sx, g));
    p->y = cut<T>(*p, gen_mp<obake::series_cf_t<T>>(r, p->sy, g));
    p->n = static_cast<unsigned>(r.below(5));
    p->sum = cut<T>(*p, p->x + p->y);
    p->diff = cut<T>(*p, p->x - p->y);
    p->prod = cut<T>(*p, p->x * p->y);
    p->pw = cut<T>(*p, mpow(p->sum, p->n));
    p->der_sym = r.pick(g.universe);
    p->der = mdiff(p->x, p->der_sym);
    p->sum2 = p->sum + p->sum;
    return p;
}

template <typename T>
T build(const Plan &p, const MP &m, const Syms &s)
{
    T r;
    {
        const std::unique_ptr<T> q(make<T>(m, s, static_cast<unsigned>(p.seed % 3u), p.t));
        r = *q;
    }
    return r;
}

// Everything one does with series.
template <typename T>
std::string work(const Plan &p, T &x, T &y)
{
    const char *what = "";
    std::string bad;
    auto want = [&](const T &got, const MP &e, const char *w) {
        const auto m = to_model(got);
        if (!(m == e) && bad.empty()) {
            bad = cat(w, " got ", mstr(m), " expected ", mstr(e), " of ", mstr(p.x), " and ", mstr(p.y));
        }
    };
    try {
        want(x, p.x, "content");
        want(y, p.y, "content");
        what = "sum";
        const T s = x + y;
        want(s, p.sum, what);
        what = "difference";
        want(x - y, p.diff, what);
        what = "product";
        want(x * y, p.prod, what);
        what = "power";
        want(T(obake::pow(s, p.n)), p.pw, what);
        what = "derivative";
        if constexpr (!is_ps<T>) {
            want(T(obake::diff(x, p.der_sym)), p.der, what);
        }
        what = "sums in place";
        T z;
        z = x;
        z += y;
        want(z, p.sum, what);
        z += T(s);
        want(z, p.sum2, what);
        what = "exchange";
        using std::swap;
        swap(x, y);
        want(x, p.y, what);
        swap(x, y);
        want(x, p.x, what);
        what = "text";
        std::ostringstream oss;
        oss << s;
        if (oss.str().find("Key type") == std::string::npos || c16::lines(s, true).empty()) {
            bad = "text: " + oss.str();
        }
        what = "symbols";
        z = T{};
        z.set_symbol_set(to_ss(uni(p.sx, p.sy)));
        if (z.get_symbol_set() != to_ss(uni(p.sx, p.sy))) {
            bad = "symbols";
        }
        what = "failure";
        if (caught([] { fail(1); }).rfind("invalid_argument", 0) != 0 || caught([] { fail(0); }).rfind("safe_cast_failure", 0) != 0) {
            bad = "failure " + caught([] { fail(1); }) + caught([] { fail(0); });
        }
    } catch (const std::exception &e) {
        return cat(what, ": unexpected exception: ", e.what());
    }
    return bad;
}

void report(const Plan &p, const std::string &bad)
{
    auto s = bad.empty() ? std::string("ok") : "BAD " + bad;
    for (auto &ch : s) {
        if (ch == '\n') {
            ch = ' ';
        }
    }
    put(cat("got ", p.id, " ", s));
}

template <typename T>
struct Keeper {
    T x, y;
    Plan *plan = nullptr;
    Keeper() = default;
    // Filled while the program is being started.
    explicit Keeper(unsigned id)
    {
        if (const char *e = std::getenv("VF_CHILD")) {
            const auto seed = mix64(std::strtoull(e, nullptr, 10) * 131u + id);
            if (seed % 3u == 0u) {
                // The number of this object, among those of all the parts.
                fill((reinterpret_cast<std::uintptr_t>(&put) >> 4) * 16u + id, seed);
                if (seed % 2u == 0u) {
                    // Use it as well.
                    const auto bad = work(*plan, x, y);
                    if (!bad.empty()) {
                        report(*plan, "at the start: " + bad);
                    }
                }
            }
        }
    }
    Keeper(const Keeper &) = delete;
    Keeper &operator=(const Keeper &) = delete;
    bool fill(u64 id, u64 seed, const char *kind = "n")
    {
        if (plan) {
            return false;
        }
        plan = make_plan<T>(id, seed);
        x = build<T>(*plan, plan->x, plan->sx);
        y = build<T>(*plan, plan->y, plan->sy);
        put(cat("want ", id, " ", kind));
        return true;
    }
    ~Keeper()
    {
        if (plan) {
            report(*plan, work(*plan, x, y));
            delete plan;
        }
    }
};

// Global objects.
Keeper<A> ga0(0), ga1(1), ga2;
Keeper<B> gb0(2), gb1(3), gb2;
Keeper<S> gs0(4), gs1;
Keeper<D> gd0(5), gd1;

template <typename T>
bool fill_global(unsigned k, unsigned id, u64 seed)
{
    if constexpr (std::is_same_v<T, A>) {
        Keeper<A> *v[] = {&ga0, &ga1, &ga2};
        return v[k % 3]->fill(id, seed);
    } else if constexpr (std::is_same_v<T, B>) {
        Keeper<B> *v[] = {&gb0, &gb1, &gb2};
        return v[k % 3]->fill(id, seed);
    } else if constexpr (std::is_same_v<T, S>) {
        return (k % 2 ? gs1 : gs0).fill(id, seed);
    } else {
        return (k % 2 ? gd1 : gd0).fill(id, seed);
    }
}

template <typename T, unsigned I>
bool fill_local(unsigned id, u64 seed)
{
    static Keeper<T> k;
    return k.fill(id, seed);
}
template <typename T, unsigned I>
bool fill_thread(unsigned id, u64 seed)
{
    thread_local Keeper<T> k;
    return k.fill(id, seed, "t");
}

// The pending handlers: never destroyed.
template <typename T>
std::vector<Plan *> &pending(bool quick)
{
    static auto &v = *new std::vector<Plan *>;
    static auto &q = *new std::vector<Plan *>;
    return quick ? q : v;
}
template <typename T>
void handle(std::vector<Plan *> &v)
{
    if (v.empty()) {
        return;
    }
    const std::unique_ptr<Plan> p(v.back());
    v.pop_back();
    T x = build<T>(*p, p->x, p->sx), y = build<T>(*p, p->y, p->sy);
    report(*p, work(*p, x, y));
}
template <typename T>
bool at_exit(unsigned id, u64 seed, bool quick)
{
    const auto p = make_plan<T>(id, seed);
    pending<T>(quick).push_back(p);
    if ((quick ? std::at_quick_exit([] { handle<T>(pending<T>(true)); }) : std::atexit([] { handle<T>(pending<T>(false)); })) != 0) {
        pending<T>(quick).pop_back();
        delete p;
        return false;
    }
    put(cat("want ", id, quick ? " q" : " n"));
    return true;
}

template <typename T>
void keep_one(unsigned id, u64 seed)
{
    switch ((seed >> 8) % 8u) {
        case 0:
        case 1:
            fill_global<T>(static_cast<unsigned>(seed >> 16), id, seed);
            break;
        case 2:
            fill_local<T, 0>(id, seed);
            break;
        case 3:
            fill_local<T, 1>(id, seed);
            break;
        case 4:
            fill_thread<T, 0>(id, seed);
            break;
        case 5:
            fill_thread<T, 1>(id, seed);
            break;
        case 6:
            at_exit<T>(id, seed, false);
            break;
        default:
            at_exit<T>(id, seed, (seed >> 20) % 2u == 0u);
    }
}

void keep(unsigned id, u64 seed)
{
    switch (seed % 4u) {
        case 0:
            return keep_one<A>(id, seed);
        case 1:
            return keep_one<B>(id, seed);
        case 2:
            return keep_one<S>(id, seed);
        default:
            return keep_one<D>(id, seed);
    }
}

} // namespace

Api make_api()
{
    Api r;
    r.a = make_ops<A>();
    r.b = make_ops<B>();
    r.s = make_ops<S>();
    r.d = make_ops<D>();
    r.clear_cache = [] { obake::customisation::internal::clear_series_pow_map(); };
    r.trace = [](bool x) { obake::set_stack_trace_enabled(x); };
    r.traced = [] { return obake::stack_trace_enabled(); };
    r.fail = &fail;
    r.keep = &keep;
    r.put = [](const char *l) { put(l); };
    r.cores = [] { return obake::detail::hc(); };
    return r;
}

} // namespace c25

extern "C" __attribute__((visibility("default"))) const c25::Api *c25_api()
{
    static const auto &a = *new c25::Api(c25::make_api());
    return &a;
}
