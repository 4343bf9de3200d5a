// Coefficients of a user, which have symbols of their own: all that the library may know of them
// is in functions of one layer. Those of the lower layers are there as well, and are never to be called.
#ifndef C26_CF_HPP
#define C26_CF_HPP

#include "polyk.hpp"

#include <atomic>
#include <map>
#include <mutex>
#include <ostream>
#include <sstream>

#include <obake/byte_size.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/tex_stream_insert.hpp>

namespace c26n
{

using namespace vf;

// (The library calls from several threads.)
struct Counter {
    std::atomic<u64> n{0};
    void operator++()
    {
        ++n;
    }
    u64 take()
    {
        return n.exchange(0);
    }
};
inline std::map<std::string, Counter> used;
inline std::mutex used_m;
inline std::atomic<u64> wrong{0};
inline Counter &uses(const char *f)
{
    std::lock_guard<std::mutex> l(used_m);
    return used[f];
}

// 1: explicit overrides; 2: functions found by their arguments.
template <unsigned L>
struct Hid {
    MP m;
    Hid() = default;
    explicit Hid(int n) : m(Q(n)) {}
    explicit Hid(MP p) : m(std::move(p)) {}
    friend Hid operator+(const Hid &a, const Hid &b)
    {
        return Hid(a.m + b.m);
    }
    friend Hid operator-(const Hid &a, const Hid &b)
    {
        return Hid(a.m - b.m);
    }
    friend Hid operator*(const Hid &a, const Hid &b)
    {
        return Hid(a.m * b.m);
    }
    Hid &operator+=(const Hid &o)
    {
        m = m + o.m;
        return *this;
    }
    Hid &operator-=(const Hid &o)
    {
        m = m - o.m;
        return *this;
    }
    Hid &operator*=(const Hid &o)
    {
        m = m * o.m;
        return *this;
    }
    friend bool operator==(const Hid &a, const Hid &b)
    {
        return a.m.t == b.m.t;
    }
    friend bool operator!=(const Hid &a, const Hid &b)
    {
        return !(a == b);
    }
    // The exponents, for derivatives, antiderivatives, evaluations.
    template <typename I>
    requires(obake::is_integral_v<I>) friend Hid operator*(const Hid &a, const I &n)
    {
        return Hid(a.m * Q(static_cast<long>(n)));
    }
    template <typename I>
    requires(obake::is_integral_v<I>) friend Hid operator*(const I &n, const Hid &a)
    {
        return a * n;
    }
    template <typename I>
    requires(obake::is_integral_v<I>) friend Hid operator/(const Hid &a, const I &n)
    {
        const Q q = Q(1) / Q(static_cast<long>(n));
        return Hid(a.m * q);
    }
};
template <typename T>
inline constexpr unsigned layer_of = 0;
template <unsigned L>
inline constexpr unsigned layer_of<Hid<L>> = L;
template <typename T>
concept AnyHid = layer_of<std::remove_cvref_t<T>> != 0u;
template <typename T>
concept Ext = layer_of<std::remove_cvref_t<T>> == 1u;

inline Syms names(const obake::symbol_set &ss)
{
    return Syms(ss.begin(), ss.end());
}

// The functions themselves, and what each does.
struct is_zero_f {
    template <typename T>
    static bool run(const T &x)
    {
        return x.m.t.empty();
    }
};
struct negate_f {
    template <typename T>
    static void run(T &&x)
    {
        x.m = -x.m;
    }
};
struct degree_f {
    template <typename T>
    static long run(const T &x)
    {
        long r = 0;
        bool first = true;
        for (const auto &[m, q] : x.m.t) {
            r = first ? mdegree(m) : std::max<long>(r, mdegree(m));
            first = false;
        }
        return r;
    }
};
struct p_degree_f {
    template <typename T>
    static long run(const T &x, const obake::symbol_set &ss)
    {
        const auto sy = names(ss);
        long r = 0;
        bool first = true;
        for (const auto &[m, q] : x.m.t) {
            r = first ? mpdegree(m, sy) : std::max<long>(r, mpdegree(m, sy));
            first = false;
        }
        return r;
    }
};
struct diff_f {
    template <typename T>
    static T run(const T &x, const std::string &s)
    {
        return T(mdiff(x.m, s));
    }
};
struct subs_f {
    template <typename T>
    static T run(const T &x, const obake::symbol_map<T> &sm)
    {
        std::map<std::string, MP> v;
        for (const auto &[n, y] : sm) {
            v[n] = y.m;
        }
        return T(msubs(x.m, v));
    }
};
struct evaluate_f {
    template <typename T>
    static T run(const T &x, const obake::symbol_map<T> &sm)
    {
        return subs_f::run(x, sm);
    }
};
struct pow_f {
    template <typename T, typename I>
    static T run(const T &x, const I &n)
    {
        if (n < 0) {
            throw std::invalid_argument("negative power");
        }
        return T(mpow(x.m, static_cast<unsigned>(n)));
    }
};
struct trim_f {
    template <typename T>
    static std::remove_cvref_t<T> run(T &&x)
    {
        return std::forward<T>(x);
    }
};
struct byte_size_f {
    template <typename T>
    static std::size_t run(const T &x)
    {
        return 1000u + x.m.t.size();
    }
};
struct fma3_f {
    template <typename T>
    static void run(T &x, const T &a, const T &b)
    {
        x.m = x.m + a.m * b.m;
    }
};
struct cf_stream_insert_f {
    template <typename T>
    static void run(std::ostream &os, const T &x)
    {
        os << "<" << x.m.t.size() << ">";
    }
};
struct cf_tex_stream_insert_f {
    template <typename T>
    static void run(std::ostream &os, const T &x)
    {
        os << "<<" << x.m.t.size() << ">>";
    }
};

template <typename F, unsigned L, typename... A>
decltype(auto) go(const char *n, A &&...a)
{
    if (((layer_of<std::remove_cvref_t<A>> != 0u && layer_of<std::remove_cvref_t<A>> != L) || ...)) {
        ++wrong;
    }
    ++uses(n);
    return F::run(std::forward<A>(a)...);
}
template <typename F>
struct Fun {
    const char *n;
    template <typename... A>
    auto operator()(A &&...a) const -> decltype(F::run(std::forward<A>(a)...))
    {
        return go<F, 1>(n, std::forward<A>(a)...);
    }
};

} // namespace c26n

#define C26N_ADL(name)                                                                                                 \
    namespace c26n                                                                                                     \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires((AnyHid<A> || ...)) auto name(A &&...a) -> decltype(name##_f::run(std::forward<A>(a)...))                 \
    {                                                                                                                  \
        return go<name##_f, 2>(#name, std::forward<A>(a)...);                                                          \
    }                                                                                                                  \
    }
#define C26N_TAG(name)                                                                                                 \
    C26N_ADL(name)                                                                                                     \
    namespace c26n                                                                                                     \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires((Ext<A> || ...)) auto name(obake::customisation::name##_t, A &&...a) -> decltype(name##_f::run(std::forward<A>(a)...)) \
    {                                                                                                                  \
        return go<name##_f, 1>(#name, std::forward<A>(a)...);                                                          \
    }                                                                                                                  \
    }
#define C26N_VAR(name, tl, args)                                                                                       \
    C26N_ADL(name)                                                                                                     \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    template <C26N_UNPAREN tl>                                                                                         \
    requires c26n::Ext<T>                                                                                              \
    inline constexpr auto name<C26N_UNPAREN args> = c26n::Fun<c26n::name##_f>{#name};                                  \
    }
#define C26N_UNPAREN(...) __VA_ARGS__

C26N_TAG(is_zero)
C26N_TAG(negate)
C26N_TAG(subs)
C26N_TAG(pow)
C26N_TAG(cf_tex_stream_insert)
C26N_VAR(degree, (typename T), (T))
C26N_VAR(p_degree, (typename T), (T))
C26N_VAR(diff, (typename T), (T))
C26N_VAR(evaluate, (typename T, typename U), (T, U))
C26N_VAR(trim, (typename T), (T))
C26N_VAR(byte_size, (typename T), (T))
C26N_VAR(fma3, (typename T, typename U, typename V), (T, U, V))
C26N_VAR(cf_stream_insert, (typename T), (T))

// Lower still.
namespace c26n
{
template <unsigned L>
Hid<L> operator-(const Hid<L> &a)
{
    ++wrong;
    return Hid<L>(-a.m);
}
template <unsigned L>
std::ostream &operator<<(std::ostream &os, const Hid<L> &)
{
    ++wrong;
    return os;
}
} // namespace c26n

namespace c26
{

using namespace vf;
using c26n::Hid;

template <typename S>
MP whole(const S &s)
{
    MP r;
    for (const auto &[k, h] : s) {
        Mono m{};
        const auto u = unpack(k, s.get_symbol_set().size());
        for (std::size_t i = 0; i < u.size(); ++i) {
            m[pool_idx(*s.get_symbol_set().nth(i))] = static_cast<i64>(u[i]);
        }
        MP x;
        x.t[m] = Q(1);
        r = r + x * h.m;
    }
    return r;
}

// The symbols of the coefficients: h; those of the series: g.
template <typename H>
H gen_hid(Rng &r, const Syms &h, unsigned terms)
{
    MP p;
    do {
        const auto n = 1u + r.below(terms);
        for (u64 i = 0; i < n; ++i) {
            Mono m{};
            for (const auto &x : h) {
                m[pool_idx(x)] = static_cast<i64>(r.below(3));
            }
            p.add(m, Q(static_cast<long>(r.range(-3, 3))));
        }
    } while (p.t.empty());
    return H(p);
}

template <typename S>
S gen(Rng &r, const Syms &g, const Syms &h, unsigned terms)
{
    S s;
    Syms sy;
    for (const auto &x : g) {
        if (r.chance(2, 3)) {
            sy.insert(x);
        }
    }
    s.set_symbol_set(to_ss(sy));
    s.set_n_segments(static_cast<unsigned>(r.below(3)));
    const auto n = r.below(terms);
    for (u64 i = 0; i < n; ++i) {
        Mono m{};
        for (const auto &x : sy) {
            m[pool_idx(x)] = static_cast<i64>(r.below(4));
        }
        s.add_term(make_key<obake::series_key_t<S>>(m, sy), gen_hid<obake::series_cf_t<S>>(r, h, 3));
    }
    return s;
}

template <typename S>
void coefficients(Case &c)
{
    using H = obake::series_cf_t<S>;
    auto &r = c.rng;
    const Syms g{"a", "b", "x"}, h{"c", "y"};
    {
        std::lock_guard<std::mutex> l(c26n::used_m);
        c26n::used.clear();
    }
    c26n::wrong = 0;
    const auto p = gen<S>(r, g, h, 6), q = gen<S>(r, g, h, 6);
    const auto mp = whole(p), mq = whole(q);
    const auto ctx = [&] { return cat(mstr(mp), " and ", mstr(mq)); };
    const auto same = [&](const auto &s, const MP &e, const char *what) {
        c.check(whole(s).t == e.t, what, [&] { return cat(ctx(), " got ", mstr(whole(s)), " expected ", mstr(e)); });
        for (const auto &t : s) {
            c.check(!t.second.m.t.empty(), "term with a zero coefficient", ctx);
        }
        c.event("operations");
    };
    const auto some = [&](const char *f, bool needed = true) {
        const auto n = c26n::uses(f).take();
        c.check(!needed || n > 0u, "a function was not called", [&] { return cat(f, " for ", ctx()); });
        if (n) {
            c.event(cat("functions of coefficients: ", f).c_str(), n);
        }
    };
    same(p + q, mp + mq, "sum");
    c26n::uses("negate").take();
    same(p - q, mp - mq, "difference");
    some("is_zero", !p.empty() && !q.empty());
    {
        auto s = p;
        s += q;
        same(s, mp + mq, "in-place sum");
        s -= q;
        same(s, mp, "in-place difference");
        s -= s;
        same(s, MP(), "difference with itself");
    }
    c26n::uses("negate").take();
    same(-p, -mp, "opposite");
    some("negate", !p.empty());
    same(p * q, mp * mq, "product");
    some("fma3", false);
    const auto k = gen_hid<H>(r, h, 2);
    same(p * k, mp * k.m, "product with a coefficient");
    same(k * p, mp * k.m, "product with a coefficient, on the right");
    same(p + k, mp + k.m, "sum with a coefficient");
    same(k - p, k.m - mp, "difference from a coefficient");
    const auto n = static_cast<int>(r.below(4));
    same(obake::pow(p, n), mpow(mp, static_cast<unsigned>(n)), "power");
    some("pow", false);
    for (const auto *s : {"x", "c"}) {
        same(obake::diff(p, s), mdiff(mp, s), "derivative");
        some("diff", !p.empty());
        bool ok = std::string(s) == "x";
        if (!ok) {
            ok = mdiff(mp, s).t.empty();
        }
        try {
            same(obake::integrate(p, s), mintegrate(mp, s), "antiderivative");
            c.check(ok, "antiderivative: no exception", ctx);
        } catch (const std::invalid_argument &) {
            c.check(!ok, "antiderivative: exception", ctx);
            c.event("refused antiderivatives");
        }
        some("diff", !p.empty());
    }
    {
        long e = 0, f = 0;
        bool first = true;
        const Syms sel{"x", "y", "z"};
        for (const auto &[m, qq] : mp.t) {
            e = first ? mdegree(m) : std::max<long>(e, mdegree(m));
            f = first ? mpdegree(m, sel) : std::max<long>(f, mpdegree(m, sel));
            first = false;
        }
        const auto d = obake::degree(p);
        some("degree", !p.empty());
        const auto pd = obake::p_degree(p, to_ss(sel));
        some("p_degree", !p.empty());
        // (The maximum over the terms of the sum of degrees: terms of a coefficient do not cancel in it.)
        c.check(static_cast<long>(d) == e, "degree", [&] { return cat(ctx(), " got ", static_cast<long>(d)); });
        c.check(static_cast<long>(pd) == f, "partial degree", [&] { return cat(ctx(), " got ", static_cast<long>(pd)); });
    }
    same(obake::trim(p), mp, "trim");
    some("trim", !p.empty());
    {
        // Values for all the symbols, of the coefficients as well.
        obake::symbol_map<H> sm, part;
        std::map<std::string, MP> v, vp;
        for (const auto *s : {"a", "b", "c", "x", "y"}) {
            auto y = gen_hid<H>(r, h, 1);
            v[s] = y.m;
            sm.emplace(s, y);
            if (r.chance(1, 2)) {
                vp[s] = y.m;
                part.emplace(s, y);
            }
        }
        const auto e = obake::evaluate(p, sm);
        c.check(e.m.t == msubs(mp, v).t, "evaluation", [&] { return cat(ctx(), " got ", mstr(e.m)); });
        some("evaluate", !p.empty());
        some("pow", false);
        const auto s = obake::subs(p, part);
        some("subs", !p.empty());
        same(s, msubs(mp, vp), "substitution");
    }
    {
        std::ostringstream a, b;
        a << p;
        some("cf_stream_insert", !p.empty());
        obake::tex_stream_insert(b, p);
        some("cf_tex_stream_insert", !p.empty());
        c.check(p.empty() || (a.str().find('<') != std::string::npos && a.str().find("<<") == std::string::npos && b.str().find("<<") != std::string::npos),
                "printed by something else", [&] { return cat(a.str(), " and ", b.str()); });
    }
    {
        std::size_t e = 0;
        for (const auto &t : p) {
            e += 1000u + t.second.m.t.size();
        }
        c.check(obake::byte_size(p) >= e && obake::byte_size(p) < e + 100000u, "size", ctx);
        some("byte_size", !p.empty());
    }
    c.check(whole(p).t == mp.t && whole(q).t == mq.t, "operand altered", ctx);
    c.check(c26n::wrong.load() == 0u, "a function of a lower layer was called", [&] { return cat(c26n::wrong.load(), " times, for ", ctx()); });
    if (!p.empty() && !q.empty()) {
        c.seen(ctx());
    }
    c.sample(ctx());
}

} // namespace c26

#endif
