// Keys of a user: all that the library may know of them is in functions of one layer.
// Keys which were moved from are not to be used again, but for assignments and destruction.
#ifndef C26_KEY_HPP
#define C26_KEY_HPP

#include "polyk.hpp"

#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <ostream>
#include <sstream>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/vector.hpp>

#include <obake/byte_size.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/ranges.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

namespace c26k
{

using namespace vf;

// (The library calls from several threads.)
struct Fn {
    std::atomic<u64> n{0};
};
inline std::map<std::string, Fn> used;
inline std::mutex used_m;
inline Fn &fn(const char *f)
{
    std::lock_guard<std::mutex> l(used_m);
    return used[f];
}
inline std::atomic<u64> wrong{0}, dead{0};
// The weights of the exponents in the hash (any will do: equal ones make many keys collide), the size of a key.
inline std::array<std::size_t, 8> weights{};
inline std::size_t size_of_key = 100;

// L: layer of the functions (1: explicit overrides; 2: found by their arguments). H: with a homomorphic hash.
template <unsigned L, bool H>
struct UK {
    std::vector<i64> v;
    bool gone = false;
    UK() = default;
    explicit UK(std::vector<i64> x) : v(std::move(x)) {}
    explicit UK(const obake::symbol_set &ss) : v(ss.size(), 0) {}
    UK(const UK &o) : v(o.v), gone(o.gone)
    {
        o.live();
    }
    UK(UK &&o) noexcept : v(std::move(o.v)), gone(o.gone)
    {
        o.live();
        o.gone = true;
    }
    UK &operator=(const UK &o)
    {
        o.live();
        v = o.v;
        gone = o.gone;
        return *this;
    }
    UK &operator=(UK &&o) noexcept
    {
        o.live();
        if (this != &o) {
            v = std::move(o.v);
            gone = o.gone;
            o.gone = true;
        }
        return *this;
    }
    ~UK() = default;
    void live() const
    {
        if (gone) {
            ++dead;
        }
    }
    friend bool operator==(const UK &a, const UK &b)
    {
        a.live();
        b.live();
        return a.v == b.v;
    }
    friend bool operator!=(const UK &a, const UK &b)
    {
        return !(a == b);
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &v;
    }
};
template <typename T>
inline constexpr unsigned layer_of = 0;
template <unsigned L, bool H>
inline constexpr unsigned layer_of<UK<L, H>> = L;
template <typename T>
inline constexpr bool hom = false;
template <unsigned L, bool H>
inline constexpr bool hom<UK<L, H>> = H;
template <typename T>
concept AnyUK = layer_of<std::remove_cvref_t<T>> != 0u;
template <typename T>
concept Ext = layer_of<std::remove_cvref_t<T>> == 1u;

struct key_is_zero_f {
    template <typename K>
    static bool run(const K &k, const obake::symbol_set &)
    {
        k.live();
        return false;
    }
};
struct key_is_one_f {
    template <typename K>
    static bool run(const K &k, const obake::symbol_set &)
    {
        k.live();
        return std::all_of(k.v.begin(), k.v.end(), [](i64 n) { return n == 0; });
    }
};
struct key_is_compatible_f {
    template <typename K>
    static bool run(const K &k, const obake::symbol_set &ss)
    {
        k.live();
        return k.v.size() == ss.size();
    }
};
struct key_merge_symbols_f {
    template <typename K>
    static std::remove_cvref_t<K> run(K &&k, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss)
    {
        k.live();
        std::vector<i64> r;
        for (std::size_t i = 0; i <= ss.size(); ++i) {
            const auto it = im.find(i);
            if (it != im.end()) {
                r.insert(r.end(), it->second.size(), 0);
            }
            if (i < ss.size()) {
                r.push_back(k.v.at(i));
            }
        }
        return std::remove_cvref_t<K>(std::move(r));
    }
};
struct key_stream_insert_f {
    template <typename K>
    static void run(std::ostream &os, const K &k, const obake::symbol_set &)
    {
        k.live();
        if (std::all_of(k.v.begin(), k.v.end(), [](i64 n) { return n == 0; })) {
            os << '1';
            return;
        }
        os << '(';
        for (auto n : k.v) {
            os << n << "+-";
        }
        os << ')';
    }
};
struct key_tex_stream_insert_f {
    template <typename K>
    static void run(std::ostream &os, const K &k, const obake::symbol_set &)
    {
        k.live();
        if (std::all_of(k.v.begin(), k.v.end(), [](i64 n) { return n == 0; })) {
            os << '1';
            return;
        }
        os << "\\left(";
        for (auto n : k.v) {
            os << n << "+-";
        }
        os << "\\right)";
    }
};
struct key_degree_f {
    template <typename K>
    static long run(const K &k, const obake::symbol_set &)
    {
        k.live();
        long r = 0;
        for (auto n : k.v) {
            r += n;
        }
        return r;
    }
};
struct key_p_degree_f {
    template <typename K>
    static long run(const K &k, const obake::symbol_idx_set &si, const obake::symbol_set &)
    {
        k.live();
        long r = 0;
        for (auto i : si) {
            r += k.v.at(i);
        }
        return r;
    }
};
struct key_evaluate_f {
    template <typename K, typename U>
    static U run(const K &k, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &ss)
    {
        k.live();
        if (sm.size() != ss.size()) {
            ++wrong;
        }
        U r(1);
        for (const auto &[i, x] : sm) {
            for (i64 n = 0; n < k.v.at(i); ++n) {
                r *= x;
            }
        }
        return r;
    }
};
struct key_trim_f {
    template <typename K>
    static std::remove_cvref_t<K> run(K &&k, const obake::symbol_idx_set &si, const obake::symbol_set &)
    {
        k.live();
        std::vector<i64> r;
        for (std::size_t i = 0; i < k.v.size(); ++i) {
            if (!si.count(i)) {
                r.push_back(k.v[i]);
            }
        }
        return std::remove_cvref_t<K>(std::move(r));
    }
};
struct key_trim_identify_f {
    template <typename K>
    static void run(std::vector<int> &v, const K &k, const obake::symbol_set &)
    {
        k.live();
        for (std::size_t i = 0; i < k.v.size(); ++i) {
            if (k.v[i]) {
                v.at(i) = 0;
            }
        }
    }
};
struct monomial_mul_f {
    template <typename K>
    static void run(K &r, const K &a, const K &b, const obake::symbol_set &)
    {
        a.live();
        b.live();
        std::vector<i64> v(a.v.size());
        for (std::size_t i = 0; i < v.size(); ++i) {
            v[i] = a.v[i] + b.v.at(i);
        }
        r = K(std::move(v));
    }
};
struct monomial_pow_f {
    template <typename K, typename I>
    static std::remove_cvref_t<K> run(K &&k, const I &n, const obake::symbol_set &)
    {
        k.live();
        auto v = k.v;
        for (auto &m : v) {
            m *= static_cast<i64>(n);
        }
        return std::remove_cvref_t<K>(std::move(v));
    }
};
struct monomial_subs_f {
    template <typename K, typename U>
    static std::pair<U, std::remove_cvref_t<K>> run(K &&k, const obake::symbol_idx_map<U> &sm, const obake::symbol_set &)
    {
        k.live();
        auto v = k.v;
        U r(1);
        for (const auto &[i, x] : sm) {
            for (i64 n = 0; n < k.v.at(i); ++n) {
                r *= x;
            }
            v[i] = 0;
        }
        return {std::move(r), std::remove_cvref_t<K>(std::move(v))};
    }
};
struct monomial_diff_f {
    template <typename K>
    static std::pair<long, std::remove_cvref_t<K>> run(K &&k, const obake::symbol_idx &i, const obake::symbol_set &)
    {
        k.live();
        auto v = k.v;
        const long n = v.at(i);
        if (n) {
            --v[i];
        }
        return {n, std::remove_cvref_t<K>(std::move(v))};
    }
};
struct monomial_integrate_f {
    template <typename K>
    static std::pair<long, std::remove_cvref_t<K>> run(K &&k, const obake::symbol_idx &i, const obake::symbol_set &)
    {
        k.live();
        auto v = k.v;
        const long n = ++v.at(i);
        return {n, std::remove_cvref_t<K>(std::move(v))};
    }
};
struct hash_f {
    template <typename K>
    static std::size_t run(const K &k)
    {
        k.live();
        std::size_t r = 0;
        for (std::size_t i = 0; i < k.v.size(); ++i) {
            r += weights[i % weights.size()] * static_cast<std::size_t>(k.v[i]);
        }
        if (!hom<K>) {
            r ^= k.v.empty() ? 0u : r << 7;
        }
        return r;
    }
};
struct byte_size_f {
    template <typename K>
    static std::size_t run(const K &k)
    {
        k.live();
        return size_of_key;
    }
};

template <typename F, unsigned L, typename... A>
decltype(auto) go(const char *n, A &&...a)
{
    if (((layer_of<std::remove_cvref_t<A>> != 0u && layer_of<std::remove_cvref_t<A>> != L) || ...)) {
        ++wrong;
    }
    ++fn(n).n;
    return F::run(std::forward<A>(a)...);
}
template <typename F>
struct Fun {
    const char *n;
    template <typename... A>
    auto operator()(A &&...a) const -> decltype(F::run(std::forward<A>(a)...))
    {
        return go<F, 1>(n, std::forward<A>(a)...);
    }
};

} // namespace c26k

#define C26K_ADL(name)                                                                                                 \
    namespace c26k                                                                                                     \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires((AnyUK<A> || ...)) auto name(A &&...a) -> decltype(name##_f::run(std::forward<A>(a)...))                  \
    {                                                                                                                  \
        return go<name##_f, 2>(#name, std::forward<A>(a)...);                                                          \
    }                                                                                                                  \
    }
#define C26K_VAR(name, tl, args)                                                                                       \
    C26K_ADL(name)                                                                                                     \
    namespace obake::customisation                                                                                     \
    {                                                                                                                  \
    template <C26K_UNPAREN tl>                                                                                         \
    requires c26k::Ext<T>                                                                                              \
    inline constexpr auto name<C26K_UNPAREN args> = c26k::Fun<c26k::name##_f>{#name};                                  \
    }
#define C26K_UNPAREN(...) __VA_ARGS__

C26K_VAR(key_is_zero, (typename T), (T))
C26K_VAR(key_is_one, (typename T), (T))
C26K_VAR(key_is_compatible, (typename T), (T))
C26K_VAR(key_merge_symbols, (typename T), (T))
C26K_VAR(key_stream_insert, (typename T), (T))
C26K_VAR(key_degree, (typename T), (T))
C26K_VAR(key_p_degree, (typename T), (T))
C26K_VAR(key_evaluate, (typename T, typename U), (T, U))
C26K_VAR(key_trim, (typename T), (T))
C26K_VAR(key_trim_identify, (typename T), (T))
C26K_VAR(monomial_mul, (typename T, typename U, typename V), (T, U, V))
C26K_VAR(monomial_pow, (typename T, typename U), (T, U))
C26K_VAR(monomial_subs, (typename T, typename U), (T, U))
C26K_VAR(monomial_diff, (typename T), (T))
C26K_VAR(monomial_integrate, (typename T), (T))
C26K_VAR(hash, (typename T), (T))
C26K_VAR(byte_size, (typename T), (T))

C26K_ADL(key_tex_stream_insert)
namespace c26k
{
template <Ext K>
void key_tex_stream_insert(obake::customisation::key_tex_stream_insert_t, std::ostream &os, const K &k, const obake::symbol_set &ss)
{
    go<key_tex_stream_insert_f, 1>("key_tex_stream_insert", os, k, ss);
}

// Lower still.
template <unsigned L, bool H>
std::ostream &operator<<(std::ostream &os, const UK<L, H> &)
{
    ++wrong;
    return os;
}

// Products in which an exponent goes beyond the limit are refused.
inline constexpr i64 limit = 1000;
template <typename R>
using elem = std::remove_cvref_t<decltype(*obake::begin(std::declval<const std::remove_reference_t<R> &>()))>;
template <unsigned L, typename A, typename B>
bool in_range(const A &a, const B &b)
{
    if (layer_of<elem<A>> != L) {
        ++wrong;
    }
    ++fn("monomial_range_overflow_check").n;
    i64 x = 0, y = 0;
    for (const auto &k : a) {
        k.live();
        for (auto n : k.v) {
            x = std::max(x, n);
        }
    }
    for (const auto &k : b) {
        k.live();
        for (auto n : k.v) {
            y = std::max(y, n);
        }
    }
    return x + y <= limit;
}
template <typename A, typename B>
requires(AnyUK<elem<A>>) bool monomial_range_overflow_check(const A &a, const B &b, const obake::symbol_set &)
{
    return in_range<2>(a, b);
}
struct InRange {
    template <typename A, typename B>
    bool operator()(const A &a, const B &b, const obake::symbol_set &) const
    {
        return in_range<1>(a, b);
    }
};
} // namespace c26k

namespace obake::customisation
{
template <typename A, typename B>
requires c26k::Ext<c26k::elem<A>>
inline constexpr auto monomial_range_overflow_check<A, B> = c26k::InRange{};
template <bool H>
inline constexpr bool monomial_hash_is_homomorphic<c26k::UK<1, H>> = H;
} // namespace obake::customisation
namespace obake
{
template <bool H>
inline constexpr bool monomial_hash_is_homomorphic<c26k::UK<2, H>> = H;
}
template <unsigned L, bool H>
struct std::hash<c26k::UK<L, H>> {
    std::size_t operator()(const c26k::UK<L, H> &) const
    {
        ++c26k::wrong;
        return 0;
    }
};

namespace c26
{

using namespace vf;

template <typename S>
MP kmodel(const S &s)
{
    MP r;
    for (const auto &[k, q] : s) {
        k.live();
        Mono m{};
        for (std::size_t i = 0; i < k.v.size(); ++i) {
            m[pool_idx(*s.get_symbol_set().nth(i))] = k.v[i];
        }
        r.add(m, to_q(q));
    }
    return r;
}

template <typename S>
S kgen(Rng &r, const Syms &sy, unsigned terms, i64 e)
{
    S s;
    s.set_symbol_set(to_ss(sy));
    s.set_n_segments(static_cast<unsigned>(r.below(4)));
    const auto n = r.below(terms + 1u);
    for (u64 i = 0; i < n; ++i) {
        std::vector<i64> v;
        for (std::size_t j = 0; j < sy.size(); ++j) {
            v.push_back(r.chance(1, 3) ? 0 : r.range(0, e));
        }
        obake::series_key_t<S> k(std::move(v));
        const auto q = from_q<rat_t>(Q(static_cast<long>(r.range(-3, 3)), static_cast<long>(r.range(1, 3))));
        if (r.chance(1, 2)) {
            s.add_term(k, q);
        } else {
            s.template add_term<false>(std::move(k), q);
        }
    }
    return s;
}

template <typename K>
void keys(Case &c, bool big)
{
    using S = obake::polynomial<K, rat_t>;
    auto &r = c.rng;
    {
        std::lock_guard<std::mutex> l(c26k::used_m);
        c26k::used.clear();
    }
    c26k::wrong = 0;
    c26k::dead = 0;
    const auto kind = r.below(3);
    for (auto &w : c26k::weights) {
        w = kind == 0u ? static_cast<std::size_t>(r.next()) : kind == 1u ? 1u : r.below(16);
    }
    // (Products are split in parts according to the sizes of the terms: from one part to many more than there are terms.)
    c26k::size_of_key = big ? std::size_t(3000) << r.below(14) : 100;
    const Syms all{"a", "b", "c", "x", "y", "z"};
    const auto some_syms = [&] {
        Syms s;
        for (const auto &x : all) {
            if (r.chance(1, 2)) {
                s.insert(x);
            }
        }
        return s;
    };
    const auto sp = some_syms(), sq = r.chance(1, 3) ? sp : some_syms();
    const auto p = kgen<S>(r, sp, big ? 40 : 8, 4), q = kgen<S>(r, sq, big ? 40 : 8, 4);
    const auto mp = kmodel(p), mq = kmodel(q);
    const auto ctx = [&] { return cat(mstr(mp), " and ", mstr(mq)); };
    const auto some = [&](const char *f, bool needed = true) {
        const auto n = c26k::fn(f).n.exchange(0);
        c.check(!needed || n > 0u, "a function of keys was not called", [&] { return cat(f, " for ", ctx()); });
        if (n) {
            c.event(cat("functions of keys: ", f).c_str(), n);
        }
    };
    const auto same = [&](const auto &s, const MP &e, const char *what) {
        c.check(kmodel(s).t == e.t, what, [&] { return cat(ctx(), " got ", mstr(kmodel(s)), " expected ", mstr(e)); });
        check_invariants(c, s, what);
        c.event("operations with keys of a user");
    };
    same(p, mp, "construction");
    some("hash", !p.empty());
    some("key_is_compatible", !p.empty());
    some("key_is_zero", !p.empty());
    same(p + q, mp + mq, "sum");
    some("key_merge_symbols", sp != sq && !p.empty() && !q.empty() && sp.size() + sq.size() > 0u && !std::includes(sp.begin(), sp.end(), sq.begin(), sq.end()));
    same(p - q, mp - mq, "difference");
    {
        auto s = p, t = q;
        s -= q;
        same(s, mp - mq, "in-place difference");
        same(std::move(s) + std::move(t), mp, "sum of temporaries");
        auto u = p, v = q;
        u += std::move(v);
        same(u, mp + mq, "in-place sum with a temporary");
        c.check(obake::is_zero(u - p - q), "p + q - p - q is not zero", ctx);
        c.check((p == q) == (mp.t == mq.t), "comparison", ctx);
    }
    same(p * q, mp * mq, "product");
    if (!p.empty() && !q.empty()) {
        some("monomial_mul");
        some("monomial_range_overflow_check");
        c.event(big && c26k::hom<K> ? "large products" : "small products");
        const auto parts = (p * q).get_s_size();
        if (parts > 8u) {
            c.event("products in more than 256 parts");
        } else if (parts) {
            c.event("products in parts");
        }
    }
    same(p * p, mp * mp, "square");
    const Syms sel{"a", "x", "z"};
    {
        const long lim = static_cast<long>(r.range(0, 14));
        same(obake::polynomials::truncated_mul(p, q, lim), mtrunc(mp * mq, lim), "truncated product");
        some("key_degree", !p.empty() && !q.empty());
        same(obake::polynomials::truncated_mul(p, q, lim, to_ss(sel)), mtrunc(mp * mq, lim, sel), "truncated product (partial)");
        some("key_p_degree", !p.empty() && !q.empty());
        auto t = p;
        obake::truncate_degree(t, lim);
        same(t, mtrunc(mp, lim), "truncation");
        t = p;
        obake::truncate_p_degree(t, lim, to_ss(sel));
        same(t, mtrunc(mp, lim, sel), "partial truncation");
        some("key_degree", !p.empty());
        some("key_p_degree", !p.empty());
        long d = 0, pd = 0;
        for (const auto &[m, x] : mp.t) {
            d = std::max<long>(d, mdegree(m));
            pd = std::max<long>(pd, mpdegree(m, sel));
        }
        c.check(static_cast<long>(obake::degree(p)) == d, "degree", ctx);
        c.check(static_cast<long>(obake::p_degree(p, to_ss(sel))) == pd, "partial degree", ctx);
        some("key_degree", !p.empty());
        some("key_p_degree", !p.empty());
    }
    if (!big) {
        const auto n = static_cast<int>(r.below(4));
        same(obake::pow(p, n), mpow(mp, static_cast<unsigned>(n)), "power");
        some("monomial_pow", p.size() == 1u && n > 0 && false);
        if (!p.empty()) {
            S one;
            one.set_symbol_set(to_ss(sp));
            one.add_term(p.begin()->first, p.begin()->second);
            same(obake::pow(one, n), mpow(kmodel(one), static_cast<unsigned>(n)), "power of a term");
            some("monomial_pow", n > 1);
        }
    }
    for (const auto *s : {"a", "y"}) {
        const bool has = sp.count(s) && !p.empty();
        same(obake::diff(p, s), mdiff(mp, s), "derivative");
        some("monomial_diff", has);
        same(obake::integrate(p, s), mintegrate(mp, s), "antiderivative");
        some("monomial_integrate", !p.empty());
    }
    {
        obake::symbol_map<rat_t> sm, part;
        std::map<std::string, Q> v;
        std::map<std::string, MP> vp;
        for (const auto &s : all) {
            const Q x(static_cast<long>(r.range(-2, 3)));
            v[s] = x;
            sm.emplace(s, from_q<rat_t>(x));
            if (r.chance(1, 2)) {
                vp[s] = MP(x);
                part.emplace(s, from_q<rat_t>(x));
            }
        }
        const auto e = obake::evaluate(p, sm);
        c.check(to_q(e) == meval(mp, v), "evaluation", ctx);
        some("key_evaluate", !p.empty());
        same(obake::subs(p, part), msubs(mp, vp), "substitution");
        some("monomial_subs", !p.empty());
    }
    {
        const auto t = obake::trim(p);
        same(t, mp, "trim");
        some("key_trim_identify", !p.empty());
        some("key_trim", !p.empty());
        Syms u;
        for (const auto &[m, x] : mp.t) {
            for (const auto &s : sp) {
                if (m[pool_idx(s)]) {
                    u.insert(s);
                }
            }
        }
        c.check(syms_of(t) == u, "symbols after the removal of those not used", ctx);
        same(obake::add_symbols(t, to_ss(all)), mp, "symbols added");
    }
    {
        std::ostringstream a, b;
        a << p;
        some("key_stream_insert", false);
        obake::tex_stream_insert(b, p);
        some("key_tex_stream_insert", false);
        std::size_t n = 0;
        for (const auto &t : p) {
            n += !obake::key_is_one(t.first, p.get_symbol_set());
        }
        const auto count = [](const std::string &s, const char *x) {
            std::size_t k = 0;
            for (auto i = s.find(x); i != std::string::npos; i = s.find(x, i + 1u)) {
                ++k;
            }
            return k;
        };
        if (p.size() <= 10u) {
            for (const auto &t : p) {
                std::ostringstream k;
                obake::key_stream_insert(k, t.first, p.get_symbol_set());
                c.check(a.str().find(k.str()) != std::string::npos, "a key is not printed as the user does", [&] { return cat(k.str(), " in ", a.str()); });
            }
            c.check(count(a.str(), "(") == n, "printed by something else", [&] { return a.str(); });
            c.check(count(b.str(), "\\left(") == n, "printed in TeX by something else", [&] { return b.str(); });
        }
    }
    {
        std::stringstream st;
        {
            boost::archive::binary_oarchive oa(st);
            oa << p;
        }
        S t;
        {
            boost::archive::binary_iarchive ia(st);
            ia >> t;
        }
        same(t, mp, "saved and loaded");
        c.check(t == p, "saved and loaded: not equal", ctx);
    }
    {
        const auto b = obake::byte_size(p);
        c.check(b >= p.size() * c26k::size_of_key && b < p.size() * (c26k::size_of_key + 200u) + 100000u, "size", ctx);
        some("byte_size", !p.empty());
    }
    // Beyond the limit of the user: refused, and nothing happens to the operands.
    if (!p.empty() && !sp.empty()) {
        S h;
        h.set_symbol_set(to_ss(sp));
        h.add_term(K(std::vector<i64>(sp.size(), c26k::limit)), rat_t(1));
        for (int i = 0; i < 20; ++i) {
            h.add_term(K(std::vector<i64>(sp.size(), i)), rat_t(1));
        }
        i64 mx = 0;
        for (const auto &[m, x] : mp.t) {
            mx = std::max(mx, *std::max_element(m.begin(), m.end()));
        }
        bool thrown = false;
        try {
            const auto t = p * h;
        } catch (const std::overflow_error &) {
            thrown = true;
            c.event("products refused by the user");
        }
        c.check(thrown == (mx > 0), "the user's limit of the exponents was not heeded", ctx);
    }
    same(p, mp, "operand altered");
    same(q, mq, "second operand altered");
    c.check(c26k::wrong.load() == 0u, "a function of a lower layer was called, or one was called wrongly", [&] { return cat(c26k::wrong.load(), " times, for ", ctx()); });
    c.check(c26k::dead.load() == 0u, "keys used after they were moved", [&] { return cat(c26k::dead.load(), " times, for ", ctx()); });
    if (!p.empty() && !q.empty()) {
        c.seen(ctx());
    }
    c.sample(ctx());
}

} // namespace c26

#endif
