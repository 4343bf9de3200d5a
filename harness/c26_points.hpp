// Implementations supplied by users, and a record of the calls they get.
#ifndef C26_POINTS_HPP
#define C26_POINTS_HPP

#include "vf.hpp"

#include <cstddef>
#include <functional>
#include <ostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <obake/byte_size.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/detail/ss_func_forward.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

// All that a user writes.
namespace c26u
{

// Where an implementation is supplied, and of what kind it is.
inline constexpr unsigned Ext = 1, Adl = 2, Int = 4;
inline constexpr unsigned NoThrow = 1, ByRef = 2;

struct Arg {
    const void *p;
    int cat;
    bool operator==(const Arg &) const = default;
};
struct Call {
    int point;
    unsigned layer;
    std::vector<Arg> args;
};
inline thread_local std::vector<Call> calls;
inline thread_local bool fail = false;
inline thread_local long next_id = 0;
struct Boom {
    long id;
};

template <typename T>
inline constexpr int cat_of = (std::is_rvalue_reference_v<T &&> ? 2 : 0) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0);

// What the implementations return.
struct Res {
    long id = 0;
    int copies = 0, moves = 0;
    Res() = default;
    explicit Res(long n) : id(n) {}
    Res(const Res &o) : id(o.id), copies(o.copies + 1), moves(o.moves) {}
    Res(Res &&o) noexcept : id(o.id), copies(o.copies), moves(o.moves + 1) {}
    Res &operator=(const Res &) = default;
    Res &operator=(Res &&) = default;
};
struct Truth {
    bool v;
    explicit operator bool() const noexcept
    {
        return v;
    }
};
inline thread_local Res last_res;

// The type of a user.
template <unsigned M, unsigned F>
struct Obj {
    long id = 0;
    int moved = 0;
    Obj() = default;
    explicit Obj(int n) : id(n) {}
    Obj(const Obj &) = default;
    Obj(Obj &&o) noexcept : id(o.id), moved(1) {}
    Obj &operator=(const Obj &) = default;
    Obj &operator=(Obj &&o) noexcept
    {
        id = o.id;
        moved = 1;
        return *this;
    }
    ~Obj() = default;
};
// The tag of a series of a user.
template <unsigned M, unsigned F>
struct Tag {
};

template <typename T>
struct conf {
    static constexpr bool user = false;
    static constexpr unsigned m = 0, f = 0;
};
template <unsigned M, unsigned F>
struct conf<Obj<M, F>> {
    static constexpr bool user = true;
    static constexpr unsigned m = M, f = F;
};
template <typename K, typename C, unsigned M, unsigned F>
struct conf<obake::series<K, C, Tag<M, F>>> {
    static constexpr bool user = true;
    static constexpr unsigned m = M, f = F;
};
template <typename T>
using conf_of = conf<std::remove_cvref_t<T>>;

template <unsigned L, typename... A>
inline constexpr bool supplied = ((conf_of<A>::m & L) || ...);
template <typename... A>
inline constexpr bool nothrow = ((conf_of<A>::f & NoThrow) || ...);
template <typename... A>
inline constexpr bool by_ref = ((conf_of<A>::f & ByRef) || ...);

// Kinds of results.
inline constexpr int KRes = 0, KBool = 1, KSize = 2, KVoid = 3, KSame = 4, KPair = 5, KSelf = 6;

template <typename... A>
struct first_user {
};
template <typename A, typename... B>
struct first_user<A, B...> {
    using type = typename std::conditional_t<conf_of<A>::user, std::type_identity<std::remove_cvref_t<A>>, first_user<B...>>::type;
};

template <int P, int K, unsigned L, typename... A>
decltype(auto) run(A &&...a)
{
    if (!nothrow<A...> && fail) {
        calls.push_back(Call{P, L, {Arg{static_cast<const void *>(&a), cat_of<A>}...}});
        throw Boom{++next_id};
    }
    calls.push_back(Call{P, L, {Arg{static_cast<const void *>(&a), cat_of<A>}...}});
    ++next_id;
    if constexpr (K == KRes || K == KVoid) {
        if constexpr (by_ref<A...>) {
            last_res = Res(next_id);
            return static_cast<Res &>(last_res);
        } else {
            return Res(next_id);
        }
    } else if constexpr (K == KBool) {
        return Truth{next_id % 2 == 0};
    } else if constexpr (K == KSize) {
        return static_cast<std::size_t>(next_id);
    } else if constexpr (K == KSame) {
        using T = typename first_user<A...>::type;
        if constexpr (requires(T r) { r.id; }) {
            return T(static_cast<int>(next_id));
        } else {
            return T();
        }
    } else if constexpr (K == KSelf) {
        return [](auto &x, auto &&...) -> decltype(auto) { return const_cast<std::remove_const_t<std::remove_reference_t<decltype(x)>> &>(x); }(a...);
    } else {
        typename first_user<A...>::type r;
        if constexpr (requires { r.id; }) {
            r.id = next_id;
        }
        return std::pair<long, typename first_user<A...>::type>(next_id, r);
    }
}

template <int P, int K, unsigned L>
struct Fun {
    template <typename... A>
    requires supplied<L, A...>
    decltype(auto) operator()(A &&...a) const noexcept(nothrow<A...>)
    {
        return run<P, K, L>(std::forward<A>(a)...);
    }
};

template <typename T>
struct is_tag : std::false_type {
};
template <typename T, typename... A>
inline constexpr bool no_tag = !is_tag<std::remove_cvref_t<T>>::value;

} // namespace c26u

// Points which are variable templates, and those which are functions with a tag.
#define C26_ADL(P, K, name)                                                                                            \
    namespace c26u                                                                                                     \
    {                                                                                                                  \
    template <typename... A>                                                                                           \
    requires(supplied<Adl, A...> && no_tag<A...>) decltype(auto) name(A &&...a) noexcept(nothrow<A...>)                 \
    {                                                                                                                  \
        return run<P, K, Adl>(std::forward<A>(a)...);                                                                  \
    }                                                                                                                  \
    }
#define C26_VAR1(where, P, K, L, name)                                                                                 \
    namespace where                                                                                                    \
    {                                                                                                                  \
    template <typename T>                                                                                              \
    requires c26u::supplied<L, T>                                                                                      \
    inline constexpr auto name<T> = c26u::Fun<P, K, L>{};                                                              \
    }
#define C26_VAR2(where, P, K, L, name)                                                                                 \
    namespace where                                                                                                    \
    {                                                                                                                  \
    template <typename T, typename U>                                                                                  \
    requires c26u::supplied<L, T, U>                                                                                   \
    inline constexpr auto name<T, U> = c26u::Fun<P, K, L>{};                                                           \
    }
#define C26_VAR3(where, P, K, L, name)                                                                                 \
    namespace where                                                                                                    \
    {                                                                                                                  \
    template <typename T, typename U, typename V>                                                                      \
    requires c26u::supplied<L, T, U, V>                                                                                \
    inline constexpr auto name<T, U, V> = c26u::Fun<P, K, L>{};                                                        \
    }
#define C26_TAG(where, P, K, L, name)                                                                                  \
    namespace c26u                                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct is_tag<where::name##_t> : std::true_type {                                                                  \
    };                                                                                                                 \
    template <typename... A>                                                                                           \
    requires supplied<L, A...>                                                                                         \
    decltype(auto) name(where::name##_t, A &&...a) noexcept(nothrow<A...>)                                             \
    {                                                                                                                  \
        return run<P, K, L>(std::forward<A>(a)...);                                                                    \
    }                                                                                                                  \
    }
#define C26_CUST obake::customisation
#define C26_INTL obake::customisation::internal

C26_TAG(C26_CUST, 9, c26u::KVoid, c26u::Ext, key_tex_stream_insert)
C26_TAG(C26_CUST, 12, c26u::KBool, c26u::Ext, is_zero)
C26_TAG(C26_INTL, 12, c26u::KBool, c26u::Int, is_zero)
C26_TAG(C26_CUST, 13, c26u::KBool, c26u::Ext, safe_convert)
C26_TAG(C26_CUST, 14, c26u::KRes, c26u::Ext, subs)
C26_TAG(C26_CUST, 20, c26u::KRes, c26u::Ext, pow)
C26_TAG(C26_INTL, 20, c26u::KRes, c26u::Int, pow)
C26_TAG(C26_CUST, 24, c26u::KVoid, c26u::Ext, negate)
C26_TAG(C26_INTL, 24, c26u::KVoid, c26u::Int, negate)
C26_TAG(C26_CUST, 26, c26u::KVoid, c26u::Ext, tex_stream_insert)
C26_TAG(C26_INTL, 26, c26u::KVoid, c26u::Int, tex_stream_insert)
C26_TAG(C26_CUST, 29, c26u::KVoid, c26u::Ext, cf_tex_stream_insert)
C26_TAG(C26_INTL, 29, c26u::KVoid, c26u::Int, cf_tex_stream_insert)
C26_ADL(1, c26u::KBool, key_is_compatible)
C26_VAR1(C26_CUST, 1, c26u::KBool, c26u::Ext, key_is_compatible)
C26_ADL(2, c26u::KRes, key_degree)
C26_VAR1(C26_CUST, 2, c26u::KRes, c26u::Ext, key_degree)
C26_ADL(3, c26u::KRes, key_p_degree)
C26_VAR1(C26_CUST, 3, c26u::KRes, c26u::Ext, key_p_degree)
C26_ADL(4, c26u::KRes, key_evaluate)
C26_VAR2(C26_CUST, 4, c26u::KRes, c26u::Ext, key_evaluate)
C26_ADL(5, c26u::KBool, key_is_zero)
C26_VAR1(C26_CUST, 5, c26u::KBool, c26u::Ext, key_is_zero)
C26_ADL(6, c26u::KBool, key_is_one)
C26_VAR1(C26_CUST, 6, c26u::KBool, c26u::Ext, key_is_one)
C26_ADL(7, c26u::KVoid, key_stream_insert)
C26_VAR1(C26_CUST, 7, c26u::KVoid, c26u::Ext, key_stream_insert)
C26_ADL(8, c26u::KSame, key_trim)
C26_VAR1(C26_CUST, 8, c26u::KSame, c26u::Ext, key_trim)
C26_ADL(9, c26u::KVoid, key_tex_stream_insert)
C26_ADL(10, c26u::KSame, key_merge_symbols)
C26_VAR1(C26_CUST, 10, c26u::KSame, c26u::Ext, key_merge_symbols)
C26_ADL(11, c26u::KVoid, key_trim_identify)
C26_VAR1(C26_CUST, 11, c26u::KVoid, c26u::Ext, key_trim_identify)
C26_ADL(12, c26u::KBool, is_zero)
C26_ADL(13, c26u::KBool, safe_convert)
C26_ADL(14, c26u::KRes, subs)
C26_ADL(15, c26u::KRes, degree)
C26_VAR1(C26_CUST, 15, c26u::KRes, c26u::Ext, degree)
C26_VAR1(C26_INTL, 15, c26u::KRes, c26u::Int, degree)
C26_ADL(16, c26u::KRes, p_degree)
C26_VAR1(C26_CUST, 16, c26u::KRes, c26u::Ext, p_degree)
C26_VAR1(C26_INTL, 16, c26u::KRes, c26u::Int, p_degree)
C26_ADL(17, c26u::KVoid, fma3)
C26_VAR3(C26_CUST, 17, c26u::KVoid, c26u::Ext, fma3)
C26_ADL(18, c26u::KSame, trim)
C26_VAR1(C26_CUST, 18, c26u::KSame, c26u::Ext, trim)
C26_VAR1(C26_INTL, 18, c26u::KSame, c26u::Int, trim)
C26_ADL(19, c26u::KRes, diff)
C26_VAR1(C26_CUST, 19, c26u::KRes, c26u::Ext, diff)
C26_ADL(20, c26u::KRes, pow)
C26_ADL(21, c26u::KRes, integrate)
C26_VAR1(C26_CUST, 21, c26u::KRes, c26u::Ext, integrate)
C26_ADL(22, c26u::KRes, evaluate)
C26_VAR2(C26_CUST, 22, c26u::KRes, c26u::Ext, evaluate)
C26_VAR2(C26_INTL, 22, c26u::KRes, c26u::Int, evaluate)
C26_ADL(23, c26u::KVoid, truncate_degree)
C26_VAR2(C26_CUST, 23, c26u::KVoid, c26u::Ext, truncate_degree)
C26_ADL(24, c26u::KVoid, negate)
C26_ADL(25, c26u::KVoid, truncate_p_degree)
C26_VAR2(C26_CUST, 25, c26u::KVoid, c26u::Ext, truncate_p_degree)
C26_ADL(26, c26u::KVoid, tex_stream_insert)
C26_ADL(27, c26u::KSize, hash)
C26_VAR1(C26_CUST, 27, c26u::KSize, c26u::Ext, hash)
C26_ADL(28, c26u::KVoid, cf_stream_insert)
C26_VAR1(C26_CUST, 28, c26u::KVoid, c26u::Ext, cf_stream_insert)
C26_VAR1(C26_INTL, 28, c26u::KVoid, c26u::Int, cf_stream_insert)
C26_ADL(29, c26u::KVoid, cf_tex_stream_insert)
C26_ADL(30, c26u::KSize, byte_size)
C26_VAR1(C26_CUST, 30, c26u::KSize, c26u::Ext, byte_size)
C26_VAR1(C26_INTL, 30, c26u::KSize, c26u::Int, byte_size)
C26_ADL(31, c26u::KPair, monomial_integrate)
C26_VAR1(C26_CUST, 31, c26u::KPair, c26u::Ext, monomial_integrate)
C26_ADL(32, c26u::KBool, monomial_range_overflow_check)
C26_VAR2(C26_CUST, 32, c26u::KBool, c26u::Ext, monomial_range_overflow_check)
C26_ADL(33, c26u::KPair, monomial_subs)
C26_VAR2(C26_CUST, 33, c26u::KPair, c26u::Ext, monomial_subs)
C26_ADL(34, c26u::KSame, monomial_pow)
C26_VAR2(C26_CUST, 34, c26u::KSame, c26u::Ext, monomial_pow)
C26_ADL(35, c26u::KVoid, monomial_mul)
C26_VAR3(C26_CUST, 35, c26u::KVoid, c26u::Ext, monomial_mul)
C26_ADL(36, c26u::KPair, monomial_diff)
C26_VAR1(C26_CUST, 36, c26u::KPair, c26u::Ext, monomial_diff)
C26_ADL(37, c26u::KVoid, series_stream_insert)
C26_VAR1(C26_CUST, 37, c26u::KVoid, c26u::Ext, series_stream_insert)
C26_ADL(38, c26u::KRes, series_add)
C26_VAR2(C26_CUST, 38, c26u::KRes, c26u::Ext, series_add)
C26_ADL(39, c26u::KRes, series_sub)
C26_VAR2(C26_CUST, 39, c26u::KRes, c26u::Ext, series_sub)
C26_ADL(40, c26u::KRes, series_mul)
C26_VAR2(C26_CUST, 40, c26u::KRes, c26u::Ext, series_mul)
C26_ADL(41, c26u::KRes, series_div)
C26_VAR2(C26_CUST, 41, c26u::KRes, c26u::Ext, series_div)
C26_ADL(42, c26u::KBool, series_equal_to)
C26_VAR2(C26_CUST, 42, c26u::KBool, c26u::Ext, series_equal_to)
C26_ADL(43, c26u::KSelf, series_in_place_add)
C26_VAR2(C26_CUST, 43, c26u::KSelf, c26u::Ext, series_in_place_add)
C26_ADL(44, c26u::KSelf, series_in_place_sub)
C26_VAR2(C26_CUST, 44, c26u::KSelf, c26u::Ext, series_in_place_sub)

namespace c26u
{
inline constexpr int P_key_is_compatible = 1;
inline constexpr int P_key_degree = 2;
inline constexpr int P_key_p_degree = 3;
inline constexpr int P_key_evaluate = 4;
inline constexpr int P_key_is_zero = 5;
inline constexpr int P_key_is_one = 6;
inline constexpr int P_key_stream_insert = 7;
inline constexpr int P_key_trim = 8;
inline constexpr int P_key_tex_stream_insert = 9;
inline constexpr int P_key_merge_symbols = 10;
inline constexpr int P_key_trim_identify = 11;
inline constexpr int P_is_zero = 12;
inline constexpr int P_safe_convert = 13;
inline constexpr int P_subs = 14;
inline constexpr int P_degree = 15;
inline constexpr int P_p_degree = 16;
inline constexpr int P_fma3 = 17;
inline constexpr int P_trim = 18;
inline constexpr int P_diff = 19;
inline constexpr int P_pow = 20;
inline constexpr int P_integrate = 21;
inline constexpr int P_evaluate = 22;
inline constexpr int P_truncate_degree = 23;
inline constexpr int P_negate = 24;
inline constexpr int P_truncate_p_degree = 25;
inline constexpr int P_tex_stream_insert = 26;
inline constexpr int P_hash = 27;
inline constexpr int P_cf_stream_insert = 28;
inline constexpr int P_cf_tex_stream_insert = 29;
inline constexpr int P_byte_size = 30;
inline constexpr int P_monomial_integrate = 31;
inline constexpr int P_monomial_range_overflow_check = 32;
inline constexpr int P_monomial_subs = 33;
inline constexpr int P_monomial_pow = 34;
inline constexpr int P_monomial_mul = 35;
inline constexpr int P_monomial_diff = 36;
inline constexpr int P_series_stream_insert = 37;
inline constexpr int P_series_add = 38;
inline constexpr int P_series_sub = 39;
inline constexpr int P_series_mul = 40;
inline constexpr int P_series_div = 41;
inline constexpr int P_series_equal_to = 42;
inline constexpr int P_series_in_place_add = 43;
inline constexpr int P_series_in_place_sub = 44;
} // namespace c26u

// What is there without any of the above: the defaults are built on these.
namespace c26u
{

template <unsigned M, unsigned F>
bool operator==(const Obj<M, F> &a, const Obj<M, F> &b)
{
    run<0, KVoid, 0>(a);
    return a.id == b.id;
}
template <unsigned M, unsigned F>
Obj<M, F> operator-(const Obj<M, F> &a)
{
    run<0, KVoid, 0>(a);
    Obj<M, F> r;
    r.id = -a.id;
    return r;
}
template <unsigned M, unsigned F>
std::ostream &operator<<(std::ostream &os, const Obj<M, F> &a)
{
    run<0, KVoid, 0>(os, a);
    return os;
}

} // namespace c26u

template <unsigned M, unsigned F>
struct std::hash<c26u::Obj<M, F>> {
    std::size_t operator()(const c26u::Obj<M, F> &a) const
    {
        c26u::run<0, c26u::KVoid, 0>(a);
        return static_cast<std::size_t>(a.id);
    }
};

namespace c26
{

using namespace vf;
using namespace c26u;

// The value categories an argument may have.
template <int Cat, typename T>
decltype(auto) as(T &x) noexcept
{
    if constexpr (Cat == 0) {
        return static_cast<T &>(x);
    } else if constexpr (Cat == 1) {
        return static_cast<const T &>(x);
    } else if constexpr (Cat == 2) {
        return static_cast<T &&>(x);
    } else {
        return static_cast<const T &&>(x);
    }
}

template <typename T>
inline constexpr bool is_ser = false;
template <typename K, typename C, typename T>
inline constexpr bool is_ser<obake::series<K, C, T>> = true;

inline std::string show(const std::vector<Call> &v)
{
    std::string r;
    for (const auto &x : v) {
        r += cat(" [point ", x.point, " layer ", x.layer);
        for (const auto &a : x.args) {
            r += cat(" ", reinterpret_cast<std::uintptr_t>(a.p) % 100000u, ":", a.cat);
        }
        r += "]";
    }
    return r;
}

template <int K, bool Ref, typename X>
struct result {
    using type = std::conditional_t<Ref, Res &, Res>;
};
template <bool R, typename X>
struct result<KBool, R, X> {
    using type = bool;
};
template <bool R, typename X>
struct result<KSize, R, X> {
    using type = std::size_t;
};
template <bool R, typename X>
struct result<KVoid, R, X> {
    using type = void;
};
template <bool R, typename X>
struct result<KSame, R, X> {
    using type = X;
};
template <bool R, typename X>
struct result<KPair, R, X> {
    using type = std::pair<long, X>;
};
template <bool R, typename X>
struct result<KSelf, R, X> {
    using type = X &;
};

// What a default does.
inline constexpr int DNone = 0, DEq = 1, DNeg = 2, DCopy = 3, DStream = 4, DHash = 5, DSize = 6, DAssign = 7, DLibrary = 8;

// One call of f, which passes its argument (and those of before and after) to a point.
template <int P, int K, int C, typename X, typename F>
void call(Case &c, const char *name, const F &f, X &x, const std::vector<Arg> &before, const std::vector<Arg> &after, bool intl, int dflt, bool self)
{
    using cf = conf_of<X>;
    using arg_t = decltype(as<C>(x));
    constexpr unsigned m = cf::m;
    const unsigned layer = (m & Ext) ? Ext : (m & Adl) ? Adl : (intl && (m & Int)) ? Int : 0u;
    const auto ctx = [&] { return cat(name, ": layers ", m, " kind ", cf::f, " category ", C, ", calls:", show(calls)); };
    if (layer == 0u) {
        // The defaults.
        if (dflt == DLibrary) {
            return;
        }
        const bool callable = std::is_invocable_v<const F &, arg_t>;
        const bool expected = dflt != DNone && !((dflt == DNeg || dflt == DAssign) && C % 2 != 0);
        c.check(callable == expected, "availability of the default", ctx);
        if constexpr (std::is_invocable_v<const F &, arg_t>) {
            if (dflt == DNone || is_ser<X>) {
                return;
            }
            calls.clear();
            if constexpr (!is_ser<X>) {
                const auto id = x.id;
                using R = decltype(f(as<C>(x)));
                const auto one = [&](bool os) {
                    c.check(calls.size() == 1u && calls[0].layer == 0u && calls[0].point == 0 && !calls[0].args.empty()
                                && calls[0].args.back().p == &x && (!os || calls[0].args[0].p == before[0].p),
                            "calls of the default", ctx);
                };
                if (dflt == DEq) {
                    if constexpr (std::is_same_v<R, bool>) {
                        const bool r = f(as<C>(x));
                        one(false);
                        c.check(r == (id == 0), "result of the default", ctx);
                    }
                } else if (dflt == DNeg) {
                    f(as<C>(x));
                    one(false);
                    c.check(x.id == -id, "result of the default", ctx);
                } else if (dflt == DCopy) {
                    if constexpr (std::is_same_v<R, X>) {
                        const auto r = f(as<C>(x));
                        c.check(calls.empty() && r.id == id && r.moved == (C == 2), "result of the default", ctx);
                    } else {
                        c.check(false, "type of the default", ctx);
                    }
                } else if (dflt == DStream) {
                    f(as<C>(x));
                    one(true);
                } else if (dflt == DHash) {
                    if constexpr (std::is_same_v<R, std::size_t>) {
                        const auto r = f(as<C>(x));
                        one(false);
                        c.check(r == static_cast<std::size_t>(id), "result of the default", ctx);
                    }
                } else if (dflt == DSize) {
                    if constexpr (std::is_same_v<R, std::size_t>) {
                        const auto r = f(as<C>(x));
                        c.check(calls.empty() && r == sizeof(X), "result of the default", ctx);
                    }
                }
                c.event("calls of defaults");
            }
        }
        return;
    }
    if constexpr ((m & (Ext | Adl | Int)) != 0u && std::is_invocable_v<const F &, arg_t>) {
        constexpr bool nx = (cf::f & NoThrow) != 0u;
        constexpr bool ref = (cf::f & ByRef) != 0u;
        using R = decltype(f(as<C>(x)));
        using E = typename result<K, ref, X>::type;
        auto expected = before;
        expected.push_back(Arg{&x, C});
        expected.insert(expected.end(), after.begin(), after.end());
        const auto right = [&] {
            c.check(calls.size() == 1u, "number of calls", ctx);
            if (!calls.empty()) {
                c.check(calls[0].point == P, "another point", ctx);
                c.check(calls[0].layer == layer, "another implementation", ctx);
                c.check(calls[0].args == expected, "arguments not forwarded", [&] { return cat(ctx(), " expected", show({Call{P, layer, expected}})); });
            }
        };
        // No promise which the implementation does not make.
        c.check(nx || !noexcept(f(as<C>(x))), "noexcept", ctx);
        calls.clear();
        fail = !nx && c.rng.chance(1, 4);
        const bool failing = fail;
        const auto id0 = next_id;
        bool thrown = false;
        try {
            if (self) {
                // negate(): the argument itself.
                if constexpr (std::is_same_v<R, arg_t>) {
                    R r = f(as<C>(x));
                    c.check(std::addressof(r) == std::addressof(x), "not the argument", ctx);
                } else {
                    c.check(false, "type of the result", ctx);
                }
            } else if constexpr (!std::is_same_v<R, E>) {
                c.check(false, "type of the result", ctx);
                f(as<C>(x));
            } else if constexpr (K == KVoid) {
                f(as<C>(x));
            } else if constexpr (K == KSelf) {
                R r = f(as<C>(x));
                c.check(std::addressof(r) == std::addressof(x), "not the argument", ctx);
            } else {
                decltype(auto) r = f(as<C>(x));
                if constexpr (K == KRes && ref) {
                    c.check(&r == &last_res && r.id == id0 + 1, "another result", ctx);
                } else if constexpr (K == KRes) {
                    c.check(r.id == id0 + 1 && r.copies == 0 && r.moves == 0, "the result was copied, moved or replaced", ctx);
                } else if constexpr (K == KBool) {
                    c.check(r == ((id0 + 1) % 2 == 0), "another result", ctx);
                } else if constexpr (K == KSize) {
                    c.check(r == static_cast<std::size_t>(id0 + 1), "another result", ctx);
                } else if constexpr (K == KSame && !is_ser<X>) {
                    c.check(r.id == id0 + 1 && r.moved == 0, "another result", ctx);
                } else if constexpr (K == KPair) {
                    c.check(r.first == id0 + 1, "another result", ctx);
                }
            }
        } catch (const Boom &b) {
            thrown = true;
            c.check(b.id == id0 + 1, "another exception", ctx);
        } catch (...) {
            thrown = true;
            c.check(false, "another type of exception", ctx);
        }
        c.check(thrown == failing, "exceptions", ctx);
        fail = false;
        right();
        c.event(layer == Ext ? "calls of explicit overrides" : layer == Adl ? "calls of functions found by their arguments" : "calls of internal overrides");
        if (failing) {
            c.event("exceptions of the implementations");
        }
        c.seen(cat(name, m, cf::f, C, failing));
    } else {
        c.check(false, "not callable", ctx);
    }
}

template <int P, int K, typename X, typename F>
void cats(Case &c, const char *name, const F &f, const std::vector<Arg> &before, const std::vector<Arg> &after, bool intl, int dflt, bool self)
{
    X x;
    if constexpr (!is_ser<X>) {
        x.id = static_cast<long>(c.rng.range(-3, 3));
    }
    if constexpr (K == KSelf) {
        call<P, K, 0>(c, name, f, x, before, after, intl, dflt, self);
        call<P, K, 2>(c, name, f, x, before, after, intl, dflt, self);
    } else {
        call<P, K, 0>(c, name, f, x, before, after, intl, dflt, self);
        call<P, K, 1>(c, name, f, x, before, after, intl, dflt, self);
        call<P, K, 3>(c, name, f, x, before, after, intl, dflt, self);
        call<P, K, 2>(c, name, f, x, before, after, intl, dflt, self);
    }
}

using Key = obake::polynomials::packed_monomial<int>;
template <unsigned M, unsigned F>
using Ser = obake::series<Key, double, Tag<M, F>>;

template <int P, int K, template <unsigned, unsigned> class T, typename F>
void point(Case &c, const char *name, const F &f, std::vector<Arg> before, std::vector<Arg> after, bool intl = false, int dflt = DNone, bool self = false)
{
    const auto go = [&]<unsigned M, unsigned Fl>() { cats<P, K, T<M, Fl>>(c, name, f, before, after, intl, dflt, self); };
    if constexpr (!is_ser<T<0, 0>>) {
        go.template operator()<0, 0>();
        go.template operator()<4, 0>();
        go.template operator()<5, 0>();
        go.template operator()<6, 0>();
        go.template operator()<7, 0>();
        if (intl) {
            go.template operator()<4, NoThrow>();
            go.template operator()<4, ByRef>();
        }
    }
    go.template operator()<1, 0>();
    go.template operator()<2, 0>();
    go.template operator()<3, 0>();
    go.template operator()<1, NoThrow>();
    go.template operator()<2, NoThrow>();
    if constexpr (K == KRes) {
        go.template operator()<1, ByRef>();
        go.template operator()<2, ByRef>();
    }
}

template <typename T>
Arg at(const T &x, int cat)
{
    return Arg{static_cast<const void *>(&x), cat};
}

// f(x), for an expression of x.
#define C26_F(...) [&](auto &&x) OBAKE_SS_FORWARD_LAMBDA(__VA_ARGS__)
#define C26_X std::forward<decltype(x)>(x)

} // namespace c26

#endif
