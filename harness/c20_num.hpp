// Conversions, checked arithmetic and printing of numbers, compared with multiprecision integers.
#ifndef C20_NUM_HPP
#define C20_NUM_HPP

#include "polyk.hpp"

#include <cmath>
#include <limits>
#include <stdexcept>
#include <tuple>

#include <obake/detail/limits.hpp>
#include <obake/detail/safe_integral_arith.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/type_traits.hpp>

namespace c20
{

using namespace vf;

using types = std::tuple<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long,
                         unsigned long long, i128, u128>;
inline const char *const names[] = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned",
                                    "long", "unsigned long", "long long", "unsigned long long", "int128", "uint128"};
inline constexpr std::size_t NT = std::tuple_size_v<types>;

// What the type is, by its size and by what -1 becomes, not by any trait.
template <typename T>
inline constexpr bool sgn = static_cast<T>(-1) < static_cast<T>(0);
template <typename T>
inline constexpr unsigned nbits = std::is_same_v<T, bool> ? 1 : sizeof(T) * 8;

inline mpz_class z_of(u128 n)
{
    mpz_class r(static_cast<unsigned long>(n >> 64));
    r <<= 64;
    r += mpz_class(static_cast<unsigned long>(n));
    return r;
}
template <typename T>
inline mpz_class to_z(T n)
{
    if constexpr (sgn<T>) {
        const auto w = static_cast<i128>(n);
        if (w < 0) {
            mpz_class r = -z_of(static_cast<u128>(0) - static_cast<u128>(w));
            return r;
        }
    }
    return z_of(static_cast<u128>(n));
}
template <typename T>
inline mpz_class z_min()
{
    mpz_class r(0);
    if (sgn<T>) {
        r = 1;
        r <<= nbits<T> - 1;
        r = -r;
    }
    return r;
}
template <typename T>
inline mpz_class z_max()
{
    mpz_class r(1);
    r <<= nbits<T> - (sgn<T> ? 1 : 0);
    r -= 1;
    return r;
}
template <typename T>
inline bool in_range(const mpz_class &z)
{
    return z >= z_min<T>() && z <= z_max<T>();
}
template <typename T>
inline T from_z(const mpz_class &z)
{
    // NOTE: only for numbers within the type.
    mpz_class a = abs(z);
    const mpz_class hi = a >> 64;
    const mpz_class lo = a & mpz_class("18446744073709551615");
    const auto u = (static_cast<u128>(hi.get_ui()) << 64) + static_cast<u128>(lo.get_ui());
    return z < 0 ? static_cast<T>(static_cast<u128>(0) - u) : static_cast<T>(u);
}

// A number of type T next to a limit of some type, or to a power of two, or anything.
template <typename T>
inline T gen_num(Rng &r)
{
    while (true) {
        mpz_class z(0);
        switch (r.below(5)) {
            case 0:
                z = static_cast<long>(r.range(-20, 20));
                break;
            case 1: {
                z = 1;
                z <<= r.below(129);
                if (r.chance(1, 2)) {
                    z = -z;
                }
                z += static_cast<long>(r.range(-2, 2));
                break;
            }
            case 2:
                z = z_max<T>() - static_cast<long>(r.below(4));
                break;
            case 3:
                z = z_min<T>() + static_cast<long>(r.below(4));
                break;
            default: {
                u128 w = (static_cast<u128>(r.next()) << 64) | r.next();
                w >>= r.below(128);
                z = z_of(w);
                if (r.chance(1, 2)) {
                    z = -z;
                }
            }
        }
        if (in_range<T>(z)) {
            return from_z<T>(z);
        }
    }
}

template <typename To, typename From>
inline void conversion(Case &c, From n, const mpz_class &z, std::size_t ti, std::size_t fi)
{
    const bool fits = in_range<To>(z);
    const auto ctx = [&] { return cat(z.get_str(), " from ", names[fi], " to ", names[ti]); };
    To out = static_cast<To>(0);
    const bool ok = obake::safe_convert(out, n);
    c.check(ok == fits, fits ? "a safe conversion is refused" : "an unsafe conversion is accepted", ctx);
    if (ok && fits) {
        c.check(to_z(out) == z, "conversion alters the number", ctx);
        c.event("conversions");
    } else {
        c.event("conversions refused");
    }
    // The exception is slow: now and then.
    if (fits || c.rng.chance(1, 16)) {
        bool thrown = false;
        To v = static_cast<To>(0);
        try {
            v = obake::safe_cast<To>(n);
        } catch (const obake::safe_cast_failure &) {
            thrown = true;
        }
        c.check(thrown == !fits, "safe_cast() fails iff the number does not fit", ctx);
        c.check(thrown || to_z(v) == z, "safe_cast() alters the number", ctx);
    }
}

template <typename From, std::size_t... I>
inline void conversions(Case &c, From n, std::size_t fi, std::index_sequence<I...>)
{
    const auto z = to_z(n);
    (conversion<std::tuple_element_t<I, types>>(c, n, z, I, fi), ...);
    // The multiprecision types.
    {
        int_t m;
        rat_t q;
        c.check(obake::safe_convert(m, n) && to_q(m) == Q(z), "conversion to integer", [&] { return z.get_str(); });
        c.check(obake::safe_convert(q, n) && to_q(q) == Q(z), "conversion to rational", [&] { return z.get_str(); });
        c.check(obake::safe_cast<int_t>(n) == m && obake::safe_cast<rat_t>(n) == q, "cast to integer and rational", [&] { return z.get_str(); });
    }
    c.check(obake::detail::to_string(n) == (std::is_same_v<From, bool> ? obake::detail::to_string(n) : z.get_str()), "to_string()",
            [&] { return cat(names[fi], " ", z.get_str(), " printed as ", obake::detail::to_string(n)); });
    c.check(obake::is_zero(n) == (z == 0), "is_zero()", [&] { return z.get_str(); });
}

// From the multiprecision types.
template <std::size_t... I>
inline void from_mp(Case &c, const mpz_class &z, long den, std::index_sequence<I...>)
{
    const int_t m(z.get_str());
    const rat_t q(int_t(z.get_str()), int_t(den));
    const auto one = [&](auto t, std::size_t i) {
        using T = decltype(t);
        const auto ctx = [&] { return cat(z.get_str(), "/", den, " to ", names[i]); };
        T out = static_cast<T>(0);
        if constexpr (!std::is_same_v<T, bool>) {
            const bool ok = obake::safe_convert(out, m);
            c.check(ok == in_range<T>(z), "conversion from integer", ctx);
            c.check(!ok || to_z(out) == z, "conversion from integer alters it", ctx);
            const bool integral = z % den == 0;
            const mpz_class n = z / den;
            const bool ok2 = obake::safe_convert(out, q);
            c.check(ok2 == (integral && in_range<T>(n)), "conversion from rational", ctx);
            c.check(!ok2 || to_z(out) == n, "conversion from rational alters it", ctx);
            c.event(ok2 ? "conversions" : "conversions refused");
            bool thrown = false;
            try {
                c.check(to_z(obake::safe_cast<T>(q)) == n, "safe_cast() from rational alters it", ctx);
            } catch (const obake::safe_cast_failure &) {
                thrown = true;
            }
            c.check(thrown == !ok2, "safe_cast() from rational", ctx);
        }
    };
    (one(std::tuple_element_t<I, types>{}, I), ...);
    int_t o;
    const bool ok = obake::safe_convert(o, q);
    c.check(ok == (z % den == 0) && (!ok || to_q(o) == to_q(q)), "rational to integer", [&] { return cat(z.get_str(), "/", den); });
    rat_t oq;
    c.check(obake::safe_convert(oq, m) && to_q(oq) == Q(z), "integer to rational", [&] { return z.get_str(); });
}

template <typename T>
inline void arith(Case &c, T a, T b, std::size_t i)
{
    const auto za = to_z(a), zb = to_z(b);
    for (int sub = 0; sub < 2; ++sub) {
        const mpz_class e = sub ? mpz_class(za - zb) : mpz_class(za + zb);
        const bool fits = in_range<T>(e);
        const auto ctx = [&] { return cat(za.get_str(), sub ? " - " : " + ", zb.get_str(), " in ", names[i]); };
        if (!fits && c.rng.chance(15, 16) && nbits<T> == 8) {
            // Exceptions are slow: fewer of them in the exhaustive runs.
            continue;
        }
        try {
            const T x = sub ? obake::detail::safe_int_sub(a, b) : obake::detail::safe_int_add(a, b);
            c.check(fits && to_z(x) == e, "checked arithmetic", [&] { return cat(ctx(), " gives ", to_z(x).get_str()); });
            c.event("sums and differences");
        } catch (const std::overflow_error &x) {
            c.check(!fits, "spurious overflow", ctx);
            c.event("overflows reported");
            if (!std::is_same_v<T, bool>) {
                const std::string w(x.what());
                c.check(w.find(za.get_str()) != std::string::npos && w.find(zb.get_str()) != std::string::npos, "message of an overflow", [&] { return cat(ctx(), ": ", w); });
            }
        }
    }
}

template <std::size_t I>
inline void one_type(Case &c)
{
    using T = std::tuple_element_t<I, types>;
    auto &r = c.rng;
    constexpr auto seq = std::make_index_sequence<NT>{};
    for (int k = 0; k < 40; ++k) {
        conversions(c, gen_num<T>(r), I, seq);
    }
    for (int k = 0; k < 40; ++k) {
        const T a = gen_num<T>(r);
        T b = gen_num<T>(r);
        if constexpr (!std::is_same_v<T, bool>) {
            // Sums and differences next to the limits.
            mpz_class z = (r.chance(1, 2) ? z_max<T>() : z_min<T>()) + static_cast<long>(r.range(-1, 1));
            z = r.chance(1, 2) ? mpz_class(z - to_z(a)) : mpz_class(to_z(a) - z);
            if (r.chance(1, 2) && in_range<T>(z)) {
                b = from_z<T>(z);
            }
        }
        arith(c, a, b, I);
    }
    // Traits and limits.
    if constexpr (!std::is_same_v<T, bool>) {
        c.check(obake::is_signed_v<T> == sgn<T> && obake::is_integral_v<T> && !obake::is_signed_v<obake::make_unsigned_t<T>>
                    && sizeof(obake::make_unsigned_t<T>) == sizeof(T),
                "traits", [] { return names[I]; });
    }
    c.check(to_z(obake::detail::limits_max<T>) == z_max<T>() && to_z(obake::detail::limits_min<T>) == z_min<T>(), "limits", [] { return names[I]; });
    c.check(obake::detail::limits_digits<T> == static_cast<int>(nbits<T> - (sgn<T> ? 1 : 0)), "digits", [] { return names[I]; });
    // All numbers of that many decimal digits fit, not all those with one more.
    {
        mpz_class z;
        mpz_ui_pow_ui(z.get_mpz_t(), 10, static_cast<unsigned long>(obake::detail::limits_digits10<T>));
        c.check(in_range<T>(z - 1) && !in_range<T>(z * 10 - 1), "decimal digits", [] { return names[I]; });
    }
    c.sample(cat(names[I]));
}

// All the numbers of 8 and 16 bits; a slice per case.
template <std::size_t I>
inline void all_of(Case &c, unsigned slices)
{
    using T = std::tuple_element_t<I, types>;
    constexpr auto seq = std::make_index_sequence<NT>{};
    const auto n = 1ul << nbits<T>;
    for (auto k = c.idx % slices; k < n; k += slices) {
        const T t = static_cast<T>(k);
        conversions(c, t, I, seq);
        if constexpr (nbits<T> <= 8) {
            for (unsigned long j = 0; j < n; ++j) {
                arith(c, t, static_cast<T>(j), I);
            }
            c.event("numbers of 8 bits with all the others");
        } else {
            for (int j = 0; j < 4; ++j) {
                arith(c, t, gen_num<T>(c.rng), I);
            }
            c.event("numbers of 16 bits");
        }
    }
}

template <typename T>
inline void mp_ops(Case &c)
{
    auto &r = c.rng;
    GenCfg g;
    for (int k = 0; k < 20; ++k) {
        const auto qa = gen_cf<T>(r, g), qb = gen_cf<T>(r, g), qd = gen_cf<T>(r, g);
        T a = from_q<T>(qa), b = from_q<T>(qb), d = from_q<T>(qd);
        if constexpr (obake::is_mult_addable_v<T &, const T &, const T &>) {
            obake::fma3(a, b, d);
            const Q e = qa + qb * qd;
            c.check(to_q(a) == e, "fma3()", [&] { return cat(to_q(a).get_str(), " instead of ", e.get_str()); });
            T x = from_q<T>(qb);
            obake::fma3(x, x, x);
            const Q e2 = qb + qb * qb;
            c.check(to_q(x) == e2, "fma3() of itself", [&] { return to_q(x).get_str(); });
            c.check(to_q(b) == qb && to_q(d) == qd, "operands of fma3()", [&] { return to_q(b).get_str(); });
        }
        T n = from_q<T>(qb);
        obake::negate(n);
        c.check(to_q(n) == Q(-qb), "negate()", [&] { return to_q(n).get_str(); });
        c.check(!obake::is_zero(b) && obake::is_zero(T(0)), "is_zero()", [&] { return to_q(b).get_str(); });
        c.event("multiprecision operations");
    }
}

inline void fp(Case &c)
{
    auto &r = c.rng;
    for (int k = 0; k < 20; ++k) {
        const double x = std::ldexp(static_cast<double>(r.range(-1000, 1000)), static_cast<int>(r.range(-8, 8)));
        double n = x;
        obake::negate(n);
        c.check(n == -x && obake::is_zero(x) == !(x < 0 || x > 0), "floating point", [&] { return cat(x); });
        const int e = static_cast<int>(r.range(0, 6));
        // Small numbers, exact.
        const double y = static_cast<double>(r.range(-20, 20)) / 4;
        double p = 1;
        for (int i = 0; i < e; ++i) {
            p *= y;
        }
        c.check(obake::pow(y, e) == p && obake::pow(y, static_cast<double>(e)) == p && obake::pow(y, static_cast<unsigned char>(e)) == p
                    && obake::pow(y, static_cast<i128>(e)) == p && obake::pow(y, static_cast<u128>(e)) == p,
                "pow() of floating point", [&] { return cat(y, " ** ", e); });
        const float f = static_cast<float>(r.range(-8, 8)) / 2;
        float pf = 1;
        for (int i = 0; i < e; ++i) {
            pf *= f;
        }
        static_assert(std::is_same_v<decltype(obake::pow(f, e)), float> && std::is_same_v<decltype(obake::pow(f, 1.)), double>);
        c.check(obake::pow(f, e) == pf, "pow() of floats", [&] { return cat(f, " ** ", e); });
        const int b = static_cast<int>(r.range(-9, 9));
        double pb = 1;
        for (int i = 0; i < e; ++i) {
            pb *= b;
        }
        c.check(obake::pow(b, static_cast<double>(e)) == pb && obake::pow(static_cast<i128>(b), static_cast<double>(e)) == pb, "pow() of integrals",
                [&] { return cat(b, " ** ", e); });
    }
    c.check(obake::is_zero(0.) && obake::is_zero(-0.) && !obake::is_zero(std::numeric_limits<double>::quiet_NaN())
                && !obake::is_zero(std::numeric_limits<double>::denorm_min()),
            "is_zero() of floating point", [] { return ""; });
}

} // namespace c20

#define C20_TYPE(I)                                                                                                    \
    VF_WORKLOAD("numbers-" #I, 60, 3000)                                                                               \
    {                                                                                                                  \
        c20::one_type<I>(c);                                                                                           \
        c.seen(c.rng.next());                                                                                          \
    }
#define C20_ALL(I, slices)                                                                                             \
    VF_WORKLOAD("all-" #I, slices, slices)                                                                             \
    {                                                                                                                  \
        c20::all_of<I>(c, slices);                                                                                     \
        c.seen(cat("all" #I "-", c.idx));                                                                              \
    }

#endif
