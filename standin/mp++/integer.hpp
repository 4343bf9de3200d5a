#ifndef VERIF_MPPP_INTEGER_HPP
#define VERIF_MPPP_INTEGER_HPP

#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <gmp.h>

#include <fmt/format.h>

#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/tracking.hpp>

#include <mp++/config.hpp>
#include <mp++/exceptions.hpp>
#include <mp++/type_name.hpp>

namespace mppp
{

template <std::size_t SSize>
class integer;

namespace detail
{

template <typename T>
inline constexpr bool is_int128_v = false;
#if defined(MPPP_HAVE_GCC_INT128)
template <>
inline constexpr bool is_int128_v<__int128_t> = true;
template <>
inline constexpr bool is_int128_v<__uint128_t> = true;
#endif

template <typename T>
inline constexpr bool is_integer_impl_v = false;
template <std::size_t SSize>
inline constexpr bool is_integer_impl_v<integer<SSize>> = true;

} // namespace detail

// A C++ integral type with which integer/rational interoperate.
template <typename T>
concept cpp_int_t = (std::is_integral_v<T> || detail::is_int128_v<T>)&&!std::is_const_v<T> && !std::is_volatile_v<T>;

template <typename T>
concept cpp_fp_t = std::is_same_v<T, float> || std::is_same_v<T, double>;

template <typename T>
concept cpp_arith_t = cpp_int_t<T> || cpp_fp_t<T>;

namespace detail
{

template <typename T>
inline void mpz_from_int(mpz_t z, T n)
{
    if constexpr (std::is_same_v<T, bool>) {
        mpz_set_ui(z, n ? 1ul : 0ul);
    } else {
        using wide = __uint128_t;
        const bool neg = n < T(0);
        wide u = static_cast<wide>(n);
        if (neg) {
            u = wide(0) - u;
        }
        const auto hi = static_cast<std::uint64_t>(u >> 64);
        const auto lo = static_cast<std::uint64_t>(u);
        if (hi == 0u) {
            mpz_set_ui(z, lo);
        } else {
            mpz_set_ui(z, hi);
            mpz_mul_2exp(z, z, 64);
            mpz_add_ui(z, z, lo);
        }
        if (neg) {
            mpz_neg(z, z);
        }
    }
}

// Magnitude of z as a 128 bit unsigned, false if it does not fit.
inline bool mpz_mag128(__uint128_t &out, const mpz_t z)
{
    const auto sz = mpz_size(z);
    if (sz > 2u) {
        return false;
    }
    __uint128_t u = 0;
    if (sz == 2u) {
        u = static_cast<__uint128_t>(mpz_getlimbn(z, 1)) << 64;
    }
    if (sz >= 1u) {
        u |= static_cast<__uint128_t>(mpz_getlimbn(z, 0));
    }
    out = u;
    return true;
}

template <typename T>
inline bool mpz_to_int(T &out, const mpz_t z)
{
    if constexpr (std::is_same_v<T, bool>) {
        out = mpz_sgn(z) != 0;
        return true;
    } else {
        __uint128_t u = 0;
        if (!mpz_mag128(u, z)) {
            return false;
        }
        constexpr bool is_s = T(-1) < T(0);
        constexpr unsigned bits = sizeof(T) * 8u - (is_s ? 1u : 0u);
        constexpr __uint128_t mx
            = bits >= 128u ? ~__uint128_t(0) : ((__uint128_t(1) << (bits % 128u)) - __uint128_t(1));
        if (mpz_sgn(z) >= 0) {
            if (u > mx) {
                return false;
            }
            out = static_cast<T>(u);
            return true;
        }
        if constexpr (!is_s) {
            return false;
        } else {
            if (u > mx + 1u) {
                return false;
            }
            // -u, computed without overflow.
            out = static_cast<T>(static_cast<T>(-static_cast<T>(u - 1u)) - T(1));
            return true;
        }
    }
}

template <typename F>
inline F mpz_to_fp(const mpz_t z)
{
    if constexpr (std::is_same_v<F, long double>) {
        long double r = 0;
        for (auto i = mpz_size(z); i > 0u; --i) {
            r = std::ldexp(r, 64) + static_cast<long double>(mpz_getlimbn(z, static_cast<mp_size_t>(i - 1u)));
        }
        return mpz_sgn(z) < 0 ? -r : r;
    } else {
        return static_cast<F>(mpz_get_d(z));
    }
}

} // namespace detail

template <std::size_t SSize>
class integer
{
    static_assert(SSize > 0u);
    friend class boost::serialization::access;

public:
    static constexpr std::size_t ssize = SSize;

    integer()
    {
        mpz_init(m_z);
    }
    integer(const integer &o)
    {
        mpz_init_set(m_z, o.m_z);
    }
    integer(integer &&o) noexcept
    {
        mpz_init(m_z);
        mpz_swap(m_z, o.m_z);
    }
    template <cpp_int_t T>
    integer(T n)
    {
        mpz_init(m_z);
        detail::mpz_from_int(m_z, n);
    }
    template <cpp_fp_t T>
    explicit integer(T x)
    {
        if (!std::isfinite(x)) {
            throw std::domain_error("Cannot construct an integer from a non-finite floating-point value");
        }
        mpz_init_set_d(m_z, static_cast<double>(x));
    }
    explicit integer(const char *s, int base = 10)
    {
        mpz_init(m_z);
        if (mpz_set_str(m_z, s, base) != 0) {
            mpz_clear(m_z);
            throw std::invalid_argument(std::string("The string '") + s + "' is not a valid integer");
        }
    }
    explicit integer(const std::string &s, int base = 10) : integer(s.c_str(), base) {}
    explicit integer(const ::mpz_t z)
    {
        mpz_init_set(m_z, z);
    }
    ~integer()
    {
        mpz_clear(m_z);
    }
    integer &operator=(const integer &o)
    {
        if (this != &o) {
            mpz_set(m_z, o.m_z);
        }
        return *this;
    }
    integer &operator=(integer &&o) noexcept
    {
        if (this != &o) {
            mpz_swap(m_z, o.m_z);
        }
        return *this;
    }
    template <cpp_int_t T>
    integer &operator=(T n)
    {
        detail::mpz_from_int(m_z, n);
        return *this;
    }
    template <cpp_fp_t T>
    integer &operator=(T x)
    {
        return *this = integer(x);
    }
    integer &operator=(const char *s)
    {
        return *this = integer(s);
    }
    integer &operator=(const std::string &s)
    {
        return *this = integer(s);
    }

    bool is_static() const
    {
        return mpz_size(m_z) <= SSize;
    }
    bool is_dynamic() const
    {
        return !is_static();
    }
    std::size_t size() const
    {
        return mpz_size(m_z);
    }
    std::size_t nbits() const
    {
        return is_zero() ? 0u : mpz_sizeinbase(m_z, 2);
    }
    int sgn() const
    {
        return mpz_sgn(m_z);
    }
    integer &neg()
    {
        mpz_neg(m_z, m_z);
        return *this;
    }
    integer &abs()
    {
        mpz_abs(m_z, m_z);
        return *this;
    }
    bool is_zero() const
    {
        return mpz_sgn(m_z) == 0;
    }
    bool is_one() const
    {
        return mpz_cmp_ui(m_z, 1) == 0;
    }
    bool is_negative_one() const
    {
        return mpz_cmp_si(m_z, -1) == 0;
    }
    bool odd_p() const
    {
        return mpz_odd_p(m_z) != 0;
    }
    bool even_p() const
    {
        return mpz_even_p(m_z) != 0;
    }
    std::string to_string(int base = 10) const
    {
        std::vector<char> buf(mpz_sizeinbase(m_z, base) + 2u);
        mpz_get_str(buf.data(), base, m_z);
        return std::string(buf.data());
    }
    template <cpp_int_t T>
    bool get(T &out) const
    {
        return detail::mpz_to_int(out, m_z);
    }
    template <cpp_int_t T>
    explicit operator T() const
    {
        T out{};
        if (!detail::mpz_to_int(out, m_z)) {
            throw std::overflow_error("The conversion of the integer " + to_string() + " to the type '"
                                      + type_name<T>() + "' results in overflow");
        }
        return out;
    }
    template <cpp_fp_t T>
    explicit operator T() const
    {
        return detail::mpz_to_fp<T>(m_z);
    }
    const __mpz_struct *get_mpz_t() const
    {
        return m_z;
    }
    __mpz_struct *_get_mpz()
    {
        return m_z;
    }

    integer operator+() const
    {
        return *this;
    }
    integer operator-() const
    {
        integer r(*this);
        r.neg();
        return r;
    }
    integer &operator++()
    {
        mpz_add_ui(m_z, m_z, 1);
        return *this;
    }
    integer operator++(int)
    {
        integer r(*this);
        ++*this;
        return r;
    }
    integer &operator--()
    {
        mpz_sub_ui(m_z, m_z, 1);
        return *this;
    }

private:
    template <class Archive>
    void save(Archive &ar, unsigned) const
    {
        const std::string tmp = to_string();
        ar << tmp;
    }
    template <class Archive>
    void load(Archive &ar, unsigned)
    {
        std::string tmp;
        ar >> tmp;
        *this = integer(tmp);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

    ::mpz_t m_z;
};

namespace detail
{

template <std::size_t SSize>
inline const integer<SSize> &as_integer(const integer<SSize> &n)
{
    return n;
}
template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> as_integer(T n)
{
    return integer<SSize>(n);
}

} // namespace detail

// Generates the binary operators (integer/integer, integer/C++ integral, integer/C++ floating point)
// and their in-place counterparts.
#define VERIF_MPPP_INT_OP(op, fn, pre)                                                                                 \
    template <std::size_t SSize>                                                                                       \
    inline integer<SSize> operator op(const integer<SSize> &a, const integer<SSize> &b)                                \
    {                                                                                                                  \
        pre;                                                                                                           \
        integer<SSize> r;                                                                                              \
        fn(r._get_mpz(), a.get_mpz_t(), b.get_mpz_t());                                                                \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline integer<SSize> operator op(const integer<SSize> &a, T b)                                                    \
    {                                                                                                                  \
        return a op integer<SSize>(b);                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline integer<SSize> operator op(T a, const integer<SSize> &b)                                                    \
    {                                                                                                                  \
        return integer<SSize>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline integer<SSize> &operator op##=(integer<SSize> &a, const integer<SSize> &b)                                  \
    {                                                                                                                  \
        pre;                                                                                                           \
        fn(a._get_mpz(), a.get_mpz_t(), b.get_mpz_t());                                                                \
        return a;                                                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline integer<SSize> &operator op##=(integer<SSize> &a, T b)                                                      \
    {                                                                                                                  \
        return a op##= integer<SSize>(b);                                                                             \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline T &operator op##=(T &a, const integer<SSize> &b)                                                            \
    {                                                                                                                  \
        return a = static_cast<T>(a op b);                                                                             \
    }

#define VERIF_MPPP_INT_FP_OP(op)                                                                                       \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline T operator op(const integer<SSize> &a, T b)                                                                 \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline T operator op(T a, const integer<SSize> &b)                                                                 \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline integer<SSize> &operator op##=(integer<SSize> &a, T b)                                                      \
    {                                                                                                                  \
        return a = integer<SSize>(a op b);                                                                             \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline T &operator op##=(T &a, const integer<SSize> &b)                                                            \
    {                                                                                                                  \
        return a = a op b;                                                                                             \
    }

#define VERIF_MPPP_ZDIV                                                                                                \
    if (b.is_zero()) {                                                                                                 \
        throw zero_division_error("Integer division by zero");                                                         \
    }

VERIF_MPPP_INT_OP(+, mpz_add, )
VERIF_MPPP_INT_OP(-, mpz_sub, )
VERIF_MPPP_INT_OP(*, mpz_mul, )
VERIF_MPPP_INT_OP(/, mpz_tdiv_q, VERIF_MPPP_ZDIV)
VERIF_MPPP_INT_OP(%, mpz_tdiv_r, VERIF_MPPP_ZDIV)
VERIF_MPPP_INT_FP_OP(+)
VERIF_MPPP_INT_FP_OP(-)
VERIF_MPPP_INT_FP_OP(*)
VERIF_MPPP_INT_FP_OP(/)

#undef VERIF_MPPP_ZDIV
#undef VERIF_MPPP_INT_FP_OP
#undef VERIF_MPPP_INT_OP

template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> operator<<(const integer<SSize> &a, T s)
{
    integer<SSize> r;
    mpz_mul_2exp(r._get_mpz(), a.get_mpz_t(), static_cast<mp_bitcnt_t>(s));
    return r;
}
template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> operator>>(const integer<SSize> &a, T s)
{
    integer<SSize> r;
    mpz_fdiv_q_2exp(r._get_mpz(), a.get_mpz_t(), static_cast<mp_bitcnt_t>(s));
    return r;
}
template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> &operator>>=(integer<SSize> &a, T s)
{
    return a = a >> s;
}
template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> &operator<<=(integer<SSize> &a, T s)
{
    return a = a << s;
}

#define VERIF_MPPP_INT_CMP(op)                                                                                         \
    template <std::size_t SSize>                                                                                       \
    inline bool operator op(const integer<SSize> &a, const integer<SSize> &b)                                          \
    {                                                                                                                  \
        return mpz_cmp(a.get_mpz_t(), b.get_mpz_t()) op 0;                                                             \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline bool operator op(const integer<SSize> &a, T b)                                                              \
    {                                                                                                                  \
        return a op integer<SSize>(b);                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline bool operator op(T a, const integer<SSize> &b)                                                              \
    {                                                                                                                  \
        return integer<SSize>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline bool operator op(const integer<SSize> &a, T b)                                                              \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline bool operator op(T a, const integer<SSize> &b)                                                              \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }

VERIF_MPPP_INT_CMP(==)
VERIF_MPPP_INT_CMP(!=)
VERIF_MPPP_INT_CMP(<)
VERIF_MPPP_INT_CMP(<=)
VERIF_MPPP_INT_CMP(>)
VERIF_MPPP_INT_CMP(>=)

#undef VERIF_MPPP_INT_CMP

template <std::size_t SSize>
inline std::ostream &operator<<(std::ostream &os, const integer<SSize> &n)
{
    return os << n.to_string();
}

template <std::size_t SSize>
inline void swap(integer<SSize> &a, integer<SSize> &b) noexcept
{
    mpz_swap(a._get_mpz(), b._get_mpz());
}

template <cpp_int_t T, std::size_t SSize>
inline bool get(T &out, const integer<SSize> &n)
{
    return n.get(out);
}

template <std::size_t SSize>
inline bool is_zero(const integer<SSize> &n)
{
    return n.is_zero();
}

template <std::size_t SSize>
inline int sgn(const integer<SSize> &n)
{
    return n.sgn();
}

template <std::size_t SSize>
inline integer<SSize> abs(const integer<SSize> &n)
{
    auto r(n);
    r.abs();
    return r;
}

template <std::size_t SSize>
inline integer<SSize> &addmul(integer<SSize> &r, const integer<SSize> &a, const integer<SSize> &b)
{
    mpz_addmul(r._get_mpz(), a.get_mpz_t(), b.get_mpz_t());
    return r;
}

template <std::size_t SSize>
inline std::size_t hash(const integer<SSize> &n)
{
    auto ret = static_cast<std::size_t>(n.sgn());
    for (std::size_t i = 0; i < n.size(); ++i) {
        ret ^= static_cast<std::size_t>(mpz_getlimbn(n.get_mpz_t(), static_cast<mp_size_t>(i))) + 0x9e3779b97f4a7c15ull
               + (ret << 6) + (ret >> 2);
    }
    return ret;
}

template <std::size_t SSize>
inline integer<SSize> pow_ui(const integer<SSize> &b, unsigned long e)
{
    integer<SSize> r;
    mpz_pow_ui(r._get_mpz(), b.get_mpz_t(), e);
    return r;
}

// Integral exponentiation, same conventions as mp++: 0**0 == 1, negative exponents
// are ok only if the result is exact or truncates to zero.
template <std::size_t SSize>
inline integer<SSize> pow(const integer<SSize> &b, const integer<SSize> &e)
{
    if (e.sgn() >= 0) {
        if (b.is_zero() || b.is_one()) {
            return e.is_zero() ? integer<SSize>(1) : b;
        }
        if (b.is_negative_one()) {
            return e.odd_p() ? b : integer<SSize>(1);
        }
        return mppp::pow_ui(b, static_cast<unsigned long>(e));
    }
    if (b.is_zero()) {
        throw zero_division_error("Cannot raise zero to a negative power");
    }
    if (b.is_one()) {
        return b;
    }
    if (b.is_negative_one()) {
        return e.odd_p() ? b : integer<SSize>(1);
    }
    return integer<SSize>{};
}
template <std::size_t SSize, cpp_int_t T>
inline integer<SSize> pow(const integer<SSize> &b, T e)
{
    return mppp::pow(b, integer<SSize>(e));
}
template <cpp_int_t T, std::size_t SSize>
inline integer<SSize> pow(T b, const integer<SSize> &e)
{
    return mppp::pow(integer<SSize>(b), e);
}
template <std::size_t SSize, cpp_fp_t T>
inline T pow(const integer<SSize> &b, T e)
{
    return std::pow(static_cast<T>(b), e);
}
template <cpp_fp_t T, std::size_t SSize>
inline T pow(T b, const integer<SSize> &e)
{
    return std::pow(b, static_cast<T>(e));
}

} // namespace mppp

namespace std
{

template <std::size_t SSize>
struct hash<mppp::integer<SSize>> {
    std::size_t operator()(const mppp::integer<SSize> &n) const
    {
        return mppp::hash(n);
    }
};

} // namespace std

namespace fmt
{

template <std::size_t SSize>
struct formatter<mppp::integer<SSize>> : formatter<std::string> {
    template <typename Ctx>
    auto format(const mppp::integer<SSize> &n, Ctx &ctx) const
    {
        return formatter<std::string>::format(n.to_string(), ctx);
    }
};

} // namespace fmt

namespace boost::serialization
{

template <std::size_t SSize>
struct tracking_level<mppp::integer<SSize>> {
    using tag = mpl::integral_c_tag;
    using type = mpl::int_<track_never>;
    BOOST_STATIC_CONSTANT(int, value = tracking_level::type::value);
};

} // namespace boost::serialization

#endif
