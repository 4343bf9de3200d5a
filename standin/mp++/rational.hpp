#ifndef VERIF_MPPP_RATIONAL_HPP
#define VERIF_MPPP_RATIONAL_HPP

#include <cmath>
#include <cstddef>
#include <functional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <gmp.h>

#include <fmt/format.h>

#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>

#include <mp++/integer.hpp>

namespace mppp
{

// Always in canonical form: den > 0, gcd(num, den) == 1.
template <std::size_t SSize>
class rational
{
    friend class boost::serialization::access;

public:
    using int_t = integer<SSize>;
    static constexpr std::size_t ssize = SSize;

    rational() : m_den(1) {}
    rational(const rational &) = default;
    // Note: leave the moved-from object canonical (zero).
    rational(rational &&o) noexcept : rational()
    {
        m_num = std::move(o.m_num);
        swap_(m_den, o.m_den);
    }
    template <cpp_int_t T>
    rational(T n) : m_num(n), m_den(1)
    {
    }
    rational(const int_t &n) : m_num(n), m_den(1) {}
    template <cpp_fp_t T>
    explicit rational(T x) : m_den(1)
    {
        if (!std::isfinite(x)) {
            throw std::domain_error("Cannot construct a rational from a non-finite floating-point value");
        }
        int e = 0;
        const auto m = std::frexp(static_cast<double>(x), &e);
        m_num = int_t(std::ldexp(m, 53));
        e -= 53;
        if (e >= 0) {
            m_num <<= e;
        } else {
            m_den <<= -e;
        }
        canonicalise();
    }
    template <typename T, typename U>
        requires(cpp_int_t<T> || std::is_same_v<T, int_t>) && (cpp_int_t<U> || std::is_same_v<U, int_t>)
    explicit rational(const T &n, const U &d) : m_num(n), m_den(d)
    {
        if (m_den.is_zero()) {
            throw zero_division_error("Cannot construct a rational with a zero denominator");
        }
        canonicalise();
    }
    explicit rational(const std::string &s) : m_den(1)
    {
        const auto p = s.find('/');
        if (p == std::string::npos) {
            m_num = int_t(s);
        } else {
            m_num = int_t(s.substr(0, p));
            m_den = int_t(s.substr(p + 1u));
            if (m_den.is_zero()) {
                throw zero_division_error("A zero denominator was detected in the constructor of a rational");
            }
            canonicalise();
        }
    }
    explicit rational(const char *s) : rational(std::string(s)) {}
    ~rational() = default;
    rational &operator=(const rational &) = default;
    rational &operator=(rational &&o) noexcept
    {
        if (this != &o) {
            swap_(m_num, o.m_num);
            swap_(m_den, o.m_den);
        }
        return *this;
    }
    template <cpp_int_t T>
    rational &operator=(T n)
    {
        m_num = n;
        m_den = 1;
        return *this;
    }
    rational &operator=(const int_t &n)
    {
        m_num = n;
        m_den = 1;
        return *this;
    }
    template <cpp_fp_t T>
    rational &operator=(T x)
    {
        return *this = rational(x);
    }
    rational &operator=(const std::string &s)
    {
        return *this = rational(s);
    }
    rational &operator=(const char *s)
    {
        return *this = rational(s);
    }

    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int_t &_get_num()
    {
        return m_num;
    }
    int_t &_get_den()
    {
        return m_den;
    }
    int sgn() const
    {
        return m_num.sgn();
    }
    bool is_zero() const
    {
        return m_num.is_zero();
    }
    bool is_one() const
    {
        return m_num.is_one() && m_den.is_one();
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    rational &canonicalise()
    {
        if (m_num.is_zero()) {
            m_den = 1;
            return *this;
        }
        int_t g;
        mpz_gcd(g._get_mpz(), m_num.get_mpz_t(), m_den.get_mpz_t());
        if (!g.is_one()) {
            mpz_divexact(m_num._get_mpz(), m_num.get_mpz_t(), g.get_mpz_t());
            mpz_divexact(m_den._get_mpz(), m_den.get_mpz_t(), g.get_mpz_t());
        }
        if (m_den.sgn() < 0) {
            m_num.neg();
            m_den.neg();
        }
        return *this;
    }
    std::string to_string(int base = 10) const
    {
        return m_den.is_one() ? m_num.to_string(base) : m_num.to_string(base) + "/" + m_den.to_string(base);
    }
    template <cpp_int_t T>
    explicit operator T() const
    {
        if constexpr (std::is_same_v<T, bool>) {
            return m_num.sgn() != 0;
        } else {
            return static_cast<T>(m_num / m_den);
        }
    }
    explicit operator int_t() const
    {
        return m_num / m_den;
    }
    template <cpp_fp_t T>
    explicit operator T() const
    {
        mpq_t q;
        mpq_init(q);
        mpz_set(mpq_numref(q), m_num.get_mpz_t());
        mpz_set(mpq_denref(q), m_den.get_mpz_t());
        const auto r = static_cast<T>(mpq_get_d(q));
        mpq_clear(q);
        return r;
    }
    template <cpp_int_t T>
    bool get(T &out) const
    {
        return (m_num / m_den).get(out);
    }

    rational operator+() const
    {
        return *this;
    }
    rational operator-() const
    {
        auto r(*this);
        r.neg();
        return r;
    }
    rational &operator++()
    {
        m_num += m_den;
        return *this;
    }

private:
    static void swap_(int_t &a, int_t &b) noexcept
    {
        mpz_swap(a._get_mpz(), b._get_mpz());
    }
    template <class Archive>
    void save(Archive &ar, unsigned) const
    {
        ar << m_num;
        ar << m_den;
    }
    template <class Archive>
    void load(Archive &ar, unsigned)
    {
        ar >> m_num;
        ar >> m_den;
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

    int_t m_num, m_den;
};

namespace detail
{

template <std::size_t SSize>
inline rational<SSize> rat_add(const rational<SSize> &a, const rational<SSize> &b)
{
    return rational<SSize>(a.get_num() * b.get_den() + b.get_num() * a.get_den(), a.get_den() * b.get_den());
}
template <std::size_t SSize>
inline rational<SSize> rat_sub(const rational<SSize> &a, const rational<SSize> &b)
{
    return rational<SSize>(a.get_num() * b.get_den() - b.get_num() * a.get_den(), a.get_den() * b.get_den());
}
template <std::size_t SSize>
inline rational<SSize> rat_mul(const rational<SSize> &a, const rational<SSize> &b)
{
    return rational<SSize>(a.get_num() * b.get_num(), a.get_den() * b.get_den());
}
template <std::size_t SSize>
inline rational<SSize> rat_div(const rational<SSize> &a, const rational<SSize> &b)
{
    if (b.is_zero()) {
        throw zero_division_error("Zero divisor in rational division");
    }
    return rational<SSize>(a.get_num() * b.get_den(), a.get_den() * b.get_num());
}

} // namespace detail

#define VERIF_MPPP_RAT_OP(op, fn)                                                                                      \
    template <std::size_t SSize>                                                                                       \
    inline rational<SSize> operator op(const rational<SSize> &a, const rational<SSize> &b)                             \
    {                                                                                                                  \
        return detail::fn(a, b);                                                                                       \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline rational<SSize> operator op(const rational<SSize> &a, const integer<SSize> &b)                              \
    {                                                                                                                  \
        return detail::fn(a, rational<SSize>(b));                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline rational<SSize> operator op(const integer<SSize> &a, const rational<SSize> &b)                              \
    {                                                                                                                  \
        return detail::fn(rational<SSize>(a), b);                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline rational<SSize> operator op(const rational<SSize> &a, T b)                                                  \
    {                                                                                                                  \
        return detail::fn(a, rational<SSize>(b));                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline rational<SSize> operator op(T a, const rational<SSize> &b)                                                  \
    {                                                                                                                  \
        return detail::fn(rational<SSize>(a), b);                                                                      \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline T operator op(const rational<SSize> &a, T b)                                                                \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline T operator op(T a, const rational<SSize> &b)                                                                \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline rational<SSize> &operator op##=(rational<SSize> &a, const rational<SSize> &b)                               \
    {                                                                                                                  \
        return a = detail::fn(a, b);                                                                                   \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline rational<SSize> &operator op##=(rational<SSize> &a, const integer<SSize> &b)                                \
    {                                                                                                                  \
        return a = detail::fn(a, rational<SSize>(b));                                                                  \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline integer<SSize> &operator op##=(integer<SSize> &a, const rational<SSize> &b)                                 \
    {                                                                                                                  \
        return a = static_cast<integer<SSize>>(a op b);                                                                \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline rational<SSize> &operator op##=(rational<SSize> &a, T b)                                                    \
    {                                                                                                                  \
        return a = detail::fn(a, rational<SSize>(b));                                                                  \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline rational<SSize> &operator op##=(rational<SSize> &a, T b)                                                    \
    {                                                                                                                  \
        return a = rational<SSize>(a op b);                                                                            \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_arith_t T>                                                                        \
    inline T &operator op##=(T &a, const rational<SSize> &b)                                                           \
    {                                                                                                                  \
        return a = static_cast<T>(a op b);                                                                             \
    }

VERIF_MPPP_RAT_OP(+, rat_add)
VERIF_MPPP_RAT_OP(-, rat_sub)
VERIF_MPPP_RAT_OP(*, rat_mul)
VERIF_MPPP_RAT_OP(/, rat_div)

#undef VERIF_MPPP_RAT_OP

#define VERIF_MPPP_RAT_CMP(op)                                                                                         \
    template <std::size_t SSize>                                                                                       \
    inline bool operator op(const rational<SSize> &a, const rational<SSize> &b)                                        \
    {                                                                                                                  \
        return a.get_num() * b.get_den() op b.get_num() * a.get_den();                                                 \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline bool operator op(const rational<SSize> &a, const integer<SSize> &b)                                         \
    {                                                                                                                  \
        return a op rational<SSize>(b);                                                                                \
    }                                                                                                                  \
    template <std::size_t SSize>                                                                                       \
    inline bool operator op(const integer<SSize> &a, const rational<SSize> &b)                                         \
    {                                                                                                                  \
        return rational<SSize>(a) op b;                                                                                \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline bool operator op(const rational<SSize> &a, T b)                                                             \
    {                                                                                                                  \
        return a op rational<SSize>(b);                                                                                \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_int_t T>                                                                          \
    inline bool operator op(T a, const rational<SSize> &b)                                                             \
    {                                                                                                                  \
        return rational<SSize>(a) op b;                                                                                \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline bool operator op(const rational<SSize> &a, T b)                                                             \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <std::size_t SSize, cpp_fp_t T>                                                                           \
    inline bool operator op(T a, const rational<SSize> &b)                                                             \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }

VERIF_MPPP_RAT_CMP(==)
VERIF_MPPP_RAT_CMP(!=)
VERIF_MPPP_RAT_CMP(<)
VERIF_MPPP_RAT_CMP(<=)
VERIF_MPPP_RAT_CMP(>)
VERIF_MPPP_RAT_CMP(>=)

#undef VERIF_MPPP_RAT_CMP

template <std::size_t SSize>
inline std::ostream &operator<<(std::ostream &os, const rational<SSize> &q)
{
    return os << q.to_string();
}

template <cpp_int_t T, std::size_t SSize>
inline bool get(T &out, const rational<SSize> &q)
{
    return q.get(out);
}

template <std::size_t SSize>
inline bool is_zero(const rational<SSize> &q)
{
    return q.is_zero();
}

template <std::size_t SSize>
inline void swap(rational<SSize> &a, rational<SSize> &b) noexcept
{
    swap(a._get_num(), b._get_num());
    swap(a._get_den(), b._get_den());
}

template <std::size_t SSize>
inline std::size_t hash(const rational<SSize> &q)
{
    return mppp::hash(q.get_num()) + mppp::hash(q.get_den());
}

template <std::size_t SSize>
inline rational<SSize> pow(const rational<SSize> &b, const integer<SSize> &e)
{
    if (e.sgn() >= 0) {
        return rational<SSize>(mppp::pow(b.get_num(), e), mppp::pow(b.get_den(), e));
    }
    if (b.is_zero()) {
        throw zero_division_error("Cannot raise rational zero to a negative exponent");
    }
    const auto me = -e;
    return rational<SSize>(mppp::pow(b.get_den(), me), mppp::pow(b.get_num(), me));
}
// Rational exponents are supported only if integral (or if the base is one).
template <std::size_t SSize>
inline rational<SSize> pow(const rational<SSize> &b, const rational<SSize> &e)
{
    if (e.get_den().is_one()) {
        return mppp::pow(b, e.get_num());
    }
    if (b.is_one()) {
        return b;
    }
    throw std::domain_error("Unable to raise a rational base to a non-integral rational power");
}
template <std::size_t SSize>
inline rational<SSize> pow(const integer<SSize> &b, const rational<SSize> &e)
{
    return mppp::pow(rational<SSize>(b), e);
}
template <cpp_int_t T, std::size_t SSize>
inline rational<SSize> pow(T b, const rational<SSize> &e)
{
    return mppp::pow(rational<SSize>(b), e);
}
template <std::size_t SSize>
inline rational<SSize> abs(const rational<SSize> &q)
{
    return q.sgn() < 0 ? -q : q;
}
template <std::size_t SSize, cpp_int_t T>
inline rational<SSize> pow(const rational<SSize> &b, T e)
{
    return mppp::pow(b, integer<SSize>(e));
}
template <std::size_t SSize, cpp_fp_t T>
inline T pow(const rational<SSize> &b, T e)
{
    return std::pow(static_cast<T>(b), e);
}
template <cpp_fp_t T, std::size_t SSize>
inline T pow(T b, const rational<SSize> &e)
{
    return std::pow(b, static_cast<T>(e));
}

} // namespace mppp

namespace std
{

template <std::size_t SSize>
struct hash<mppp::rational<SSize>> {
    std::size_t operator()(const mppp::rational<SSize> &q) const
    {
        return mppp::hash(q);
    }
};

} // namespace std

namespace fmt
{

template <std::size_t SSize>
struct formatter<mppp::rational<SSize>> : formatter<std::string> {
    template <typename Ctx>
    auto format(const mppp::rational<SSize> &q, Ctx &ctx) const
    {
        return formatter<std::string>::format(q.to_string(), ctx);
    }
};

} // namespace fmt

namespace boost::serialization
{

template <std::size_t SSize>
struct tracking_level<mppp::rational<SSize>> {
    using tag = mpl::integral_c_tag;
    using type = mpl::int_<track_never>;
    BOOST_STATIC_CONSTANT(int, value = tracking_level::type::value);
};

} // namespace boost::serialization

#endif
