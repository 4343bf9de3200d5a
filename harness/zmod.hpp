// Coefficients in the integers modulo a small prime: sums vanish often, and so do conversions.
#ifndef VF_ZMOD_HPP
#define VF_ZMOD_HPP

#include <iostream>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

namespace vf
{

template <int P>
struct zmod {
    int v = 0;
    zmod() = default;
    explicit zmod(int n) : v(((n % P) + P) % P) {}
    explicit zmod(const mppp::integer<1> &n) : zmod(red(n)) {}
    static int red(const mppp::integer<1> &n)
    {
        return static_cast<int>(mpz_fdiv_ui(n.get_mpz_t(), P));
    }
    zmod &operator+=(const zmod &o)
    {
        v = (v + o.v) % P;
        return *this;
    }
    zmod &operator-=(const zmod &o)
    {
        v = (v + P - o.v) % P;
        return *this;
    }
    zmod &operator*=(const zmod &o)
    {
        v = (v * o.v) % P;
        return *this;
    }
    zmod operator-() const
    {
        return zmod(-v);
    }
    friend zmod operator+(zmod a, const zmod &b)
    {
        return a += b;
    }
    friend zmod operator-(zmod a, const zmod &b)
    {
        return a -= b;
    }
    friend zmod operator*(zmod a, const zmod &b)
    {
        return a *= b;
    }
    friend bool operator==(const zmod &a, const zmod &b)
    {
        return a.v == b.v;
    }
    friend bool operator!=(const zmod &a, const zmod &b)
    {
        return a.v != b.v;
    }
    // Mixed operations with integers.
#define VF_ZMOD_MIXED(T)                                                                                               \
    zmod &operator+=(const T &o)                                                                                       \
    {                                                                                                                  \
        return *this += zmod(o);                                                                                       \
    }                                                                                                                  \
    zmod &operator-=(const T &o)                                                                                       \
    {                                                                                                                  \
        return *this -= zmod(o);                                                                                       \
    }                                                                                                                  \
    zmod &operator*=(const T &o)                                                                                       \
    {                                                                                                                  \
        return *this *= zmod(o);                                                                                       \
    }                                                                                                                  \
    friend zmod operator+(const zmod &a, const T &b)                                                                   \
    {                                                                                                                  \
        return a + zmod(b);                                                                                            \
    }                                                                                                                  \
    friend zmod operator+(const T &b, const zmod &a)                                                                   \
    {                                                                                                                  \
        return a + zmod(b);                                                                                            \
    }                                                                                                                  \
    friend zmod operator-(const zmod &a, const T &b)                                                                   \
    {                                                                                                                  \
        return a - zmod(b);                                                                                            \
    }                                                                                                                  \
    friend zmod operator-(const T &b, const zmod &a)                                                                   \
    {                                                                                                                  \
        return zmod(b) - a;                                                                                            \
    }                                                                                                                  \
    friend zmod operator*(const zmod &a, const T &b)                                                                   \
    {                                                                                                                  \
        return a * zmod(b);                                                                                            \
    }                                                                                                                  \
    friend zmod operator*(const T &b, const zmod &a)                                                                   \
    {                                                                                                                  \
        return a * zmod(b);                                                                                            \
    }                                                                                                                  \
    friend bool operator==(const zmod &a, const T &b)                                                                  \
    {                                                                                                                  \
        return a == zmod(b);                                                                                           \
    }
    VF_ZMOD_MIXED(int)
    VF_ZMOD_MIXED(mppp::integer<1>)
#undef VF_ZMOD_MIXED
    friend std::ostream &operator<<(std::ostream &os, const zmod &a)
    {
        return os << a.v;
    }
};

} // namespace vf

#endif
