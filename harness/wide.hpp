// A small exact polynomial model with 128 bit exponents, for operations near the limits of the exponents.
#ifndef VF_WIDE_HPP
#define VF_WIDE_HPP

#include "polyk.hpp"

namespace vf
{

// symbol -> exponent (nonzero entries only).
using WMono = std::map<std::string, i128>;

struct WMP {
    std::map<WMono, Q> t;
    void add(const WMono &m, const Q &q)
    {
        auto &x = t[m];
        x += q;
        if (x == 0) {
            t.erase(m);
        }
    }
    bool operator==(const WMP &o) const
    {
        return t == o.t;
    }
};

inline WMono wmul(const WMono &a, const WMono &b)
{
    WMono r(a);
    for (const auto &[s, e] : b) {
        auto &x = r[s];
        x += e;
        if (x == 0) {
            r.erase(s);
        }
    }
    return r;
}
inline WMP operator*(const WMP &a, const WMP &b)
{
    WMP r;
    for (const auto &[m, q] : a.t) {
        for (const auto &[n, p] : b.t) {
            r.add(wmul(m, n), q * p);
        }
    }
    return r;
}
inline WMP operator+(const WMP &a, const WMP &b)
{
    WMP r(a);
    for (const auto &[n, p] : b.t) {
        r.add(n, p);
    }
    return r;
}
inline WMP wone()
{
    WMP r;
    r.t[WMono{}] = 1;
    return r;
}
inline i128 wexp(const WMono &m, const std::string &s)
{
    const auto it = m.find(s);
    return it == m.end() ? i128(0) : it->second;
}
inline WMono wset(WMono m, const std::string &s, i128 e)
{
    if (e == 0) {
        m.erase(s);
    } else {
        m[s] = e;
    }
    return m;
}
inline std::string wi(i128 x)
{
    if (x == 0) {
        return "0";
    }
    std::string s;
    const bool neg = x < 0;
    u128 u = neg ? -static_cast<u128>(x) : static_cast<u128>(x);
    for (; u; u /= 10u) {
        s += static_cast<char>('0' + static_cast<int>(u % 10u));
    }
    if (neg) {
        s += '-';
    }
    return {s.rbegin(), s.rend()};
}
inline std::string wstr(const WMP &p)
{
    std::string r = "{";
    unsigned n = 0;
    for (const auto &[m, q] : p.t) {
        if (n++ == 8u) {
            return r + "...}";
        }
        r += (n > 1u ? " + " : "") + q.get_str();
        for (const auto &[s, e] : m) {
            r += "*" + s + "^" + wi(e);
        }
    }
    return r + "}";
}

template <typename S>
inline WMP to_wide(const S &s)
{
    WMP r;
    const auto &ss = s.get_symbol_set();
    const std::vector<std::string> names(ss.begin(), ss.end());
    for (const auto &t : s) {
        const auto u = unpack(t.first, names.size());
        WMono m;
        for (std::size_t i = 0; i < names.size(); ++i) {
            if (u[i] != 0) {
                m[names[i]] = u[i];
            }
        }
        r.add(m, to_q(t.second));
    }
    return r;
}

// The largest exponent which a monomial of this type in n symbols can hold, measured by bisection.
template <typename K>
inline i128 measured_limit(std::size_t n)
{
    using T = typename K::value_type;
    const auto fits = [&](T x) {
        std::vector<T> v(n, T(0));
        v[0] = x;
        try {
            K k(v.begin(), v.end());
            return true;
        } catch (const std::overflow_error &) {
            return false;
        }
    };
    i128 lo = 0, hi = static_cast<i128>(std::numeric_limits<T>::max());
    if (fits(static_cast<T>(hi))) {
        return hi;
    }
    while (hi - lo > 1) {
        const auto mid = lo + (hi - lo) / 2;
        (fits(static_cast<T>(mid)) ? lo : hi) = mid;
    }
    return lo;
}

} // namespace vf

#endif
