// A reference model over arbitrary symbol names.
#ifndef VF_NMP_HPP
#define VF_NMP_HPP

#include "polyk.hpp"

namespace vf
{

using NMono = std::map<std::string, i64>;

struct NMP {
    std::map<NMono, Q> t;
    void add(const NMono &m, const Q &q)
    {
        NMono k;
        for (const auto &p : m) {
            if (p.second) {
                k.insert(p);
            }
        }
        auto &x = t[k];
        x += q;
        if (x == 0) {
            t.erase(k);
        }
    }
    bool operator==(const NMP &o) const
    {
        return t == o.t;
    }
};

inline NMono operator+(NMono a, const NMono &b)
{
    for (const auto &[n, e] : b) {
        a[n] += e;
    }
    return a;
}
inline NMP operator+(NMP a, const NMP &b)
{
    for (const auto &[m, q] : b.t) {
        a.add(m, q);
    }
    return a;
}
inline NMP operator-(NMP a, const NMP &b)
{
    for (const auto &[m, q] : b.t) {
        a.add(m, -q);
    }
    return a;
}
inline NMP operator*(const NMP &a, const NMP &b)
{
    NMP r;
    for (const auto &[m, q] : a.t) {
        for (const auto &[m2, q2] : b.t) {
            r.add(m + m2, q * q2);
        }
    }
    return r;
}

template <typename S>
inline NMP to_nmp(const S &s)
{
    NMP r;
    const std::vector<std::string> names(s.get_symbol_set().begin(), s.get_symbol_set().end());
    for (const auto &t : s) {
        const auto u = unpack(t.first, names.size());
        NMono m;
        for (std::size_t i = 0; i < u.size(); ++i) {
            m[names[i]] = static_cast<i64>(u[i]);
        }
        if constexpr (is_series_v<std::decay_t<decltype(t.second)>>) {
            for (const auto &[m2, q] : to_nmp(t.second).t) {
                r.add(m + m2, q);
            }
        } else {
            r.add(m, to_q(t.second));
        }
    }
    return r;
}

inline std::string nstr(const NMP &a)
{
    std::string r = "{";
    unsigned n = 0;
    for (const auto &[m, q] : a.t) {
        if (n++ == 8u) {
            r += " ...";
            break;
        }
        r += (n > 1 ? " + " : "") + q.get_str();
        for (const auto &[x, e] : m) {
            r += "*'" + x + "'^" + std::to_string(e);
        }
    }
    return r + "}";
}

} // namespace vf

#endif
