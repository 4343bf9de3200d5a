// A complete description of a series, as a string.
#ifndef VF_DUMP_HPP
#define VF_DUMP_HPP

#include <algorithm>
#include <cstdio>

#include "polyk.hpp"

#include <obake/math/degree.hpp>
#include <obake/power_series/power_series.hpp>

namespace vf
{

inline std::string dump(const int_t &n)
{
    return to_q(n).get_str();
}
inline std::string dump(const rat_t &n)
{
    return to_q(n).get_str();
}
inline std::string dump(double d)
{
    char b[64];
    std::snprintf(b, sizeof(b), "%a", d);
    return b;
}
template <typename K>
inline std::string dump_key(const K &k, std::size_t n)
{
    std::string r;
    for (const auto e : unpack(k, n)) {
        r += std::to_string(static_cast<long long>(e)) + ",";
    }
    return r;
}
inline std::string dump_tag(const obake::polynomials::tag &)
{
    return "";
}
template <typename T>
inline std::string dump_tag(const obake::power_series::tag<T> &t)
{
    const auto &v = t.trunc.get();
    std::string r = std::to_string(v.index());
    if (const auto *p = std::get_if<1>(&v)) {
        r += ":" + std::to_string(static_cast<long long>(*p));
    } else if (const auto *q = std::get_if<2>(&v)) {
        r += ":" + std::to_string(static_cast<long long>(q->first));
        for (const auto &n : q->second) {
            r += " " + std::to_string(n.size()) + n;
        }
    }
    return r;
}
template <typename K, typename C, typename T>
inline std::string dump(const obake::series<K, C, T> &s)
{
    std::string r = "[";
    for (const auto &n : s.get_symbol_set()) {
        r += std::to_string(n.size()) + n + " ";
    }
    r += "]{" + dump_tag(s.tag()) + "}";
    std::vector<std::string> v;
    for (const auto &t : s) {
        v.push_back(dump_key(t.first, s.get_symbol_set().size()) + ":" + dump(t.second));
    }
    std::sort(v.begin(), v.end());
    for (const auto &x : v) {
        r += "(" + x + ")";
    }
    return r;
}

} // namespace vf

#endif
