// Kronecker packing: round trips, injectivity, additivity, limits.
#include <limits>
#include <obake/kpack.hpp>

#include "polyk.hpp"
#include "wide.hpp"

using namespace vf;

namespace
{

template <typename T>
constexpr unsigned max_size = sizeof(T) == 4u ? 10u : 21u;

template <typename T>
T pack(const std::vector<T> &v)
{
    obake::kpacker<T> kp(static_cast<unsigned>(v.size()));
    for (auto x : v) {
        kp << x;
    }
    return kp.get();
}
template <typename T>
std::vector<T> unp(T n, unsigned size)
{
    obake::kunpacker<T> ku(n, size);
    std::vector<T> r;
    for (unsigned i = 0; i < size; ++i) {
        T t{};
        ku >> t;
        r.push_back(t);
    }
    return r;
}

// The limits of the components and of the codes, measured once per size.
template <typename T>
struct Limits {
    T cmin, cmax, kmin, kmax;
};

template <typename T, typename F>
T bisect(F &&fits, bool up)
{
    // The last value accepted going away from zero.
    const T end = up ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    if (fits(end)) {
        return end;
    }
    i128 lo = 0, hi = end;
    while (up ? hi - lo > 1 : lo - hi > 1) {
        const i128 mid = lo + (hi - lo) / 2;
        (fits(static_cast<T>(mid)) ? lo : hi) = mid;
    }
    return static_cast<T>(lo);
}

template <typename T>
const Limits<T> &limits(unsigned n)
{
    static std::map<unsigned, Limits<T>> m;
    const auto it = m.find(n);
    if (it != m.end()) {
        return it->second;
    }
    const auto fc = [n](T x) {
        try {
            obake::kpacker<T> kp(n);
            kp << x;
            return true;
        } catch (const std::overflow_error &) {
            return false;
        }
    };
    const auto fk = [n](T x) {
        try {
            obake::kunpacker<T> ku(x, n);
            return true;
        } catch (const std::overflow_error &) {
            return false;
        }
    };
    return m[n] = Limits<T>{bisect<T>(fc, false), bisect<T>(fc, true), bisect<T>(fk, false), bisect<T>(fk, true)};
}

template <typename T>
std::string vstr(const std::vector<T> &v)
{
    std::string s = "(";
    for (auto x : v) {
        s += std::to_string(x) + " ";
    }
    return s + ")";
}

template <typename T>
T component(Rng &r, const Limits<T> &l)
{
    const u64 range = static_cast<u64>(l.cmax) - static_cast<u64>(l.cmin);
    switch (r.below(8)) {
        case 0:
            return l.cmin;
        case 1:
            return l.cmax;
        case 2:
            return 0;
        case 3:
            return static_cast<T>(static_cast<u64>(l.cmin) + r.below(std::min<u64>(3, range) + 1u));
        case 4:
            return static_cast<T>(static_cast<u64>(l.cmax) - r.below(std::min<u64>(3, range) + 1u));
        case 5: {
            const auto x = static_cast<u64>(r.range(0, 4));
            const auto neg = std::is_signed_v<T> && r.chance(1, 2);
            const T y = static_cast<T>(neg ? static_cast<u64>(0) - x : x);
            return std::min<T>(std::max<T>(y, l.cmin), l.cmax);
        }
        default:
            return static_cast<T>(static_cast<u64>(l.cmin)
                                  + (range == ~u64(0) ? r.next() : r.below(range + 1u)));
    }
}

template <typename T>
void one(Case &c)
{
    auto &r = c.rng;
    for (int rep = 0; rep < 400; ++rep) {
        const auto n = 1u + static_cast<unsigned>(r.below(max_size<T>));
        const auto &l = limits<T>(n);
        std::vector<T> v(n);
        for (auto &x : v) {
            x = component<T>(r, l);
        }
        const auto ctx = [&] { return cat(sizeof(T) * 8u, std::is_signed_v<T> ? " bits signed, " : " bits unsigned, ", vstr(v)); };
        try {
            const T code = pack(v);
            c.check(code >= l.kmin && code <= l.kmax, "code outside the range accepted by the decoder", ctx);
            c.check(unp(code, n) == v, "round trip of components", [&] { return ctx() + " decoded as " + vstr(unp(code, n)); });
            c.event("round trips of components");
            // A different vector has a different code.
            auto w = v;
            const auto i = r.below(n);
            w[i] = component<T>(r, l);
            c.check((pack(w) == code) == (w == v), "injectivity", [&] { return ctx() + vstr(w); });
            // Additivity.
            std::vector<T> s(n), d(n);
            bool ok = true;
            for (unsigned k = 0; k < n; ++k) {
                // v = s + d, all of them within the limits.
                const T x = component<T>(r, l);
                if constexpr (std::is_signed_v<T>) {
                    const i128 y = static_cast<i128>(v[k]) - x;
                    if (y < l.cmin || y > l.cmax) {
                        s[k] = v[k];
                        d[k] = 0;
                    } else {
                        s[k] = x;
                        d[k] = static_cast<T>(y);
                    }
                } else {
                    s[k] = v[k] ? static_cast<T>(x % (static_cast<u64>(v[k]) + (v[k] != std::numeric_limits<T>::max()))) : T(0);
                    d[k] = v[k] - s[k];
                }
                ok = ok && d[k] >= l.cmin && d[k] <= l.cmax;
            }
            if (ok) {
                const i128 sum = static_cast<i128>(pack(s)) + static_cast<i128>(pack(d));
                c.check(sum == static_cast<i128>(code), "additivity", [&] { return ctx() + " = " + vstr(s) + " + " + vstr(d); });
                c.event("sums");
            }
            c.seen(static_cast<u64>(code) * 31u + n);
        } catch (const std::exception &e) {
            c.check(false, "components within the limits rejected", [&] { return ctx() + e.what(); });
        }
        // Codes: any code accepted is the code of exactly the components it decodes to.
        T code{};
        const u64 krange = static_cast<u64>(l.kmax) - static_cast<u64>(l.kmin);
        switch (r.below(5)) {
            case 0:
                code = static_cast<T>(static_cast<u64>(l.kmin) + r.below(std::min<u64>(krange, 100) + 1u));
                break;
            case 1:
                code = static_cast<T>(static_cast<u64>(l.kmax) - r.below(std::min<u64>(krange, 100) + 1u));
                break;
            case 2: {
                // Next to a carry between the components.
                auto w = v;
                const auto upto = r.below(n + 1u);
                const bool low = r.chance(1, 2);
                for (unsigned k = 0; k < upto; ++k) {
                    w[k] = low ? l.cmin : l.cmax;
                }
                const i128 q = static_cast<i128>(pack(w)) + r.range(-1, 1);
                code = static_cast<T>(std::min<i128>(std::max<i128>(q, l.kmin), l.kmax));
                break;
            }
            default:
                code = static_cast<T>(static_cast<u64>(l.kmin) + (krange == ~u64(0) ? r.next() : r.below(krange + 1u)));
                break;
        }
        try {
            const auto u = unp(code, n);
            bool in = true;
            for (auto x : u) {
                in = in && x >= l.cmin && x <= l.cmax;
            }
            const auto ctx2 = [&] { return cat(sizeof(T) * 8u, std::is_signed_v<T> ? " bits signed, code " : " bits unsigned, code ", code, " size ", n, " ", vstr(u)); };
            c.check(in, "decoded components outside the limits", ctx2);
            if (in) {
                c.check(pack(u) == code, "round trip of codes", ctx2);
            }
            c.event("round trips of codes");
        } catch (const std::exception &e) {
            c.check(false, "code within the limits rejected", [&] { return cat(code, " size ", n, " ", e.what()); });
        }
    }
    c.sample(cat(sizeof(T) * 8u, " bit packing, 400 vectors"));
}

// Misuse is always reported.
template <typename T>
void misuse(Case &c)
{
    auto &r = c.rng;
    const auto n = static_cast<unsigned>(r.below(max_size<T> + 1u));
    const auto throws = [&](const char *key, auto tag, auto &&f) {
        bool ok = false;
        try {
            f();
        } catch (const typename decltype(tag)::type &) {
            ok = true;
        } catch (const std::exception &) {
        }
        c.check(ok, key, [&] { return cat("size ", n); });
        c.event("misuses");
    };
    using OF = obake::detail::type_c<std::overflow_error>;
    using OR = obake::detail::type_c<std::out_of_range>;
    using IA = obake::detail::type_c<std::invalid_argument>;
    const auto big = static_cast<unsigned>(max_size<T> + 1u + r.below(20));
    throws("packer of excessive size", OF{}, [&] { obake::kpacker<T> k(big); });
    throws("unpacker of excessive size", OF{}, [&] { obake::kunpacker<T> k(0, big); });
    {
        obake::kpacker<T> kp(n);
        for (unsigned i = 0; i < n; ++i) {
            kp << T(0);
        }
        throws("too many components pushed", OR{}, [&] { kp << T(0); });
        obake::kunpacker<T> ku(T(0), n);
        T t;
        for (unsigned i = 0; i < n; ++i) {
            ku >> t;
        }
        throws("too many components extracted", OR{}, [&] { ku >> t; });
    }
    throws("nonzero code of size zero", IA{}, [&] { obake::kunpacker<T> ku(T(1), 0); });
    if (n) {
        const auto &l = limits<T>(n);
        if (l.cmax < std::numeric_limits<T>::max()) {
            const T x = static_cast<T>(l.cmax + 1 + static_cast<T>(r.below(static_cast<u64>(std::numeric_limits<T>::max()) - static_cast<u64>(l.cmax))));
            obake::kpacker<T> kp(n);
            const auto pos = r.below(n);
            for (u64 i = 0; i < pos; ++i) {
                kp << l.cmax;
            }
            throws("component too large", OF{}, [&] { kp << x; });
        }
        if (l.kmax < std::numeric_limits<T>::max()) {
            const T x = static_cast<T>(l.kmax + 1 + static_cast<T>(r.below(static_cast<u64>(std::numeric_limits<T>::max()) - static_cast<u64>(l.kmax))));
            throws("code too large", OF{}, [&] { obake::kunpacker<T> ku(x, n); });
        }
        if constexpr (std::is_signed_v<T>) {
            obake::kpacker<T> kp(n);
            throws("component too small", OF{}, [&] { kp << static_cast<T>(l.cmin - 1 - static_cast<T>(r.below(1000))); });
            throws("code too small", OF{}, [&] { obake::kunpacker<T> ku(static_cast<T>(l.kmin - 1 - static_cast<T>(r.below(1000))), n); });
            c.check(l.cmin == -l.cmax, "asymmetric limits");
        } else {
            c.check(l.cmin == 0, "nonzero lower limit");
        }
        // The range of the components is not degenerate: all the codes fit, but a good part of the integers is used.
        c.check(l.cmax >= (sizeof(T) == 4u ? 3 : 3), "degenerate range");
        // The range of the codes is exactly covered by the components.
        c.check(pack(std::vector<T>(n, l.cmax)) == l.kmax, "the largest code");
        c.check(pack(std::vector<T>(n, l.cmin)) == l.kmin, "the smallest code");
    } else {
        c.check(obake::kpacker<T>(0).get() == 0, "empty code");
    }
    // Missing components are zeroes.
    if (n) {
        const auto m = r.below(n);
        obake::kpacker<T> kp(n);
        std::vector<T> v(n, T(0));
        for (u64 i = 0; i < m; ++i) {
            v[i] = component<T>(r, limits<T>(n));
            kp << v[i];
        }
        c.check(kp.get() == pack(v), "missing components");
    }
}

// The codes around the multiples of the weight of every component, counted from the smallest code.
template <typename T>
void carries(Case &c)
{
    auto &r = c.rng;
    const auto n = 1u + static_cast<unsigned>(c.idx % max_size<T>);
    const auto &l = limits<T>(n);
    const i128 delta = static_cast<i128>(l.cmax) - l.cmin + 1;
    const i128 top = static_cast<i128>(l.kmax) - l.kmin;
    i128 w = 1;
    for (unsigned k = 0; k <= n; ++k) {
        if (w > top) {
            break;
        }
        const i128 mmax = top / w;
        std::vector<i128> ms{0, 1, 2, 3, mmax, mmax - 1, mmax / 2, delta - 1, delta, delta + 1};
        for (int i = 0; i < 12; ++i) {
            ms.push_back(static_cast<i128>(r.next()) % (mmax + 1));
        }
        for (auto m : ms) {
            for (int d = -1; d <= 1; ++d) {
                i128 q = m * w + d;
                if (m < 0 || m > mmax || q < 0 || q > top) {
                    continue;
                }
                const T code = static_cast<T>(q + l.kmin);
                std::vector<T> e(n);
                i128 rest = q;
                for (unsigned i = 0; i < n; ++i) {
                    e[i] = static_cast<T>(rest % delta + l.cmin);
                    rest /= delta;
                }
                const auto u = unp(code, n);
                c.check(u == e, "code next to a carry", [&] {
                    return cat(sizeof(T) * 8u, " bits, code ", code, " of size ", n, " decoded as ", vstr(u), ", expected ", vstr(e));
                });
                c.event("codes next to carries");
            }
        }
        w *= delta;
    }
    c.seen(c.idx);
}

} // namespace

#define TYPE(tag, T)                                                                                                   \
    VF_WORKLOAD("pack-" tag, 1000, 60000)                                                                              \
    {                                                                                                                  \
        one<T>(c);                                                                                                     \
    }                                                                                                                  \
    VF_WORKLOAD("carries-" tag, 105, 42000)                                                                            \
    {                                                                                                                  \
        carries<T>(c);                                                                                                 \
    }                                                                                                                  \
    VF_WORKLOAD("misuse-" tag, 100, 1000)                                                                              \
    {                                                                                                                  \
        misuse<T>(c);                                                                                                  \
    }
TYPE("int32", std::int32_t)
TYPE("uint32", std::uint32_t)
TYPE("int64", std::int64_t)
TYPE("uint64", std::uint64_t)

// Every code of the 32 bit types, in slices.
template <typename T>
static void sweep(Case &c)
{
    const auto n = 1u + static_cast<unsigned>(c.idx % max_size<T>);
    const auto &l = limits<T>(n);
    const u64 range = static_cast<u64>(static_cast<i64>(l.kmax) - static_cast<i64>(l.kmin)) + 1u;
    const u64 slices = 512, slice = c.idx / max_size<T>;
    const u64 b = range / slices * slice, e = slice + 1u == slices ? range : range / slices * (slice + 1u);
    u64 bad = 0;
    // Quick: a part of the slice.
    const u64 stop = c.thorough ? e : std::min(e, b + 20000u);
    for (u64 k = b; k < stop; ++k) {
        const T code = static_cast<T>(static_cast<i64>(l.kmin) + static_cast<i64>(k));
        obake::kunpacker<T> ku(code, n);
        obake::kpacker<T> kp(n);
        for (unsigned i = 0; i < n; ++i) {
            T t{};
            ku >> t;
            if (t < l.cmin || t > l.cmax) {
                ++bad;
                break;
            }
            kp << t;
        }
        bad += kp.get() != code;
    }
    rec().evals.fetch_add(stop - b, std::memory_order_relaxed);
    c.event("codes swept", stop - b);
    c.check(bad == 0, "sweep of the codes", [&] { return cat("size ", n, " slice ", slice, ": ", bad, " codes"); });
    c.seen(c.idx);
}
VF_WORKLOAD("sweep-int32", 200, 5120)
{
    sweep<std::int32_t>(c);
}
VF_WORKLOAD("sweep-uint32", 200, 5120)
{
    sweep<std::uint32_t>(c);
}
