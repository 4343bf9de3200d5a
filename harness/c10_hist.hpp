// Histories of operations over the containers of terms, mirrored by plain maps.
#include "polyk.hpp"
#include "zmod.hpp"

#include <obake/math/negate.hpp>

#include <numeric>

// A key with a hash of our choice, zeroes and incompatible values.
namespace hk
{

template <int Mode>
struct hkey {
    int a = 0, n = 0;
    hkey() = default;
    explicit hkey(const obake::symbol_set &s) : n(static_cast<int>(s.size())) {}
    hkey(int x, int y) : a(x), n(y) {}
    friend bool operator==(const hkey &x, const hkey &y)
    {
        return x.a == y.a && x.n == y.n;
    }
};
template <int M>
inline std::size_t hash(const hkey<M> &k)
{
    const auto a = static_cast<std::size_t>(static_cast<unsigned>(k.a));
    if constexpr (M == 0) {
        return 42;
    } else if constexpr (M == 1) {
        return a;
    } else {
        return a << 50;
    }
}
template <int M>
inline bool key_is_zero(const hkey<M> &k, const obake::symbol_set &)
{
    return k.a % 11 == 7;
}
template <int M>
inline bool key_is_one(const hkey<M> &k, const obake::symbol_set &)
{
    return k.a == 0;
}
template <int M>
inline bool key_is_compatible(const hkey<M> &k, const obake::symbol_set &s)
{
    return k.n == static_cast<int>(s.size());
}
template <int M>
inline void key_stream_insert(std::ostream &os, const hkey<M> &k, const obake::symbol_set &)
{
    os << k.a;
}

template <int M>
inline hkey<M> key_merge_symbols(const hkey<M> &k, const obake::symbol_idx_map<obake::symbol_set> &m,
                                 const obake::symbol_set &)
{
    auto r(k);
    for (const auto &p : m) {
        r.n += static_cast<int>(p.second.size());
    }
    return r;
}

struct tag_t {
    int n = 0;
    friend bool operator==(const tag_t &a, const tag_t &b)
    {
        return a.n == b.n;
    }
    friend bool operator!=(const tag_t &a, const tag_t &b)
    {
        return a.n != b.n;
    }
};

} // namespace hk

namespace c10
{

using namespace vf;

// ---- What differs between the types of keys.
template <int M>
inline std::vector<i64> value_of(const hk::hkey<M> &k, std::size_t)
{
    return {k.a};
}
template <typename K>
inline std::vector<i64> value_of(const K &k, std::size_t n)
{
    const auto u = unpack(k, n);
    return std::vector<i64>(u.begin(), u.end());
}

template <typename K>
struct keys {
    static K gen(Rng &r, std::size_t n)
    {
        using T = typename K::value_type;
        std::vector<T> v;
        for (std::size_t i = 0; i < n; ++i) {
            v.push_back(static_cast<T>(r.range(0, n > 2 ? 2 : 5)));
        }
        return K(v.begin(), v.end());
    }
    static bool incompatible(Rng &r, std::size_t n, K &out)
    {
        using T = typename K::value_type;
        if constexpr (std::is_same_v<K, pm_t<T>>) {
            if (n) {
                return false;
            }
            out = K({T(3)});
        } else {
            std::vector<T> v(n + 8u + r.below(3), T(1));
            out = K(v.begin(), v.end());
        }
        return true;
    }
};
template <int M>
struct keys<hk::hkey<M>> {
    static hk::hkey<M> gen(Rng &r, std::size_t n)
    {
        return {static_cast<int>(r.range(0, 40)), static_cast<int>(n)};
    }
    static bool incompatible(Rng &r, std::size_t n, hk::hkey<M> &out)
    {
        out = {static_cast<int>(r.range(0, 40)), static_cast<int>(n + 1 + r.below(2))};
        return true;
    }
};

template <typename C>
inline Q cfq(const C &c)
{
    if constexpr (std::is_same_v<C, zmod<5>>) {
        return Q(c.v);
    } else {
        return to_q(c);
    }
}
template <typename C>
inline Q canon(const Q &q)
{
    if constexpr (std::is_same_v<C, zmod<5>>) {
        return Q(static_cast<int>(mpz_fdiv_ui(q.get_num().get_mpz_t(), 5)));
    } else {
        return q;
    }
}
template <typename C>
inline C mkcf(long n)
{
    if constexpr (std::is_same_v<C, zmod<5>>) {
        return C(static_cast<int>(n));
    } else {
        return from_q<C>(Q(n));
    }
}

template <typename Tag>
inline int tag_n(const Tag &t)
{
    if constexpr (std::is_same_v<Tag, hk::tag_t>) {
        return t.n;
    } else {
        return 0;
    }
}

struct M {
    std::map<std::vector<i64>, Q> t;
    Syms ss;
    unsigned seg = 0;
    int tag = 0;
};

template <typename S>
inline bool same(Case &c, const S &s, const M &m, const std::string &log)
{
    using C = obake::series_cf_t<S>;
    bool ok = true;
    const auto chk = [&](bool b, const char *key) {
        ok = c.check(b, key, [&] { return log; }) && ok;
        return b;
    };
    chk(syms_of(s) == m.ss, "symbols");
    chk(s.get_s_size() == m.seg, "number of segments");
    chk(tag_n(s.tag()) == m.tag, "tag");
    chk(s.size() == m.t.size(), "size");
    chk(s.empty() == m.t.empty(), "emptiness");
    chk(obake::is_zero(s) == m.t.empty(), "zero test");
    std::map<std::vector<i64>, Q> got;
    std::size_t n = 0;
    for (const auto &t : s) {
        ++n;
        chk(got.emplace(value_of(t.first, m.ss.size()), cfq(t.second)).second, "the same term met twice");
        const auto it = s.find(t.first);
        chk(it != s.end() && &*it == &t, "a term cannot be found");
        if (n > 100000u) {
            break;
        }
    }
    chk(got == m.t, "terms");
    chk(n == m.t.size(), "number of terms met");
    bool single = m.t.empty();
    if (m.t.size() == 1u) {
        const auto &v = m.t.begin()->first;
        single = std::all_of(v.begin(), v.end(), [](i64 x) { return x == 0; });
    }
    chk(s.is_single_cf() == single, "single coefficient test");
    if constexpr (!std::is_same_v<C, zmod<5>>) {
        try {
            const auto q = static_cast<C>(s);
            chk(single && cfq(q) == (m.t.empty() ? Q(0) : m.t.begin()->second), "conversion to the coefficient type");
        } catch (const std::invalid_argument &) {
            chk(!single, "conversion to the coefficient type refused");
        }
    }
    return ok;
}

template <typename S>
inline void iterators(Case &c, S &s, const std::string &log)
{
    const auto &cs = s;
    std::vector<const void *> a, b, d;
    for (auto it = s.begin(); it != s.end(); it++) {
        a.push_back(&*it);
    }
    for (auto it = cs.begin(); it != cs.end(); ++it) {
        b.push_back(&*it);
    }
    typename S::const_iterator it(s.begin()), e(s.end());
    c.check(it == cs.cbegin() && e == cs.cend(), "conversion of iterators", [&] { return log; });
    for (; it != e; ++it) {
        d.push_back(&*it);
    }
    c.check(a == b && b == d, "iteration", [&] { return log; });
    c.check(static_cast<std::size_t>(std::distance(s.begin(), s.end())) == s.size(), "distance", [&] { return log; });
    // Two passes over the same terms, copies of iterators.
    auto i1 = cs.begin();
    for (std::size_t n = 0; n < a.size(); ++n) {
        auto i2 = i1;
        c.check(i2 == i1 && &*i2 == a[n], "copies of iterators", [&] { return log; });
        ++i2;
        c.check(i2 != i1, "different iterators compare equal", [&] { return log; });
        i1 = i2;
    }
    c.check(i1 == cs.end(), "end of the iteration", [&] { return log; });
}

template <typename S>
inline void run(Case &c, unsigned steps)
{
    using K = obake::series_key_t<S>;
    using C = obake::series_cf_t<S>;
    using Tag = obake::series_tag_t<S>;
    auto &r = c.rng;
    constexpr unsigned N = 3;
    std::vector<S> v(N);
    std::vector<M> m(N);
    std::string log;
    static const std::vector<std::string> names{"a", "b", "x", "y", "z"};
    const auto set_syms = [&](unsigned i) {
        Syms ss;
        for (u64 j = 0, n = r.below(4); j < n; ++j) {
            ss.insert(r.pick(names));
        }
        log += cat(" set_symbol_set ", i, sstr(ss));
        try {
            if (r.chance(1, 2)) {
                v[i].set_symbol_set(to_ss(ss));
            } else {
                S tmp;
                tmp.set_symbol_set(to_ss(ss));
                v[i].set_symbol_set_fw(tmp.get_symbol_set_fw());
            }
            c.check(m[i].t.empty(), "symbol set changed under the terms", [&] { return log; });
            m[i].ss = ss;
        } catch (const std::invalid_argument &) {
            c.check(!m[i].t.empty(), "symbol set refused", [&] { return log; });
            c.event("changes of symbols refused");
        }
    };
    for (unsigned i = 0; i < N; ++i) {
        set_syms(i);
    }
    for (unsigned st = 0; st < steps; ++st) {
        const auto i = static_cast<unsigned>(r.below(N)), j = static_cast<unsigned>(r.below(N));
        auto &s = v[i];
        auto &x = m[i];
        const auto n = x.ss.size();
        switch (r.below(22)) {
            default: {
                // Insertion of some terms.
                const auto cnt = 1 + r.below(r.chance(1, 6) ? 60 : 6);
                for (u64 q = 0; q < cnt; ++q) {
                    const auto k = keys<K>::gen(r, n);
                    const auto val = value_of(k, n);
                    long cf = r.range(-3, 3);
                    const bool sign = r.chance(2, 3);
                    // Cancel an existing term now and then.
                    const auto it = x.t.find(val);
                    if (it != x.t.end() && r.chance(1, 2)) {
                        cf = it->second.get_num().get_si() * (sign ? -1 : 1);
                    }
                    log += cat(" ", i, sign ? "+=" : "-=", cf, "@", val.empty() ? -1 : val[0]);
                    const int how = static_cast<int>(r.below(3));
                    K kk(k);
                    const C cc = mkcf<C>(cf);
                    const auto go = [&](auto sg) {
                        constexpr bool sgn = decltype(sg)::value;
                        if (how == 0) {
                            s.template add_term<sgn>(k, cc);
                        } else if (how == 1) {
                            s.template add_term<sgn>(std::move(kk), mkcf<C>(cf));
                        } else {
                            // Arguments to construct the coefficient from.
                            s.template add_term<sgn>(k, static_cast<int>(cf));
                        }
                    };
                    if (sign) {
                        go(std::true_type{});
                    } else {
                        go(std::false_type{});
                    }
                    if (!obake::key_is_zero(k, s.get_symbol_set())) {
                        auto &y = x.t[val];
                        y = canon<C>(Q(y + (sign ? Q(cf) : Q(-cf))));
                        if (y == 0) {
                            x.t.erase(val);
                            c.event("terms which vanish");
                        }
                    } else {
                        c.event("zero keys");
                    }
                    c.event("insertions");
                }
                break;
            }
            case 9: {
                K k;
                if (keys<K>::incompatible(r, n, k)) {
                    log += cat(" incompatible@", i);
                    try {
                        s.add_term(k, mkcf<C>(1));
                        c.check(false, "incompatible key accepted", [&] { return log; });
                    } catch (const std::invalid_argument &) {
                        c.event("incompatible keys refused");
                    }
                }
                break;
            }
            case 10: {
                // Lookup, in a const and in a mutable series.
                const auto k = keys<K>::gen(r, n);
                const auto val = value_of(k, n);
                const bool there = x.t.count(val) > 0u;
                const auto it = s.find(k);
                const auto cit = std::as_const(s).find(k);
                log += cat(" find@", i);
                c.check((it != s.end()) == there && (cit != std::as_const(s).end()) == there, "lookup", [&] { return log; });
                if (there && it != s.end()) {
                    c.check(&*it == &*cit && value_of(it->first, n) == val, "lookup of the wrong term", [&] { return log; });
                    it->second = mkcf<C>(1);
                    x.t[val] = 1;
                    // The iteration goes on from the term found.
                    std::size_t left = 0, after = 0;
                    bool on = false;
                    for (auto p = it; p != s.end(); ++p) {
                        ++left;
                    }
                    for (auto p = s.begin(); p != s.end(); ++p) {
                        on = on || p == it;
                        after += on ? 1u : 0u;
                    }
                    c.check(on && left == after, "iteration from a term found", [&] { return log; });
                    c.event("terms found");
                } else {
                    c.event("terms not found");
                }
                break;
            }
            case 11:
                log += cat(" clear_terms@", i);
                s.clear_terms();
                x.t.clear();
                break;
            case 12:
                log += cat(" clear@", i);
                s.clear();
                x = M{{}, {}, x.seg, 0};
                if (r.chance(2, 3)) {
                    set_syms(i);
                }
                break;
            case 13: {
                const auto l = static_cast<unsigned>(r.below(6));
                log += cat(" set_n_segments ", i, ",", l);
                s.set_n_segments(l);
                x.t.clear();
                x.seg = l;
                break;
            }
            case 14: {
                log += cat(" too many segments@", i);
                try {
                    s.set_n_segments(S::get_max_s_size() + 1u + static_cast<unsigned>(r.below(3)));
                    c.check(false, "too many segments accepted", [&] { return log; });
                } catch (const std::invalid_argument &) {
                    c.event("too many segments refused");
                }
                break;
            }
            case 15:
                log += cat(" reserve@", i);
                s.reserve(r.below(300));
                break;
            case 16:
                set_syms(i);
                break;
            case 17: {
                const auto sel = r.next();
                const auto f = [&](const auto &t) { return (mix64(static_cast<u64>(t.second == mkcf<C>(1)) + sel) & 1u) != 0u; };
                log += cat(" filter@", i);
                M y(x);
                y.t.clear();
                for (const auto &[k, q] : x.t) {
                    if ((mix64(static_cast<u64>(q == 1) + sel) & 1u) != 0u) {
                        y.t[k] = q;
                    }
                }
                const auto w = obake::filtered(s, f);
                same(c, w, y, log + " (filtered)");
                same(c, s, x, log + " (operand of filtered)");
                if (r.chance(1, 2)) {
                    obake::filter(s, f);
                    x = y;
                }
                c.event("filterings");
                break;
            }
            case 18: {
                const auto how = r.below(7);
                log += cat(" assign", how, "(", i, ",", j, ")");
                c.event("copies and moves");
                if (how == 0) {
                    v[j] = v[i];
                    m[j] = m[i];
                } else if (how == 1) {
                    S t(v[i]);
                    M tm(m[i]);
                    v[j] = std::move(t);
                    m[j] = tm;
                    // A moved-from series can be assigned to.
                    t = v[(i + 1) % N];
                    same(c, t, m[(i + 1) % N], log + " (moved-from)");
                } else if (how == 2) {
                    S t(std::move(v[i]));
                    same(c, t, m[i], log + " (moved)");
                    v[i] = std::move(t);
                } else if (how == 3) {
                    v[i].swap(v[j]);
                    std::swap(m[i], m[j]);
                } else if (how == 4) {
                    using std::swap;
                    swap(v[i], v[j]);
                    std::swap(m[i], m[j]);
                } else if (how == 5) {
                    auto &t = v[i];
                    v[i] = t;
                } else {
                    S t(v[i]);
                    same(c, t, m[i], log + " (copy)");
                    t.clear_terms();
                }
                break;
            }
            case 19: {
                log += cat(" negate@", i);
                auto y(x);
                for (auto &p : y.t) {
                    p.second = canon<C>(Q(-p.second));
                }
                if (r.chance(1, 2)) {
                    same(c, -s, y, log + " (minus)");
                    same(c, +s, x, log + " (plus)");
                    same(c, -S(s), y, log + " (minus a temporary)");
                } else {
                    obake::negate(s);
                    x = y;
                }
                break;
            }
            case 20: {
                log += cat(" compare(", i, ",", j, ")");
                if (m[i].ss == m[j].ss) {
                    const bool eq = m[i].t == m[j].t && m[i].tag == m[j].tag;
                    c.check((v[i] == v[j]) == eq && (v[j] == v[i]) == eq && (v[i] != v[j]) == !eq, "comparison", [&] { return log; });
                    c.event("comparisons");
                }
                c.check(v[i] == S(v[i]), "comparison with a copy", [&] { return log; });
                if constexpr (std::is_same_v<Tag, hk::tag_t>) {
                    v[i].tag().n = m[i].tag = static_cast<int>(r.below(3));
                }
                break;
            }
            case 21: {
                std::istringstream iss(s.table_stats());
                std::string line;
                std::vector<unsigned long long> nums;
                while (std::getline(iss, line) && nums.size() < 2u) {
                    nums.push_back(std::stoull(line.substr(line.rfind(':') + 1)));
                }
                c.check(nums.size() == 2u && nums[0] == x.t.size() && nums[1] == (1ull << x.seg), "statistics", [&] { return log; });
                iterators(c, s, log);
                c.event("iterations");
                break;
            }
        }
        if (!same(c, s, x, log) || (j != i && !same(c, v[j], m[j], log))) {
            return;
        }
    }
    for (unsigned i = 0; i < N; ++i) {
        same(c, v[i], m[i], log);
        iterators(c, v[i], log);
    }
    c.seen(hash_str(log));
    c.sample(log);
}

} // namespace c10
