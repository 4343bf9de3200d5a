// Archives: what is loaded is what was saved, and failures leave valid objects.
#ifndef C13_SER_HPP
#define C13_SER_HPP

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include "dump.hpp"

namespace c13k
{

// A key of our own.
struct key {
    std::string v;
    int n = 0;
    key() = default;
    explicit key(const obake::symbol_set &s) : n(static_cast<int>(s.size())) {}
    key(std::string s, int i) : v(std::move(s)), n(i) {}
    friend bool operator==(const key &x, const key &y)
    {
        return x.v == y.v && x.n == y.n;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &v;
        ar &n;
    }
};
inline std::size_t hash(const key &k)
{
    return std::hash<std::string>{}(k.v);
}
inline bool key_is_zero(const key &, const obake::symbol_set &)
{
    return false;
}
inline bool key_is_one(const key &k, const obake::symbol_set &)
{
    return k.v.empty();
}
inline bool key_is_compatible(const key &k, const obake::symbol_set &s)
{
    return k.n == static_cast<int>(s.size());
}
inline void key_stream_insert(std::ostream &os, const key &k, const obake::symbol_set &)
{
    os << k.v;
}
inline key key_merge_symbols(const key &k, const obake::symbol_idx_map<obake::symbol_set> &m, const obake::symbol_set &)
{
    auto r(k);
    for (const auto &p : m) {
        r.n += static_cast<int>(p.second.size());
    }
    return r;
}

// A tag of our own.
struct tag {
    std::string n;
    friend bool operator==(const tag &a, const tag &b)
    {
        return a.n == b.n;
    }
    friend bool operator!=(const tag &a, const tag &b)
    {
        return a.n != b.n;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &n;
    }
};

inline std::string dump_key(const key &k, std::size_t)
{
    return vf::cat(k.v, "/", k.n);
}
inline std::string dump_tag(const tag &t)
{
    return t.n;
}

} // namespace c13k

namespace c13
{

using namespace vf;

template <typename S>
struct Snap {
    std::string d;
    unsigned seg;
    explicit Snap(const S &s) : d(dump(s)), seg(s.get_s_size()) {}
    bool operator==(const Snap &o) const
    {
        return d == o.d && seg == o.seg;
    }
    std::string str() const
    {
        return cat("2^", seg, " ", d.substr(0, 700));
    }
};

template <typename S>
inline bool same(Case &c, const S &s, const Snap<S> &e, const char *key)
{
    if (!check_invariants(c, s, key)) {
        return false;
    }
    const Snap<S> g(s);
    return c.check(g == e, key, [&] { return cat("got ", g.str(), " expected ", e.str()); });
}

// ---- Archives.
template <typename F>
inline std::string saved(bool bin, F f)
{
    std::ostringstream oss;
    if (bin) {
        boost::archive::binary_oarchive ar(oss);
        f(ar);
    } else {
        boost::archive::text_oarchive ar(oss);
        f(ar);
    }
    return oss.str();
}
template <typename F>
inline void loading(bool bin, const std::string &s, F f)
{
    std::istringstream iss(s);
    if (bin) {
        boost::archive::binary_iarchive ar(iss);
        f(ar);
    } else {
        boost::archive::text_iarchive ar(iss);
        f(ar);
    }
}

struct io_failure {
};

// Fail once n characters were transferred.
struct failing_buf : std::streambuf {
    std::string data;
    std::size_t pos = 0, n;
    failing_buf(std::string d, std::size_t l) : data(std::move(d)), n(l) {}
    std::streamsize xsgetn(char *p, std::streamsize k) override
    {
        std::streamsize i = 0;
        for (; i < k; ++i) {
            if (pos >= n) {
                throw io_failure{};
            }
            if (pos >= data.size()) {
                break;
            }
            p[i] = data[pos++];
        }
        return i;
    }
    int_type underflow() override
    {
        if (pos >= n) {
            throw io_failure{};
        }
        return pos < data.size() ? traits_type::to_int_type(data[pos]) : traits_type::eof();
    }
    int_type uflow() override
    {
        const auto r = underflow();
        ++pos;
        return r;
    }
    std::streamsize xsputn(const char *p, std::streamsize k) override
    {
        for (std::streamsize i = 0; i < k; ++i) {
            overflow(traits_type::to_int_type(p[i]));
        }
        return k;
    }
    int_type overflow(int_type ch) override
    {
        if (pos >= n) {
            throw io_failure{};
        }
        ++pos;
        data.push_back(static_cast<char>(ch));
        return ch;
    }
};

// ---- Generation.
template <typename S>
inline void rnd_tag(Rng &, S &)
{
}
template <typename K, typename C>
inline void rnd_tag(Rng &r, obake::p_series<K, C> &s)
{
    const auto lo = std::is_signed_v<typename K::value_type> ? -3 : 0;
    switch (r.below(3)) {
        case 0:
            break;
        case 1:
            obake::set_truncation(s, r.range(lo, 12));
            break;
        default: {
            Syms t;
            for (const auto &x : pool()) {
                if (r.chance(1, 4)) {
                    t.insert(x);
                }
            }
            obake::set_truncation(s, r.range(lo, 12), to_ss(t));
        }
    }
}
template <typename K, typename C>
inline void rnd_tag(Rng &r, obake::series<K, C, c13k::tag> &s)
{
    s.tag().n = r.chance(1, 4) ? std::string() : std::string(r.below(40), static_cast<char>('a' + r.below(26)));
}

template <typename S>
struct maker {
    static S make(Rng &r, unsigned max_terms, unsigned max_syms)
    {
        using K = obake::series_key_t<S>;
        using C = obake::series_cf_t<S>;
        S ret;
        if constexpr (std::is_same_v<K, c13k::key>) {
            ret.set_symbol_set(to_ss(gen_syms(r, GenCfg{})));
            ret.set_n_segments(static_cast<unsigned>(r.below(5)));
            const auto n = static_cast<int>(ret.get_symbol_set().size());
            for (auto i = r.below(max_terms + 1u); i > 0u; --i) {
                std::string v(r.below(30), static_cast<char>(r.below(256)));
                v += std::to_string(r.below(1000));
                ret.add_term(K(std::move(v), n), C(static_cast<int>(r.range(1, 9))));
            }
        } else {
            using T = typename K::value_type;
            GenCfg g;
            g.max_terms = max_terms;
            g.max_syms = max_syms;
            g.max_log2_seg = 6;
            g.dyadic = true;
            g.emin = std::is_signed_v<T> && r.chance(1, 2) ? -4 : 0;
            if constexpr (is_series_v<C>) {
                ret.set_symbol_set(to_ss(gen_syms(r, g)));
                ret.set_n_segments(static_cast<unsigned>(r.below(4)));
                Syms ss;
                for (const auto &n : ret.get_symbol_set()) {
                    ss.insert(n);
                }
                std::set<Mono> used;
                for (auto i = r.below(7); i > 0u; --i) {
                    Mono m{};
                    for (const auto &x : ss) {
                        m[pool_idx(x)] = r.range(g.emin, g.emax);
                    }
                    auto cf = maker<C>::make(r, 6, 3);
                    if (!used.insert(m).second) {
                        // NOTE: the truncations of the coefficients may differ.
                        continue;
                    }
                    ret.add_term(make_key<K>(m, ss), std::move(cf));
                }
            } else {
                ret = std::move(gen_poly<S>(r, g).s);
                if constexpr (std::is_same_v<C, double>) {
                    // Values of all magnitudes.
                    S x;
                    x.set_symbol_set(ret.get_symbol_set());
                    x.set_n_segments(ret.get_s_size());
                    for (const auto &t : std::as_const(ret)) {
                        const int e = static_cast<int>(r.range(-1070, 1010));
                        x.add_term(t.first, std::ldexp(t.second + static_cast<double>(r.below(1u << 30)) * 1e-9 + 1e-3, e < -1000 && r.chance(1, 2) ? e : e / 20));
                    }
                    ret = std::move(x);
                }
            }
        }
        rnd_tag(r, ret);
        return ret;
    }
};

// How a fresh object looks.
template <typename S>
inline void check_cleared(Case &c, const S &s, const char *key)
{
    check_invariants(c, s, key);
    c.check(s.empty() && s.begin() == s.end() && s.get_symbol_set().empty() && dump_tag(s.tag()) == dump_tag(S{}.tag()), key,
            [&] { return cat("left with ", dump(s).substr(0, 500)); });
}

// The object just loaded works as the original one does.
template <typename S>
inline void usable(Case &c, const S &s0, S &s1, const std::string &d0)
{
    c.check(s0 == s1 && s1 == s0 && !(s0 != s1), "the loaded object differs from the original", [&] { return d0.substr(0, 500); });
    for (const auto &t : s0) {
        const auto it = s1.find(t.first);
        if (!c.check(it != s1.end() && dump(it->second) == dump(t.second), "a loaded term cannot be found", [&] { return d0.substr(0, 500); })) {
            return;
        }
    }
    if constexpr (!std::is_same_v<obake::series_cf_t<S>, double>) {
        const S twice = s0 + s0;
        check_invariants(c, s0 + s1, "sum with a loaded object");
        c.check(s0 + s1 == twice && s1 + s0 == twice && s1 + s1 == twice, "sum with a loaded object", [&] { return d0.substr(0, 500); });
        c.check((s1 - s0).empty() && (s0 - s1).empty(), "difference from a loaded object", [&] { return d0.substr(0, 500); });
        if (c.rng.chance(1, 2)) {
            // Take away everything, term by term.
            for (const auto &t : s0) {
                auto x = t.second;
                obake::negate(x);
                s1.add_term(t.first, x);
            }
            c.check(s1.empty(), "terms added to a loaded object", [&] { return d0.substr(0, 500); });
        } else {
            s1 -= s0;
            c.check(s1.empty(), "in-place difference from a loaded object", [&] { return d0.substr(0, 500); });
        }
    }
}

template <typename S>
inline void roundtrip(Case &c, unsigned max_terms, unsigned max_syms)
{
    auto &r = c.rng;
    const auto make = [&] { return maker<S>::make(r, r.chance(1, 40) ? max_terms * 20u : max_terms, max_syms); };
    const bool bin = r.chance(1, 2);
    const auto how = r.below(6);
    std::vector<S> v;
    for (auto n = r.range(1, 4); n > 0; --n) {
        if (!v.empty() && r.chance(1, 4)) {
            v.push_back(v[r.below(v.size())]);
        } else {
            v.push_back(make());
        }
    }
    std::vector<Snap<S>> e(v.begin(), v.end());
    c.seen(cat(how, bin, [&] {
        std::string s;
        for (const auto &x : e) {
            s += x.d;
        }
        return s;
    }()));
    c.sample(cat(bin ? "binary" : "text", " way ", how, " ", e[0].str()));
    std::vector<S> w;
    for (std::size_t i = 0; i < v.size(); ++i) {
        w.push_back(r.chance(1, 2) ? make() : S{});
    }
    const auto fit = [&] { return c.check(w.size() == v.size(), "number of loaded objects", [&] { return cat(w.size(), " of ", v.size()); }); };
    switch (how) {
        case 0: {
            // One by one, with other data in between.
            const auto a = saved(bin, [&](auto &ar) {
                int n = 0;
                for (const auto &s : v) {
                    ar << s;
                    const std::string m = "mark";
                    ar << n << m;
                    ++n;
                }
            });
            // Twice, from the same archive.
            for (int k = 0; k < 2; ++k) {
                loading(bin, a, [&](auto &ar) {
                    int n = -1, i = 0;
                    std::string m;
                    for (auto &s : w) {
                        ar >> s;
                        ar >> n >> m;
                        c.check(n == i++ && m == "mark", "data after a series");
                    }
                });
            }
            break;
        }
        case 1: {
            const auto a = saved(bin, [&](auto &ar) { ar << std::as_const(v); });
            if (r.chance(1, 2)) {
                w.clear();
            }
            loading(bin, a, [&](auto &ar) { ar >> w; });
            fit();
            break;
        }
        case 2: {
            std::map<int, S> m;
            std::map<int, S> m2;
            for (std::size_t i = 0; i < v.size(); ++i) {
                m.emplace(static_cast<int>(i), v[i]);
                m2.emplace(static_cast<int>(i * 2), w[i]);
            }
            const auto a = saved(bin, [&](auto &ar) { ar << std::as_const(m); });
            loading(bin, a, [&](auto &ar) { ar >> m2; });
            w.clear();
            for (auto &p : m2) {
                w.push_back(std::move(p.second));
            }
            fit();
            break;
        }
        case 3: {
            const auto a = saved(bin, [&](auto &ar) {
                for (const auto &s : v) {
                    const auto p = std::make_pair(s, s);
                    ar << p;
                }
            });
            loading(bin, a, [&](auto &ar) {
                for (std::size_t i = 0; i < w.size(); ++i) {
                    std::pair<S, S> p(make(), S{});
                    ar >> p;
                    same(c, p.second, e[i], "second of a pair");
                    w[i] = std::move(p.first);
                }
            });
            break;
        }
        case 4: {
            // The same object, which takes the various values in turn.
            const auto a = saved(bin, [&](auto &ar) {
                S x;
                const S &y = x;
                const S *const p = &x;
                for (const auto &s : v) {
                    x = s;
                    ar << y;
                    ar << p;
                    auto ss = x.get_symbol_set();
                    const obake::symbol_set &css = ss;
                    ar << css;
                }
            });
            loading(bin, a, [&](auto &ar) {
                for (std::size_t i = 0; i < w.size(); ++i) {
                    S *p = nullptr;
                    ar >> w[i];
                    ar >> p;
                    std::unique_ptr<S> guard(p);
                    same(c, *p, e[i], "loaded through a pointer");
                    obake::symbol_set ss{"zzzz"};
                    ar >> ss;
                    c.check(ss == v[i].get_symbol_set(), "symbol set");
                }
            });
            break;
        }
        default: {
            const auto a = saved(bin, [&](auto &ar) {
                for (const auto &s : v) {
                    const auto p = std::make_unique<S>(s);
                    ar << p;
                }
            });
            loading(bin, a, [&](auto &ar) {
                for (auto &x : w) {
                    std::unique_ptr<S> p;
                    ar >> p;
                    x = std::move(*p);
                }
            });
        }
    }
    c.event("objects saved and loaded", v.size());
    for (std::size_t i = 0; i < v.size() && i < w.size(); ++i) {
        same(c, v[i], e[i], "saved object");
        if (same(c, w[i], e[i], "loaded object")) {
            usable(c, v[i], w[i], e[i].d);
        }
        c.event(e[i].seg ? "series of several segments" : "series of one segment");
        c.event("terms", v[i].size());
    }
}

// Archives which end, or break, at any point.
template <typename S>
inline void broken(Case &c, unsigned max_terms, unsigned max_syms)
{
    auto &r = c.rng;
    const S v = maker<S>::make(r, max_terms, max_syms);
    const Snap<S> e(v);
    c.seen(e.d);
    // NOTE: Boost's text archives do not notice, in general, that they are incomplete.
    const bool bin = true;
    const auto a = saved(bin, [&](auto &ar) { ar << v; });
    const auto head = saved(bin, [](auto &) {}).size();
    std::vector<std::size_t> cuts;
    if (a.size() - head < (c.thorough ? 600u : 60u)) {
        for (auto i = head; i < a.size(); ++i) {
            cuts.push_back(i);
        }
    } else {
        for (int i = 0; i < (c.thorough ? 200 : 40); ++i) {
            cuts.push_back(head + r.below(a.size() - head));
        }
    }
    for (const auto n : cuts) {
        S w;
        if (r.chance(1, 2)) {
            w = maker<S>::make(r, 4, max_syms);
        }
        const Snap<S> we(w);
        bool opened = false, threw = false;
        const bool stop = r.chance(1, 2);
        try {
            if (stop) {
                // An error while reading.
                failing_buf b(a, n);
                boost::archive::binary_iarchive ar(b);
                opened = true;
                ar >> w;
            } else {
                // The archive ends.
                loading(bin, a.substr(0, n), [&](auto &ar) {
                    opened = true;
                    ar >> w;
                });
            }
        } catch (const io_failure &) {
            threw = true;
        } catch (const std::exception &) {
            threw = true;
        }
        const auto ctx = [&] { return cat(n, " of ", a.size(), ": ", e.str()); };
        if (!opened) {
            same(c, w, we, "object whose archive could not be opened");
            continue;
        }
        if (c.check(threw, "an incomplete archive was accepted", ctx)) {
            c.event("incomplete archives refused");
            if (Snap<S>(w) == we) {
                // The load had not begun.
                c.event("failures before the load");
                continue;
            }
            check_cleared(c, w, "object left by a failed load");
            c.check(w == S{}, "object left by a failed load differs from a new one", ctx);
            // It works as any other.
            if (r.chance(1, 4)) {
                if (r.chance(1, 2)) {
                    loading(bin, a, [&](auto &ar) { ar >> w; });
                    if (same(c, w, e, "second load")) {
                        usable(c, v, w, e.d);
                    }
                } else {
                    w = v;
                    same(c, w, e, "assignment after a failed load");
                }
                c.event("second attempts");
            }
        }
    }
    // Failures while saving.
    for (int i = 0; i < 6; ++i) {
        const auto n = head + r.below(a.size() - head);
        bool threw = false;
        try {
            failing_buf b("", n);
            boost::archive::binary_oarchive ar(b);
            ar << v;
        } catch (...) {
            threw = true;
        }
        c.check(threw, "failure to save not reported");
        c.event("failures to save");
        same(c, v, e, "object which could not be saved");
    }
}

// Symbol sets and monomials by themselves.
inline std::string weird(Rng &r)
{
    static const std::vector<std::string> v{"", " ", "\n", "x\ny", "1", "12 3", std::string(1, '\0'), std::string("a\0b", 3), "\xc3\xa9t\xc3\xa9",
                                            std::string(300, 'q'), "x", "X", "x ", " x", "-1", "0", "{}", "\"'<>&"};
    if (r.chance(1, 3)) {
        std::string s(r.below(6), ' ');
        for (auto &ch : s) {
            ch = static_cast<char>(r.below(256));
        }
        return s;
    }
    return r.pick(v);
}

template <typename K>
inline void monomials(Case &c)
{
    auto &r = c.rng;
    using T = typename K::value_type;
    const bool bin = r.chance(1, 2);
    constexpr bool dyn = requires(K k) { k._container(); };
    std::vector<K> v, w;
    std::vector<std::vector<T>> x;
    std::string d;
    for (auto n = r.range(1, 6); n > 0; --n) {
        const auto ns = r.below(dyn ? 20 : sizeof(T) == 8u ? 8 : 4);
        std::vector<T> e;
        for (u64 i = 0; i < ns; ++i) {
            // For the packed ones, what fits in any size used here.
            e.push_back(static_cast<T>(r.range(std::is_signed_v<T> ? -60 : 0, 60)));
        }
        v.push_back(K(e.begin(), e.end()));
        x.push_back(e);
        if (r.chance(1, 2)) {
            w.push_back(K(e.begin(), e.begin() + static_cast<long>(r.below(e.size() + 1u))));
        } else {
            w.emplace_back();
        }
        for (auto k : e) {
            d += std::to_string(static_cast<long long>(k)) + ",";
        }
        d += ";";
    }
    c.seen(d);
    c.sample(d);
    const auto orig(v);
    std::string a;
    if (r.chance(1, 2)) {
        a = saved(bin, [&](auto &ar) {
            for (const auto &k : v) {
                ar << k;
            }
        });
        loading(bin, a, [&](auto &ar) {
            for (auto &k : w) {
                ar >> k;
            }
        });
    } else {
        a = saved(bin, [&](auto &ar) { ar << std::as_const(v); });
        loading(bin, a, [&](auto &ar) { ar >> w; });
    }
    c.check(v == orig, "saved monomials");
    if (c.check(w.size() == v.size(), "number of monomials")) {
        for (std::size_t i = 0; i < v.size(); ++i) {
            const auto ctx = [&] { return d; };
            c.check(w[i] == v[i] && obake::hash(w[i]) == obake::hash(v[i]), "loaded monomial", ctx);
            const auto u = unpack(w[i], x[i].size());
            c.check(std::equal(u.begin(), u.end(), x[i].begin(), x[i].end(), [](i128 p, T q) { return p == static_cast<i128>(q); }),
                    "exponents of a loaded monomial", ctx);
            if constexpr (dyn) {
                c.check(w[i]._container().size() == v[i]._container().size(), "size of a loaded monomial", ctx);
            }
            c.event("monomials");
        }
    }
}

template <typename S>
inline void weird_symbols(Case &c)
{
    auto &r = c.rng;
    obake::symbol_set ss, ss2;
    for (auto n = r.below(4); n > 0u; --n) {
        ss.insert(weird(r));
    }
    for (auto n = r.below(4); n > 0u; --n) {
        ss2.insert(weird(r));
    }
    const bool bin = r.chance(1, 2);
    const auto ss_orig(ss);
    {
        const auto a = saved(bin, [&](auto &ar) { ar << std::as_const(ss) << 5 << std::as_const(ss); });
        auto w1(ss2);
        obake::symbol_set w2;
        int n = 0;
        loading(bin, a, [&](auto &ar) { ar >> w1 >> n >> w2; });
        c.check(w1 == ss_orig && w2 == ss_orig && n == 5 && ss == ss_orig, "symbol sets");
        c.check(std::is_sorted(w1.begin(), w1.end()), "order of a loaded symbol set");
        for (const auto &x : ss) {
            c.check(w1.count(x) == 1u && *w1.find(x) == x, "loaded symbol");
        }
        w1.insert("a new one");
        c.check(w1.size() == ss.size() + (ss.count("a new one") ? 0u : 1u), "insertion in a loaded symbol set");
    }
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    S s;
    s.set_symbol_set(ss);
    s.set_n_segments(static_cast<unsigned>(r.below(3)));
    std::vector<T> e;
    for (std::size_t i = 0; i < ss.size(); ++i) {
        e.push_back(static_cast<T>(r.below(5)));
    }
    s.add_term(K(e.begin(), e.end()), 3);
    if (!ss.empty()) {
        e[0] = static_cast<T>(7);
        s.add_term(K(e.begin(), e.end()), -4);
    }
    rnd_tag(r, s);
    const Snap<S> ex(s);
    c.seen(ex.d);
    S w;
    const auto a = saved(bin, [&](auto &ar) { ar << std::as_const(s); });
    loading(bin, a, [&](auto &ar) { ar >> w; });
    if (same(c, w, ex, "series with strange symbols")) {
        usable(c, s, w, ex.d);
    }
    c.event("series with strange symbols");
}

} // namespace c13

#define C13_TYPE(name, S, terms, syms)                                                                                 \
    VF_WORKLOAD("roundtrip-" name, 400, 20000)                                                                         \
    {                                                                                                                  \
        c13::roundtrip<S>(c, terms, syms);                                                                             \
    }                                                                                                                  \
    VF_WORKLOAD("broken-" name, 40, 1500)                                                                              \
    {                                                                                                                  \
        c13::broken<S>(c, 6, syms);                                                                                    \
    }

#endif
