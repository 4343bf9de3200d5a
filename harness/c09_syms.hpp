// Symbol sets: merging, extension, trimming, generators, with arbitrary names.
#include "nmp.hpp"

#include <obake/math/trim.hpp>

namespace c09
{

using namespace vf;

// Names which differ little from each other.
inline std::string gen_name(Rng &r)
{
    static const std::vector<std::string> v{"x", "y", "z", "x_{1}", "\\alpha", "\xc3\xa9", "theta", "X", "0", "~", ""};
    switch (r.below(6)) {
        case 0:
            return r.pick(v);
        case 1:
            return r.pick(v) + r.pick(v);
        case 2:
            return std::string(r.below(4), 'x');
        case 3:
            return "x" + std::to_string(r.below(30));
        case 4: {
            std::string s;
            for (u64 i = 0, n = 1 + r.below(3); i < n; ++i) {
                s += static_cast<char>(1 + r.below(255));
            }
            return s;
        }
        default:
            return std::string(40, 'n') + std::to_string(r.below(8));
    }
}

inline Syms pick_syms(Rng &r, const std::vector<std::string> &names, unsigned mx)
{
    Syms s;
    for (u64 i = 0, n = r.below(mx + 1u); i < n; ++i) {
        s.insert(r.pick(names));
    }
    return s;
}

template <typename S>
struct NGen {
    S s;
    NMP m;
    Syms syms;
};

struct Cfg {
    unsigned max_syms, max_terms;
    i64 emin, emax;
};

template <typename S>
inline NGen<S> gen(Rng &r, const std::vector<std::string> &names, const Cfg &g)
{
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    NGen<S> ret;
    ret.syms = pick_syms(r, names, g.max_syms);
    ret.s.set_symbol_set(to_ss(ret.syms));
    ret.s.set_n_segments(static_cast<unsigned>(r.below(4)));
    // Some of the symbols are not in use.
    std::vector<bool> used;
    for (std::size_t i = 0; i < ret.syms.size(); ++i) {
        used.push_back(r.chance(2, 3));
    }
    for (u64 i = 0, n = r.below(g.max_terms + 1u); i < n; ++i) {
        std::vector<T> v;
        NMono m;
        std::size_t j = 0;
        for (const auto &x : ret.syms) {
            const auto e = used[j++] && r.chance(2, 3) ? r.range(g.emin, g.emax) : 0;
            v.push_back(static_cast<T>(e));
            m[x] = e;
        }
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            auto in = gen<obake::series_cf_t<S>>(r, names, Cfg{2, 3, g.emin, g.emax});
            for (const auto &[m2, q] : in.m.t) {
                ret.m.add(m + m2, q);
            }
            ret.s.add_term(K(v.begin(), v.end()), std::move(in.s));
        } else {
            const Q q(static_cast<long>(r.range(-4, 4)));
            ret.m.add(m, q);
            ret.s.add_term(K(v.begin(), v.end()), from_q<obake::series_cf_t<S>>(q));
        }
    }
    return ret;
}

// The symbols with a nonzero exponent in some key.
template <typename S>
inline Syms key_syms(const S &s)
{
    Syms r;
    const std::vector<std::string> names(s.get_symbol_set().begin(), s.get_symbol_set().end());
    for (const auto &t : s) {
        const auto u = unpack(t.first, names.size());
        for (std::size_t i = 0; i < u.size(); ++i) {
            if (u[i] != 0) {
                r.insert(names[i]);
            }
        }
    }
    return r;
}

inline std::string names_str(const Syms &s)
{
    std::string r;
    for (const auto &x : s) {
        r += "'" + x + "' ";
    }
    return r;
}

template <typename S>
inline void trimmed(Case &c, const S &s, const char *where)
{
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        for (const auto &t : s) {
            c.check(syms_of(t.second) == key_syms(t.second), "useless symbols in a trimmed coefficient", [&] { return where; });
        }
    }
}

template <typename S>
inline void run(Case &c, const Cfg &g, bool can_multiply)
{
    auto &r = c.rng;
    std::vector<std::string> names;
    for (unsigned i = 0; i < 3u * g.max_syms + 2u; ++i) {
        names.push_back(gen_name(r));
    }
    const auto eq = [&](const S &s, const NMP &m, const char *key, const std::string &ctx) {
        if (check_invariants(c, s, key)) {
            const auto sm = to_nmp(s);
            c.check(sm == m, key, [&] { return ctx + " got " + nstr(sm) + " expected " + nstr(m); });
        }
    };
    for (int rep = 0; rep < 4; ++rep) {
        auto p = gen<S>(r, names, g), q = gen<S>(r, names, g);
        const auto ctx = cat(nstr(p.m), " [", names_str(p.syms), "] and ", nstr(q.m), " [", names_str(q.syms), "]");
        c.seen(hash_str(ctx));
        eq(p.s, p.m, "construction", ctx);
        const auto both = uni(p.syms, q.syms);
        c.event("pairs of series");
        if (both != p.syms && both != q.syms) {
            c.event("pairs with symbols of their own");
        }
        if (both.size() <= g.max_syms + 2u) {
            const auto a = p.s + q.s, b = p.s - q.s;
            eq(a, p.m + q.m, "sum", ctx);
            eq(b, p.m - q.m, "difference", ctx);
            c.check(syms_of(a) == both && syms_of(b) == both, "symbols of a sum", [&] { return ctx + " got " + names_str(syms_of(a)); });
            // Commutation, also as for the symbols.
            c.check(syms_of(q.s + p.s) == both && p.s + q.s == q.s + p.s, "commutation", [&] { return ctx; });
            if (can_multiply) {
                const auto m = p.s * q.s;
                eq(m, p.m * q.m, "product", ctx);
                c.check(syms_of(m) == both, "symbols of a product", [&] { return ctx; });
            }
            S t(p.s);
            t += q.s;
            eq(t, p.m + q.m, "sum in place", ctx);
            t -= q.s;
            eq(t, p.m, "difference in place", ctx);
            t = q.s;
            t -= S(p.s);
            eq(t, q.m - p.m, "difference in place", ctx);
            t = S(q.s) + S(p.s);
            eq(t, p.m + q.m, "sum of temporaries", ctx);
            if constexpr (!is_series_v<obake::series_cf_t<S>>) {
                c.check((p.s == q.s) == (p.m == q.m) && (p.s != q.s) == !(p.m == q.m), "comparison", [&] { return ctx; });
            }
            c.check(p.s == obake::add_symbols(p.s, to_ss(q.syms)), "comparison with an extension", [&] { return ctx; });
        }
        // Extension.
        const auto more = pick_syms(r, names, 4);
        const auto ext = uni(p.syms, more);
        if (ext.size() <= g.max_syms + 2u) {
            const auto e = obake::add_symbols(p.s, to_ss(more));
            eq(e, p.m, "extension", ctx);
            c.check(syms_of(e) == ext, "symbols of an extension", [&] { return ctx + " with " + names_str(more); });
            c.event("extensions");
        }
        // Trimming.
        {
            const auto copy = p.s;
            const auto t = obake::trim(p.s);
            eq(t, p.m, "trimming", ctx);
            c.check(syms_of(t) == key_syms(p.s), "symbols left by trimming", [&] { return ctx + " got " + names_str(syms_of(t)); });
            c.check(t == p.s, "trimmed series differs", [&] { return ctx; });
            c.check(to_nmp(p.s) == to_nmp(copy) && syms_of(p.s) == p.syms, "operand of trimming modified");
            trimmed(c, t, "trim");
            const auto tt = obake::trim(t);
            c.check(syms_of(tt) == syms_of(t) && tt == t, "trimming again", [&] { return ctx; });
            if (syms_of(t) != p.syms) {
                c.event("useless symbols removed");
            }
        }
    }
    // Generators.
    if constexpr (!is_series_v<obake::series_cf_t<S>>) {
        const auto a = r.pick(names), b = r.pick(names);
        const auto one = [&](const std::string &x) {
            NMP m;
            m.add(NMono{{x, 1}}, Q(1));
            return m;
        };
        const auto v = obake::make_polynomials<S>(a, b);
        eq(v[0], one(a), "generator", a);
        eq(v[1], one(b), "generator", b);
        c.check(syms_of(v[0]) == Syms{a} && syms_of(v[1]) == Syms{b}, "symbols of a generator");
        const auto ss = pick_syms(r, names, g.max_syms);
        try {
            const auto w = obake::make_polynomials<S>(to_ss(ss), a, b.c_str());
            c.check(ss.count(a) && ss.count(b.c_str()), "generator outside of the set accepted");
            eq(w[0], one(a), "generator in a set", a);
            eq(w[1], one(b.c_str()), "generator in a set", b);
            c.check(syms_of(w[0]) == ss && syms_of(w[1]) == ss, "symbols of a generator");
            c.event("generators");
        } catch (const std::invalid_argument &) {
            c.check(!ss.count(a) || !ss.count(b.c_str()), "generator refused", [&] { return names_str(ss) + "," + a + "," + b; });
            c.event("generators refused");
        }
    }
    c.sample(names_str(Syms(names.begin(), names.end())));
}

} // namespace c09
