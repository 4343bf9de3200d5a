// Degrees, partial degrees, truncations and filtering, compared with the exponents of the terms.
#ifndef C18_DEG_HPP
#define C18_DEG_HPP

#include "dump.hpp"

#include <limits>
#include <sstream>
#include <stdexcept>

#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

namespace c18
{

using namespace vf;

// The exponents of a term, level by level (the sums of the library are made in this order).
struct Leaf {
    std::vector<std::pair<std::string, i128>> e;
};

template <typename S>
inline void leaves(const S &s, const Leaf &up, std::vector<Leaf> &out)
{
    const auto &ss = s.get_symbol_set();
    for (const auto &t : s) {
        Leaf l(up);
        const auto u = unpack(t.first, ss.size());
        for (std::size_t i = 0; i < u.size(); ++i) {
            l.e.emplace_back(*ss.nth(i), u[i]);
        }
        using C = std::decay_t<decltype(t.second)>;
        if constexpr (is_series_v<C>) {
            leaves(t.second, l, out);
        } else {
            out.push_back(std::move(l));
        }
    }
}

// The sum of the exponents, of the positive ones, of the negative ones.
struct Sums {
    i128 d = 0, pos = 0, neg = 0;
};
inline Sums sums(const Leaf &l, const Syms *sel)
{
    Sums r;
    for (const auto &[n, e] : l.e) {
        if (sel == nullptr || sel->count(n)) {
            r.d += e;
            (e > 0 ? r.pos : r.neg) += e;
        }
    }
    return r;
}

// The narrowest type in which some degree is computed.
template <typename S>
struct narrow {
    using K = typename obake::series_key_t<S>::value_type;
    static constexpr i128 lo = [] {
        i128 r = static_cast<i128>(std::numeric_limits<K>::min());
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            r = std::max(r, narrow<obake::series_cf_t<S>>::lo);
        }
        return r;
    }();
    static constexpr i128 hi = [] {
        i128 r = static_cast<i128>(std::numeric_limits<K>::max());
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            r = std::min(r, narrow<obake::series_cf_t<S>>::hi);
        }
        return r;
    }();
};

template <typename L>
inline Q lim_q(const L &l)
{
    if constexpr (std::is_integral_v<L>) {
        return Q(mpz_class(std::to_string(l)));
    } else {
        return to_q(l);
    }
}

template <typename S, typename F>
inline void judge(Case &c, const std::vector<Leaf> &ls, const Syms *sel, const F &f, const char *what, const std::string &log)
{
    // Exact maximum, and whether the sums are all representable.
    bool fits = true;
    i128 mx = 0;
    bool first = true;
    for (const auto &l : ls) {
        const auto s = sums(l, sel);
        fits = fits && s.pos <= narrow<S>::hi && s.neg >= narrow<S>::lo;
        mx = first ? s.d : std::max(mx, s.d);
        first = false;
    }
    const auto ctx = [&](i128 got) {
        return cat(what, " got ", static_cast<long long>(got), " expected ", static_cast<long long>(mx), " of ", log.substr(0, 500));
    };
    try {
        const auto d = f();
        c.check(static_cast<i128>(d) == mx, what, [&] { return ctx(static_cast<i128>(d)); });
        c.event(ls.empty() ? "degrees of nothing" : mx < 0 ? "negative degrees" : "degrees");
    } catch (const std::overflow_error &) {
        c.check(!fits, cat(what, ": spurious overflow").c_str(), [&] { return ctx(0); });
        c.event("degrees which overflow");
    }
}

template <typename S>
inline S make(Rng &r, unsigned kind)
{
    GenCfg g;
    using T = typename obake::series_key_t<S>::value_type;
    constexpr bool sgn = std::is_signed_v<T>;
    g.restrict_syms(r, 5);
    g.max_syms = std::is_same_v<obake::series_key_t<S>, pm_t<std::int32_t>> ? 3 : 4;
    g.max_terms = kind == 2 ? 300 : 7;
    g.emin = sgn && r.chance(1, 2) ? -4 : 0;
    g.emax = r.chance(1, 6) && sgn ? -1 : 5;
    g.emin = std::min(g.emin, g.emax);
    g.huge = false;
    g.max_log2_seg = 5;
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        // As in gen_rec(), for any number of levels.
        S s;
        const auto sy = gen_syms(r, g);
        s.set_symbol_set(to_ss(sy));
        s.set_n_segments(static_cast<unsigned>(r.below(4)));
        const auto n = r.below(5);
        for (u64 i = 0; i < n; ++i) {
            Mono m{};
            for (const auto &x : sy) {
                m[pool_idx(x)] = r.range(g.emin, g.emax);
            }
            s.add_term(make_key<obake::series_key_t<S>>(m, sy), make<obake::series_cf_t<S>>(r, kind == 2 ? 0 : kind));
        }
        return s;
    } else {
        return gen_poly<S>(r, g).s;
    }
}

// Exponents around the limits of the type: PSize is 1 or one symbol only.
template <typename S>
inline S make_extreme(Rng &r)
{
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    S s;
    constexpr bool packed = std::is_same_v<K, pm_t<T>>;
    const auto n = 1 + r.below(packed ? 2 : 4);
    obake::symbol_set ss;
    for (u64 i = 0; i < n; ++i) {
        ss.insert(pool()[static_cast<std::size_t>(i * 2 + r.below(2))]);
    }
    s.set_symbol_set(ss);
    const auto nt = 1 + r.below(4);
    for (u64 i = 0; i < nt; ++i) {
        std::vector<T> e;
        for (u64 k = 0; k < n; ++k) {
            const auto mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
            const T sm = static_cast<T>(r.below(4));
            switch (r.below(6)) {
                case 0:
                    e.push_back(static_cast<T>(mx - sm));
                    break;
                case 1:
                    e.push_back(static_cast<T>(mn + sm));
                    break;
                case 2:
                    e.push_back(static_cast<T>(mx / 2 + sm));
                    break;
                case 3:
                    e.push_back(static_cast<T>(mn / 2 + sm));
                    break;
                default:
                    e.push_back(sm);
            }
        }
        try {
            s.add_term(K(e.begin(), e.end()), static_cast<int>(i) + 1);
        } catch (const std::overflow_error &) {
            // Not representable in the packed types: C05, C06.
        }
    }
    return s;
}

inline Syms some_syms(Rng &r)
{
    Syms s;
    const auto n = r.below(5);
    for (u64 i = 0; i < n; ++i) {
        s.insert(r.pick(pool()));
    }
    if (r.chance(1, 12)) {
        s.insert(pool().begin(), pool().end());
    }
    return s;
}

template <typename S>
inline void same_shape(Case &c, const S &a, const S &b, const char *what)
{
    c.check(a.get_symbol_set() == b.get_symbol_set(), cat(what, ": symbols").c_str(), [&] { return dump(a) + dump(b); });
    c.check(dump_tag(a.tag()) == dump_tag(b.tag()), cat(what, ": tag").c_str(), [&] { return dump(a) + dump(b); });
}

// Keeping the terms chosen by pred (of the position in the original).
template <typename S>
inline void check_kept(Case &c, const S &got, const S &orig, const std::function<bool(const typename S::const_iterator &)> &pred, const char *what,
                       const std::string &ctx)
{
    check_invariants(c, got, what);
    same_shape(c, got, orig, what);
    std::size_t n = 0;
    for (auto it = orig.begin(); it != orig.end(); ++it) {
        const bool k = pred(it);
        n += k;
        const auto f = got.find(it->first);
        c.check((f != got.end()) == k, cat(what, k ? ": term lost" : ": term kept").c_str(),
                [&] { return cat(ctx, " term ", dump_key(it->first, orig.get_symbol_set().size()), " got ", dump(got).substr(0, 500), " from ", dump(orig).substr(0, 500)); });
        if (f != got.end()) {
            c.check(dump(f->second) == dump(it->second), cat(what, ": coefficient altered").c_str(), [&] { return ctx; });
        }
    }
    c.check(got.size() == n, cat(what, ": size").c_str(), [&] { return ctx; });
}

template <typename S>
inline void degs(Case &c)
{
    auto &r = c.rng;
    using T = typename obake::series_key_t<S>::value_type;
    constexpr bool rec = is_series_v<obake::series_cf_t<S>>;
    const unsigned kind = c.idx % 8 == 7 ? 2 : 0;
    const bool extreme = c.idx % 4 == 2;
    S s;
    if constexpr (!rec) {
        s = extreme ? make_extreme<S>(r) : make<S>(r, kind);
    } else {
        s = make<S>(r, kind);
    }
    const auto log = dump(s);
    std::vector<Leaf> ls;
    leaves(s, Leaf{}, ls);

    judge<S>(c, ls, nullptr, [&] { return obake::degree(s); }, "degree", log);
    for (int k = 0; k < 3; ++k) {
        const auto sel = some_syms(r);
        judge<S>(c, ls, &sel, [&] { return obake::p_degree(s, to_ss(sel)); }, "partial degree", cat(log, " at ", sstr(sel)));
    }
    // Wrt one symbol, and wrt. those which are not there.
    for (const auto &n : s.get_symbol_set()) {
        const Syms sel{n};
        judge<S>(c, ls, &sel, [&] { return obake::p_degree(s, obake::symbol_set{n}); }, "partial degree", cat(log, " at ", n));
    }
    c.check(obake::p_degree(s, obake::symbol_set{"none", "zzz"}) == 0, "partial degree in absent symbols", [&] { return log; });
    c.check(dump(s) == log, "operand altered", [&] { return log; });

    // Filters.
    for (int k = 0; k < 2; ++k) {
        const auto seed = r.next();
        const auto mod = 1 + r.below(4);
        const auto n = s.get_symbol_set().size();
        const auto pred = [&](const auto &t) { return mix64(seed ^ hash_str(dump_key(t.first, n))) % mod == 0u; };
        const auto f = obake::filtered(s, pred);
        check_kept<S>(c, f, s, [&](const auto &it) { return pred(*it); }, "filtered", cat("modulus ", mod));
        S g(s);
        obake::filter(g, pred);
        check_kept<S>(c, g, s, [&](const auto &it) { return pred(*it); }, "filter", cat("modulus ", mod));
        const auto h = obake::filtered(s, [&](const auto &t) { return !pred(t); });
        if constexpr (!rec) {
            S x(g);
            x += h;
            c.check(dump(x) == log, "the parts of a filter do not add up", [&] { return cat(dump(x), " instead of ", log); });
        } else {
            c.check(g.size() + h.size() == s.size(), "the parts of a filter do not add up", [&] { return log; });
        }
        c.check(dump(s) == log, "operand altered by filtered", [&] { return log; });
        c.event("filters");
        if (f.size() != 0u && f.size() != s.size()) {
            c.event("filters which keep a part");
        }
    }

    // Truncations.
    if constexpr (!rec) {
        const auto trunc = [&](auto lim, const Syms *sel, const char *what) {
            bool fits = true;
            for (const auto &l : ls) {
                const auto u = sums(l, sel);
                fits = fits && u.pos <= narrow<S>::hi && u.neg >= narrow<S>::lo;
            }
            S g(s);
            std::ostringstream oss;
            oss << lim;
            const auto ctx = cat("limit ", oss.str(), sel ? sstr(*sel) : "");
            const Q ql = lim_q(lim);
            try {
                if (sel) {
                    obake::truncate_p_degree(g, lim, to_ss(*sel));
                } else {
                    obake::truncate_degree(g, lim);
                }
            } catch (const std::overflow_error &) {
                c.check(!fits, cat(what, ": spurious overflow").c_str(), [&] { return ctx + log; });
                check_invariants(c, g, what);
                c.event("truncations which overflow");
                return;
            }
            const auto &ss = s.get_symbol_set();
            check_kept<S>(
                c, g, s,
                [&](const auto &it) {
                    i128 d = 0;
                    const auto u = unpack(it->first, ss.size());
                    for (std::size_t i = 0; i < u.size(); ++i) {
                        if (!sel || sel->count(*ss.nth(i))) {
                            d += u[i];
                        }
                    }
                    // NOTE: the degrees fit 65 bits.
                    const auto md = d < 0 ? -d : d;
                    Q qd = Q(mpz_class(std::to_string(static_cast<unsigned long long>(md >> 32)))) * Q(mpz_class("4294967296"))
                           + Q(mpz_class(std::to_string(static_cast<unsigned long long>(md & 0xffffffffu))));
                    if (d < 0) {
                        qd = -qd;
                    }
                    return qd <= ql;
                },
                what, ctx);
            c.event("truncations");
            if (g.size() != 0u && g.size() != s.size()) {
                c.event("truncations which keep a part");
            }
        };
        // NOTE: a negative limit for unsigned exponents compares as in the language: not used.
        const auto lim = [&]() -> std::int64_t {
            if (!ls.empty() && r.chance(1, 2)) {
                const auto d = sums(ls[r.below(ls.size())], nullptr).d + r.range(-1, 1);
                if (d >= (std::is_signed_v<T> ? -1000000 : 0) && d < 1000000) {
                    return static_cast<std::int64_t>(d);
                }
            }
            return r.range(std::is_signed_v<T> ? -8 : 0, 12);
        };
        for (int k = 0; k < 2; ++k) {
            const auto sel = some_syms(r);
            const Syms one = s.get_symbol_set().empty() ? Syms{} : Syms{*s.get_symbol_set().nth(r.below(s.get_symbol_set().size()))};
            trunc(static_cast<T>(lim()), nullptr, "truncate_degree");
            trunc(static_cast<T>(lim()), k ? &sel : &one, "truncate_p_degree");
            if constexpr (std::is_signed_v<T>) {
                trunc(static_cast<int>(lim()), nullptr, "truncate_degree (int)");
                trunc(static_cast<long>(lim()), k ? &sel : &one, "truncate_p_degree (long)");
            }
            trunc(int_t(std::to_string(lim())), nullptr, "truncate_degree (integer)");
            trunc(rat_t(int_t(std::to_string(2 * lim() + 1)), int_t(2)), &sel, "truncate_p_degree (rational)");
            trunc(rat_t(int_t(std::to_string(2 * lim() + 1)), int_t(2)), nullptr, "truncate_degree (rational)");
            if (!extreme) {
                trunc(static_cast<double>(lim()) + .5, nullptr, "truncate_degree (double)");
            }
        }
        if (extreme) {
            trunc(std::numeric_limits<T>::max(), nullptr, "truncate_degree");
            trunc(std::numeric_limits<T>::min(), nullptr, "truncate_degree");
            trunc(static_cast<T>(std::numeric_limits<T>::max() - 1), nullptr, "truncate_degree");
            trunc(static_cast<T>(std::numeric_limits<T>::min() + 1), nullptr, "truncate_degree");
        }
    }
    if (!s.empty()) {
        c.seen(log);
    }
    c.sample(log.substr(0, 200));
}

} // namespace c18

#define C18_TYPE(name, n, ...)                                                                                         \
    VF_WORKLOAD("degrees-" name, n, (n)*25)                                                                            \
    {                                                                                                                  \
        c18::degs<__VA_ARGS__>(c);                                                                                     \
    }

#endif
