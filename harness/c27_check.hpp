// The check of the products of two ranges of monomials, over ranges of all kinds.
#ifndef C27_CHECK_HPP
#define C27_CHECK_HPP

#include "c27_iter.hpp"

namespace c27
{

template <typename K>
inline void overflow(Case &c)
{
    using T = typename K::value_type;
    auto &r = c.rng;
    constexpr bool packed = kinfo<K>::packed;
    const auto n = r.below(6) == 0u ? 0u : 1u + r.below(packed ? 6 : 9);
    const auto &l = limits<K>(packed ? std::max<u64>(n, 1u) : 1u);
    obake::symbol_set ss;
    for (u64 i = 0; i < n; ++i) {
        ss.insert(ss.end(), std::string(1, static_cast<char>('a' + i)));
    }
    const bool large = r.chance(1, 15);
    std::vector<K> ks[2];
    struct LH {
        i128 lo = 0, hi = 0;
        bool any = false;
        void add(i128 x)
        {
            lo = any ? std::min(lo, x) : x;
            hi = any ? std::max(hi, x) : x;
            any = true;
        }
    };
    std::vector<LH> ext[2];
    LH deg[2];
    const auto regime = r.below(3);
    for (int s = 0; s < 2; ++s) {
        ext[s].resize(n);
        const auto m = large && (s == 0 || r.chance(1, 2)) ? 5000u + r.below(1500) : (r.chance(1, 12) ? 0u : 1u + r.below(40));
        // One extreme element, at any place, or all of them.
        const auto special = r.chance(1, 4) ? 0u : r.chance(1, 4) ? m - 1u : r.below(m);
        for (u64 i = 0; i < m; ++i) {
            std::vector<T> v;
            i128 d = 0;
            for (u64 k = 0; k < n; ++k) {
                i128 x = r.range(l.lo == 0 ? 0 : -5, 5);
                if (regime != 0u && i == special && r.chance(1, 2)) {
                    const auto j = regime == 1u ? r.range(-6, 2) : r.range(-6, 8);
                    x = r.chance(1, 2) || l.lo == 0 ? l.hi / 2 + j : l.lo / 2 - j;
                    x = std::max(l.lo, std::min(l.hi, x));
                    if (r.chance(1, 12)) {
                        x = x < 0 ? l.lo : l.hi;
                    }
                }
                v.push_back(static_cast<T>(x));
                ext[s][k].add(x);
                d += x;
            }
            deg[s].add(d);
            ks[s].emplace_back(v.begin(), v.end());
        }
    }
    bool fits = true;
    if (!ks[0].empty() && !ks[1].empty()) {
        for (u64 k = 0; k < n; ++k) {
            fits = fits && ext[0][k].lo + ext[1][k].lo >= l.lo && ext[0][k].hi + ext[1][k].hi <= l.hi;
        }
        if (!packed) {
            fits = fits && deg[0].lo + deg[1].lo >= static_cast<i128>(std::numeric_limits<T>::min())
                   && deg[0].hi + deg[1].hi <= static_cast<i128>(std::numeric_limits<T>::max());
        }
    }
    Owner<K> a(ks[0]), b(ks[1]);
    long thr = -1;
    if (!a.data.empty() && !b.data.empty() && n != 0u && r.chance(1, 6)) {
        auto &o = r.chance(1, 2) ? a : b;
        thr = static_cast<long>(r.below(o.data.size()));
        o.throw_at = thr;
    }
    const auto ctx = [&] { return cat(a.size(), " and ", b.size(), " monomials in ", n, " symbols, throwing at ", thr, fits ? ", fitting" : ""); };
    u64 h = n;
    for (const auto &v : ks) {
        for (const auto &k : v) {
            h = mix64(h + obake::hash(k));
        }
    }
    c.seen(h);
    c.sample(ctx());
    const auto run = [&](const char *form, bool, bool, auto &&f) {
        for (auto *o : {&a, &b}) {
            o->n_faults = 0;
            o->fault = nullptr;
            o->pos = 0;
            for (auto &x : o->reads) {
                x = 0;
            }
        }
        int what = 0;
        bool got = false;
        try {
            got = f();
        } catch (const user_error &e) {
            what = e.n == thr ? 1 : 2;
        }
        const auto say = [&] { return cat(form, ": ", ctx()); };
        c.check(what == (thr >= 0 ? 1 : 0), "outcome of the check", [&] { return cat(say(), ": ", what); });
        c.check(what != 0 || got == fits, "answer of the check", [&] { return cat(say(), " answer ", got); });
        c.check(a.n_faults == 0u && b.n_faults == 0u, "use of iterators", [&] { return cat(say(), ": ", a.n_faults != 0u ? a.fault.load() : b.fault.load()); });
        bool ok = true;
        for (auto *o : {&a, &b}) {
            for (auto &x : o->reads) {
                ok = ok && (what != 0 || n == 0u || a.data.empty() || b.data.empty() || x >= 1u);
            }
        }
        c.check(ok, "reads of monomials", say);
        c.event("checks of ranges");
        c.event(what ? "checks interrupted" : fits ? "products which fit" : "products which do not fit");
        if (a.size() > 5001 || b.size() > 5001) {
            c.event("checks of long ranges");
        }
    };
    using I = Its<K>;
#define C27_C(r1, it1, o1, r2, it2, o2)                                                                                \
    run(#it1 " " #it2, o1, o2, [&] {                                                                                   \
        return obake::monomial_range_overflow_check(r1<typename I::it1, K>{&a}, r2<typename I::it2, K>{&b}, ss);       \
    })
    if (!large || c.idx % 4u == 0u) {
        C27_C(mem_range, in_val, true, adl_range, in_ref, true);
        C27_C(adl_range, in_own, true, mem_range, in_own, true);
        C27_C(mem_range, fwd, false, adl_range, in_val, true);
        C27_C(adl_range, in_ref, true, mem_range, ran, false);
        C27_C(adl_range, bid, false, mem_range, fwd, false);
        C27_C(mem_range, ran, false, adl_range, bid, false);
    }
    C27_C(mem_range, ran, false, mem_range, ran, false);
    C27_C(adl_range, ran_int, false, mem_range, ran, false);
    run("lvalues", false, false, [&] {
        lv_range<typename I::ran, K> x{&a}, y{&b};
        return obake::monomial_range_overflow_check(x, y, ss);
    });
    run("constant ones", false, false, [&] {
        const mem_range<typename I::ran_int, K> x{&a}, y{&b};
        return obake::monomial_range_overflow_check(x, y, ss);
    });
    if (thr < 0) {
        const auto &x = ks[0];
        const std::list<K> y(ks[1].begin(), ks[1].end());
        const std::deque<K> z(ks[1].begin(), ks[1].end());
        c.check(obake::monomial_range_overflow_check(x, y, ss) == fits, "vector and list", ctx);
        c.check(obake::monomial_range_overflow_check(z, x, ss) == fits, "deque and vector", ctx);
        // Over itself.
        bool self = true;
        if (!x.empty()) {
            for (u64 k = 0; k < n; ++k) {
                self = self && 2 * ext[0][k].lo >= l.lo && 2 * ext[0][k].hi <= l.hi;
            }
            if (!packed) {
                self = self && 2 * deg[0].lo >= static_cast<i128>(std::numeric_limits<T>::min())
                       && 2 * deg[0].hi <= static_cast<i128>(std::numeric_limits<T>::max());
            }
        }
        c.check(obake::monomial_range_overflow_check(x, x, ss) == self, "with itself", ctx);
    }
}

} // namespace c27

#define C27_CHECK(tag, K)                                                                                              \
    VF_WORKLOAD("check-" tag, 200, 10000)                                                                              \
    {                                                                                                                  \
        c27::overflow<K>(c);                                                                                           \
    }

#endif
