// The limits of the integral types: exponents of opposite signs, near the ends of the range.
#include "c03_trunc.hpp"
using namespace vf;
using SD = obake::polynomial<dpm_t<std::int64_t, 1>, int_t>;
VF_WORKLOAD("extreme-d64x1-int", 500, 20000)
{
    auto &r = c.rng;
    // The partial degree can exceed the range even if no exponent of the product does.
    const unsigned ns = 2u + static_cast<unsigned>(r.below(5));
    const auto syms = some_syms(r, ns, pool().size() ? std::vector<std::string>(pool().begin(), pool().end()) : std::vector<std::string>{});
    const bool mt = r.chance(1, 8);
    // In half of the cases keep away from the limits, somewhat.
    const unsigned shift = r.chance(1, 2) ? 3u : 0u;
    const auto gen = [&](std::size_t nt) {
        Plain p;
        p.syms = syms;
        std::set<std::vector<i64>> seen;
        for (std::size_t k = 0; k < nt; ++k) {
            Term t;
            for (unsigned i = 0; i < ns; ++i) {
                i64 e = r.range(0, (i64(1) << 62) - 1);
                switch (r.below(4)) {
                    case 0:
                        e = (i64(1) << 62) - 1 - r.range(0, 3);
                        break;
                    case 1:
                        e = r.range(0, 5);
                        break;
                    case 2:
                        e >>= r.below(60);
                        break;
                    default:
                        break;
                }
                e >>= shift;
                t.e.push_back(r.chance(1, 2) ? -e : e);
            }
            t.c = r.range(1, 9);
            if (seen.insert(t.e).second) {
                p.t.push_back(t);
            }
        }
        return p;
    };
    const auto pa = gen(mt ? 700 : 1 + r.below(6)), pb = gen(mt ? 3 : 1 + r.below(6));
    const auto a = from_plain<SD>(pa, 0), b = from_plain<SD>(pb, 0);
    Syms s;
    for (u64 i = r.below(ns + 1u); i; --i) {
        s.insert(r.pick(syms));
    }
    i64 lim = r.range(-5, 5);
    if (r.chance(1, 2)) {
        lim = static_cast<i64>(r.wild());
    }
    const bool partial = r.chance(2, 3);
    // The reference, in 128 bits.
    std::map<std::vector<i128>, i128> ref;
    for (const auto &x : pa.t) {
        for (const auto &y : pb.t) {
            std::vector<i128> e;
            i128 d = 0;
            for (unsigned i = 0; i < ns; ++i) {
                e.push_back(static_cast<i128>(x.e[i]) + y.e[i]);
                if (!partial || s.count(syms[i])) {
                    d += e.back();
                }
            }
            if (d <= lim) {
                ref[e] += static_cast<i128>(x.c) * y.c;
            }
        }
    }
    const auto ctx = cat(ns, " symbols, limit ", lim, partial ? " partial " + sstr(s) : std::string(" total"), " ", pa.t.size(), "x", pb.t.size());
    try {
        const auto ret = partial ? obake::polynomials::truncated_mul(a, b, lim, to_ss(s)) : obake::polynomials::truncated_mul(a, b, lim);
        check_invariants(c, ret, "extreme");
        std::map<std::vector<i128>, i128> got;
        bool exact = true;
        for (const auto &t : ret) {
            const auto u = unpack(t.first, ns);
            got[u] = 0;
            const auto it = ref.find(u);
            if (it == ref.end() || !cf_equals(t.second, it->second)) {
                exact = false;
            }
        }
        for (const auto &t : ref) {
            if (t.second != 0 && !got.count(t.first)) {
                exact = false;
            }
        }
        c.check(exact, "extreme exponents: wrong result", [&] { return ctx; });
        c.event("extreme truncated products, exact");
    } catch (const std::overflow_error &) {
        c.event("extreme truncated products, overflow reported");
    }
    c.seen(hash_str(ctx) ^ r.next());
    c.sample(ctx);
}
