// Independent operations in several threads over common operands: under the race detector, results compared with those of one thread.
#ifndef C16_CONC_HPP
#define C16_CONC_HPP

#include "dump.hpp"

#include <atomic>
#include <sstream>
#include <thread>

#include <obake/byte_size.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/stack_trace.hpp>
#include <obake/tex_stream_insert.hpp>
#include <obake/type_name.hpp>

namespace c16
{

using namespace vf;

template <typename S>
inline constexpr bool is_ps = false;
template <typename K, typename C>
inline constexpr bool is_ps<obake::p_series<K, C>> = true;

struct Op {
    unsigned what, i, j;
    u64 seed;
};

template <typename S>
inline std::string lines(const S &s, bool tex)
{
    // NOTE: the order of the terms depends on the history of the tables: compare what does not depend on it.
    std::ostringstream oss;
    if (tex) {
        obake::tex_stream_insert(oss, s);
    } else {
        oss << s;
    }
    auto t = oss.str();
    std::sort(t.begin(), t.end());
    return t;
}

// The outcome of an operation, as a string.
template <typename S>
inline std::string perform(const std::vector<S> &v, const Op &o)
{
    using C = obake::series_cf_t<S>;
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    const S &a = v[o.i], &b = v[o.j];
    Rng r(o.seed);
    try {
        switch (o.what) {
            case 0:
                return dump(a + b);
            case 1:
                return dump(a - b);
            case 2:
                return dump(a * b);
            case 3:
                return dump(obake::pow(a, static_cast<int>(r.below(4))));
            case 16:
                // Mostly the same base, with powers which may not be in the cache yet.
                return dump(obake::pow(v[r.chance(1, 6) ? o.i : 0u], static_cast<int>(r.below(7))));
            case 17:
                obake::customisation::internal::clear_series_pow_map();
                return "";
            case 4: {
                S c(a);
                c += b;
                c *= a;
                return dump(c);
            }
            case 5: {
                obake::symbol_map<C> m;
                for (const auto &n : a.get_symbol_set()) {
                    m[n] = C(static_cast<int>(r.range(1, 3)));
                }
                if constexpr (is_series_v<C>) {
                    return dump(obake::trim(a));
                } else {
                    return dump(obake::evaluate(a, m));
                }
            }
            case 6:
                return a.get_symbol_set().empty() ? "" : dump(obake::diff(a, *a.get_symbol_set().begin()));
            case 7: {
                obake::symbol_map<S> m;
                if (!a.get_symbol_set().empty()) {
                    m[*a.get_symbol_set().rbegin()] = b;
                }
                return dump(obake::subs(a, m));
            }
            case 8: {
                // A set of symbols which nobody has.
                obake::symbol_set ss;
                for (int k = 0; k < 3; ++k) {
                    ss.insert(cat("s", r.below(6)));
                }
                S c;
                c.set_symbol_set(ss);
                std::vector<T> e(ss.size(), T(1));
                c.add_term(K(e.begin(), e.end()), 2);
                const auto d = obake::add_symbols(a, ss);
                return dump(c) + dump(d) + dump(d + c);
            }
            case 9:
                return lines(a, false);
            case 10:
                return lines(a, true);
            case 11: {
                S c(a);
                if constexpr (!is_series_v<C>) {
                    obake::truncate_degree(c, 3);
                }
                return cat(dump(c), obake::byte_size(a) > 0u, a == b, a != c, c == c);
            }
            case 12: {
                std::string ret;
                if constexpr (is_ps<S>) {
                    S c(b);
                    obake::set_truncation(c, static_cast<int>(r.below(5)) + 20, to_ss(Syms{"x", pool()[r.below(NP)]}));
                    ret = dump(c) + dump(c * c);
                    obake::unset_truncation(c);
                    ret += dump(c);
                }
                return ret + dump(obake::trim(a));
            }
            case 13: {
                S c(a);
                auto d = std::move(c);
                c = d;
                d.clear();
                using std::swap;
                swap(c, d);
                return dump(c) + dump(d);
            }
            case 14: {
                // Errors.
                S c(a);
                c.add_term(K{}, 1);
                c.set_symbol_set(obake::symbol_set{"q"});
                return "accepted";
            }
            default: {
                S c(a);
                obake::filter(c, [&r](const auto &) { return r.chance(1, 2); });
                const bool z = obake::trim(c).size() == c.size();
                return cat(obake::degree(a), " ", obake::p_degree(a, obake::symbol_set{"x", "y"}), z,
                           obake::type_name<S>().size() > 3u);
            }
        }
    } catch (const std::invalid_argument &e) {
        const std::string w = e.what();
        return cat("refused ", w.find("Exception") != std::string::npos);
    } catch (const std::overflow_error &e) {
        return "overflow";
    }
}

template <typename S>
inline void conc(Case &c, unsigned nthreads, unsigned nops)
{
    auto &r = c.rng;
    GenCfg g;
    g.restrict_syms(r, 4);
    g.max_syms = 3;
    g.max_terms = 6;
    g.emax = 3;
    g.huge = false;
    g.fractions = std::is_same_v<obake::series_cf_t<S>, rat_t>;
    std::vector<S> v;
    std::string log;
    for (int i = 0; i < 3; ++i) {
        S s;
        if constexpr (is_series_v<obake::series_cf_t<S>>) {
            GenCfg gi(g);
            gi.max_terms = 3;
            g.max_terms = 4;
            g.universe = {"a", "b"};
            gi.universe = {"x", "y"};
            g.max_syms = gi.max_syms = 2;
            s = gen_rec<S>(r, g, gi).s;
        } else {
            s = gen_poly<S>(r, g).s;
        }
        if constexpr (is_ps<S>) {
            if (c.idx % 3) {
                obake::set_truncation(s, 5);
            }
        }
        log += dump(s) + "; ";
        v.push_back(std::move(s));
    }
    // Operations of all kinds, or the few kinds which share something behind the scenes.
    std::vector<unsigned> kinds;
    switch (r.below(5)) {
        case 0:
            kinds = {16, 16, 16, 16, 16, 3};
            if (r.chance(1, 3)) {
                kinds.push_back(17);
            }
            obake::customisation::internal::clear_series_pow_map();
            break;
        case 1:
            kinds = {8, 12, 13, 14, 8, 8};
            break;
        default:
            for (unsigned k = 0; k < 17; ++k) {
                kinds.push_back(k);
            }
    }
    std::vector<std::vector<Op>> ops(nthreads);
    for (auto &o : ops) {
        for (unsigned k = 0; k < nops; ++k) {
            o.push_back({kinds[r.below(kinds.size())], static_cast<unsigned>(r.below(3)), static_cast<unsigned>(r.below(3)), r.next()});
        }
    }
    const auto copies(v);
    std::vector<std::vector<std::string>> res(nthreads);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < nthreads; ++t) {
        res[t].resize(nops);
        ts.emplace_back([&, t] {
            // NOTE: relaxed, it is not meant to synchronise.
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nthreads) {
                std::this_thread::yield();
            }
            for (unsigned k = 0; k < nops; ++k) {
                res[t][k] = perform(v, ops[t][k]);
            }
        });
    }
    for (auto &t : ts) {
        t.join();
    }
    // Now one by one.
    for (unsigned t = 0; t < nthreads; ++t) {
        for (unsigned k = 0; k < nops; ++k) {
            const auto e = perform(v, ops[t][k]);
            c.check(res[t][k] == e, cat("operation ", ops[t][k].what).c_str(),
                    [&] { return cat("got ", res[t][k].substr(0, 400), " expected ", e.substr(0, 400), " operands ", log.substr(0, 600)); });
            c.event("operations in threads");
            if (e.rfind("refused", 0) == 0) {
                c.event("operations which throw in threads");
            }
        }
    }
    for (std::size_t i = 0; i < v.size(); ++i) {
        c.check(dump(v[i]) == dump(copies[i]), "common operand altered", [&] { return dump(copies[i]); });
        check_invariants(c, v[i], "common operand");
    }
    c.seen(log);
    c.sample(log);
}

} // namespace c16

#define C16_TYPE(name, ...)                                                                                            \
    VF_WORKLOAD("threads-" name, 500, 6000)                                                                            \
    {                                                                                                                  \
        c16::conc<__VA_ARGS__>(c, 2 + static_cast<unsigned>(c.idx % 3), 8);                                            \
    }

#endif
