// Monomials built out of iterators and ranges of all kinds.
#ifndef C27_BUILD_HPP
#define C27_BUILD_HPP

#include "c27_iter.hpp"

namespace c27
{

template <typename U>
inline bool holds(i128 x)
{
    if constexpr (std::is_integral_v<U>) {
        return x >= static_cast<i128>(std::numeric_limits<U>::min()) && x <= static_cast<i128>(std::numeric_limits<U>::max());
    } else {
        return true;
    }
}
template <typename U>
inline U make(i128 x)
{
    if constexpr (std::is_integral_v<U>) {
        return static_cast<U>(x);
    } else {
        // NOTE: multiprecision.
        U r{static_cast<long long>(x / 1000000000)};
        r *= U{1000000000};
        r += U{static_cast<long long>(x % 1000000000)};
        return r;
    }
}

template <typename K, typename U>
inline void build(Case &c)
{
    using T = typename K::value_type;
    auto &r = c.rng;
    constexpr bool packed = kinfo<K>::packed;
    constexpr unsigned max_n = packed ? (sizeof(T) == 4u ? 10u : 21u) : 24u;
    const auto n = r.chance(1, 12) ? max_n + (packed ? 1u : 0u) + r.below(3) : r.below(max_n + 1u);
    const bool too_many = packed && n > max_n;
    const auto &l = limits<K>(packed ? std::max<u64>(std::min<u64>(n, max_n), 1u) : 1u);

    std::vector<U> v;
    long stop = static_cast<long>(n);
    bool overflow = too_many, unsafe = false;
    std::vector<T> plain;
    const auto regime = r.below(4);
    for (u64 i = 0; i < n; ++i) {
        i128 x = r.range(-9, 9);
        if (regime == 1) {
            x = r.chance(1, 2) ? l.hi - r.range(0, 3) : l.lo + r.range(0, 3);
        } else if (regime == 2 && r.chance(1, 6)) {
            x = r.chance(1, 2) ? l.hi + r.range(0, 2) : l.lo - r.range(0, 2);
        } else if (regime == 3 && r.chance(1, 8)) {
            x = static_cast<i64>(r.wild());
        }
        if (l.lo == 0 && x < 0 && r.chance(49, 50)) {
            x = -(x + 1);
        }
        if (!holds<U>(x)) {
            x = r.range(0, 9);
        }
        v.push_back(make<U>(x));
        const bool good = x >= l.lo && x <= l.hi;
        if (!good && !overflow) {
            overflow = true;
            unsafe = !holds<T>(x);
            stop = static_cast<long>(i);
        }
        if (!overflow) {
            plain.push_back(static_cast<T>(x));
        }
    }
    if (too_many) {
        stop = -1;
    }
    Owner<U> o(v);
    bool thrown = false;
    if (n != 0u && r.chance(1, 6)) {
        o.throw_at = static_cast<long>(r.below(n));
        if (!too_many && o.throw_at <= stop && o.throw_at < static_cast<long>(n)) {
            thrown = true;
            overflow = unsafe = false;
            stop = o.throw_at - 1;
        }
    }
    // The expected packed values, one word after the other.
    std::vector<T> expected;
    if (!overflow && !thrown) {
        if constexpr (packed) {
            obake::kpacker<T> kp(static_cast<unsigned>(n));
            for (const auto x : plain) {
                kp << x;
            }
            expected.push_back(kp.get());
        } else {
            for (std::size_t i = 0; i < plain.size(); i += K::psize) {
                obake::kpacker<T> kp(K::psize);
                for (std::size_t j = i; j < std::min<std::size_t>(plain.size(), i + K::psize); ++j) {
                    kp << plain[j];
                }
                expected.push_back(kp.get());
            }
        }
    }
    const auto ctx = [&] {
        std::string s;
        for (const auto &x : v) {
            s += cat(" ", +x);
        }
        return cat(n, " elements:", s, o.throw_at >= 0 ? cat(", the one at ", o.throw_at.load(), " throws") : std::string());
    };
    c.seen(ctx());
    c.sample(ctx());

    // Run f, which builds a monomial out of the elements of w.
    const auto run = [&](const char *form, bool once, bool watched, auto &&f) {
        for (auto &x : o.reads) {
            x = 0;
        }
        o.n_faults = 0;
        o.fault = nullptr;
        o.pos = 0;
        int what = 0;
        std::vector<T> got;
        try {
            const K k(f());
            if constexpr (packed) {
                got.push_back(k.get_value());
            } else {
                got.assign(k._container().begin(), k._container().end());
            }
        } catch (const std::overflow_error &) {
            what = 1;
        } catch (const obake::safe_cast_failure &) {
            what = 3;
        } catch (const user_error &) {
            what = 2;
        }
        const int exp_what = overflow ? (unsafe ? 3 : 1) : ((thrown && watched) ? 2 : 0);
        const auto say = [&] { return cat(form, ": ", ctx()); };
        if (watched || !thrown) {
            c.check(what == exp_what, "outcome", [&] { return cat(say(), ": outcome ", what, " instead of ", exp_what); });
            c.check(what != 0 || exp_what != 0 || got == expected, "another monomial", say);
        }
        if (!watched) {
            return;
        }
        c.event(once ? "single-pass constructions" : "multi-pass constructions");
        c.event(what == 0 ? "constructions" : what != 2 ? "constructions refused" : "constructions interrupted");
        c.check(o.n_faults == 0u, "use of iterators", [&] { return cat(say(), ": ", o.fault.load()); });
        bool ok = true;
        for (long i = 0; i < static_cast<long>(n); ++i) {
            const auto m = o.reads[static_cast<std::size_t>(i)].load();
            ok = ok && (i > stop || (i == static_cast<long>(n)) || m >= 1u);
        }
        c.check(ok, "reads of elements", say);
        c.event("elements", n);
    };
    using I = Its<U>;
    const auto B = [&](auto *it) { return std::remove_pointer_t<decltype(it)>(&o, 0); };
    const auto E = [&](auto *it) { return std::remove_pointer_t<decltype(it)>(&o, o.size()); };
    using size_type = std::conditional_t<packed, unsigned, std::size_t>;
    const auto sn = static_cast<size_type>(n);
#define C27_N(It) run(#It " and size", true, true, [&] { return K(B(static_cast<typename I::It *>(nullptr)), sn); })
#define C27_NM(It) run(#It " and size", false, true, [&] { return K(B(static_cast<typename I::It *>(nullptr)), sn); })
#define C27_P(It, once)                                                                                                \
    run("pair of " #It, once, true, [&] {                                                                              \
        return K(B(static_cast<typename I::It *>(nullptr)), E(static_cast<typename I::It *>(nullptr)));                \
    })
#define C27_R(rng, It, once)                                                                                           \
    run(#rng " of " #It, once, true, [&] { return K(rng<typename I::It, U>{&o}); });                                   \
    run(#rng " of " #It ", lvalue", once, true, [&] {                                                                  \
        rng<typename I::It, U> x{&o};                                                                                  \
        return K(x);                                                                                                   \
    });                                                                                                                \
    run(#rng " of " #It ", constant", once, true, [&] {                                                                \
        const rng<typename I::It, U> x{&o};                                                                            \
        return K(x);                                                                                                   \
    })
    C27_N(in_val);
    C27_N(in_ref);
    C27_N(in_own);
    C27_NM(fwd);
    C27_NM(bid);
    C27_NM(ran);
    C27_P(fwd, false);
    C27_P(fwd_mut, false);
    C27_P(bid, false);
    C27_P(ran, false);
    C27_P(ran_int, false);
    C27_R(mem_range, fwd, false);
    C27_R(adl_range, bid, false);
    C27_R(mem_range, ran, false);
    C27_R(adl_range, fwd_mut, false);
    C27_R(adl_range, ran_int, false);
    if constexpr (!packed) {
        C27_P(in_val, true);
        C27_P(in_ref, true);
        C27_P(in_own, true);
        C27_R(mem_range, in_val, true);
        C27_R(adl_range, in_ref, true);
        C27_R(mem_range, in_own, true);
    }
    run("range of lvalues", false, true, [&] {
        lv_range<typename I::ran, U> x{&o};
        return K(x);
    });
    // Which of the begin() and end() of the user are called.
    {
        Owner<U> other(std::vector<U>(3, U{1}));
        run("lvalue range", false, true, [&] {
            cat_range<typename I::fwd, U> x{&o, &other, &other};
            return K(x);
        });
        run("constant range", false, true, [&] {
            const cat_range<typename I::fwd, U> x{&other, &o, &other};
            return K(x);
        });
        run("rvalue range", false, true, [&] {
            cat_range<typename I::fwd, U> x{&other, &other, &o};
            return K(std::move(x));
        });
        c.check(other.n_faults == 0u && other.reads[0] == 0u, "another range was read");
    }
    // Plain ones.
    run("pointer and size", false, false, [&] { return K(v.data(), sn); });
    run("constant pointers", false, false, [&] { return K(std::as_const(v).data(), std::as_const(v).data() + v.size()); });
    run("vector", false, false, [&] { return K(v); });
    run("constant vector", false, false, [&] { return K(std::as_const(v)); });
    run("vector given away", false, false, [&] { return K(std::vector<U>(v)); });
    run("list", false, false, [&] { return K(std::list<U>(v.begin(), v.end())); });
    run("forward list", false, false, [&] {
        const std::forward_list<U> x(v.begin(), v.end());
        return K(x.begin(), x.end());
    });
    run("deque", false, false, [&] { return K(std::deque<U>(v.begin(), v.end())); });
    run("reversed", false, false, [&] {
        const std::vector<U> x(v.rbegin(), v.rend());
        return K(x.rbegin(), x.rend());
    });
    if (n == 3u) {
        run("array", false, false, [&] {
            const U x[] = {v[0], v[1], v[2]};
            return K(x);
        });
        run("standard array", false, false, [&] { return K(std::array<U, 3>{v[0], v[1], v[2]}); });
        run("initializer list", false, false, [&] { return K({v[0], v[1], v[2]}); });
        c.event("arrays");
    }
}

} // namespace c27

#define C27_BUILD(tag, K, U)                                                                                           \
    VF_WORKLOAD("build-" tag, 300, 20000)                                                                              \
    {                                                                                                                  \
        c27::build<K, U>(c);                                                                                           \
    }

#endif
