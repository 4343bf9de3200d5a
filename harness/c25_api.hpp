// What the parts of a program (the executable and the libraries it loads) offer to each other in C25:
// each has its own copies of everything which the headers define.
#ifndef C25_API_HPP
#define C25_API_HPP

#include "c16_conc.hpp"

#include <memory>
#include <sstream>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <obake/detail/fw_utils.hpp>
#include <obake/exceptions.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/s11n.hpp>

namespace c25
{

using namespace vf;
using A = obake::polynomial<pm_t<std::int64_t>, rat_t>;
using B = obake::polynomial<dpm_t<std::int64_t, 4>, int_t>;
using S = obake::p_series<pm_t<std::int64_t>, rat_t>;
using D = obake::p_series<dpm_t<std::int32_t, 3>, rat_t>;

template <typename T>
inline constexpr bool is_ps = c16::is_ps<T>;

struct Trunc {
    int kind = 0;
    i64 d = 0;
    Syms s;
};

template <typename T>
struct Ops {
    T *(*make)(const MP &, const Syms &, unsigned, const Trunc &);
    T *(*make_default)();
    T *(*copy)(const T &);
    T *(*move)(T &);
    void (*destroy)(T *);
    void (*assign)(T &, const T &);
    void (*move_assign)(T &, T &);
    void (*swap)(T &, T &);
    T *(*binary)(unsigned, const T &, const T &);
    void (*in_place)(unsigned, T &, const T &);
    T *(*power)(const T &, unsigned);
    T *(*unary)(unsigned, const T &, const std::string &);
    bool (*equal)(const T &, const T &);
    std::string (*archive)(const T &);
    void (*load)(T &, const std::string &);
    const void *(*symbols)(const T &);
    const void *(*trunc)(const T &);
    std::string (*outcome)(const std::vector<T> &, const c16::Op &);
    std::vector<T> *(*collect)(const std::vector<const T *> &);
    void (*release)(std::vector<T> *);
};

struct Api {
    Ops<A> a;
    Ops<B> b;
    Ops<S> s;
    Ops<D> d;
    void (*clear_cache)();
    void (*trace)(bool);
    bool (*traced)();
    void (*fail)(unsigned);
    // Has an object of this part report what it finds when it goes away.
    void (*keep)(unsigned, u64);
    // Add a line to the log of the program.
    void (*put)(const char *);
    unsigned (*cores)();
};

inline constexpr unsigned n_failures = 5;

// Failures reported by the library.
inline void fail(unsigned what)
{
    switch (what % n_failures) {
        case 0:
            (void)obake::safe_cast<std::int8_t>(1000);
            break;
        case 1: {
            A a;
            a.add_term(pm_t<std::int64_t>{1, 2, 3}, 1);
            break;
        }
        case 2: {
            auto [x] = obake::make_polynomials<B>("x");
            const auto big = B(x * x * x);
            (void)obake::pow(big, std::numeric_limits<std::int64_t>::max());
            break;
        }
        case 3: {
            auto [x] = obake::make_polynomials<A>("x");
            (void)obake::evaluate(x + 1, obake::symbol_map<rat_t>{{"y", rat_t(1)}});
            break;
        }
        default: {
            auto [x, y] = obake::make_p_series_t<S>(2, "x", "y");
            auto z = x + y;
            auto w = y + x;
            obake::set_truncation(w, 1, obake::symbol_set{"x"});
            (void)(z + w);
        }
    }
}

// The kind of failure, as seen by whoever catches it.
template <typename F>
inline std::string caught(F &&f)
{
    std::string w, k;
    try {
        f();
        return "nothing";
    } catch (const obake::safe_cast_failure &e) {
        k = "safe_cast_failure";
        w = e.what();
    } catch (const std::invalid_argument &e) {
        k = "invalid_argument";
        w = e.what();
    } catch (const std::overflow_error &e) {
        k = "overflow_error";
        w = e.what();
    } catch (const std::exception &e) {
        k = "exception";
        w = e.what();
    }
    // The message is the last line.
    const auto p = w.find_last_of('\n');
    return k + ": " + (p == std::string::npos ? w : w.substr(p + 1));
}

template <typename T>
inline T *make(const MP &m, const Syms &s, unsigned seg, const Trunc &t)
{
    auto p = std::make_unique<T>(from_model<T>(m, s, seg));
    if constexpr (is_ps<T>) {
        if (t.kind == 1) {
            obake::set_truncation(*p, static_cast<int>(t.d));
        } else if (t.kind == 2) {
            obake::set_truncation(*p, static_cast<int>(t.d), to_ss(t.s));
        }
    }
    return p.release();
}

template <typename T>
inline T *binary(unsigned what, const T &x, const T &y)
{
    switch (what % 4u) {
        case 0:
            return new T(x + y);
        case 1:
            return new T(x - y);
        case 2:
            return new T(x * y);
        default:
            return new T(T(x) + T(y));
    }
}

template <typename T>
inline void in_place(unsigned what, T &x, const T &y)
{
    switch (what % 4u) {
        case 0:
            x += y;
            break;
        case 1:
            x -= y;
            break;
        case 2:
            x *= y;
            break;
        default:
            x += T(y);
    }
}

template <typename T>
inline T *unary(unsigned what, const T &x, const std::string &n)
{
    switch (what % 5u) {
        case 0:
            return new T(-x);
        case 1:
            return new T(obake::trim(x));
        case 2:
            return new T(obake::add_symbols(x, obake::symbol_set{n}));
        case 3:
            return new T(obake::diff(x, n));
        default:
            return new T(obake::filtered(x, [](const auto &) { return true; }));
    }
}

template <typename T>
inline std::string archive(const T &x)
{
    std::ostringstream oss;
    {
        boost::archive::binary_oarchive oa(oss);
        oa << x;
    }
    return oss.str();
}

template <typename T>
inline void load(T &x, const std::string &s)
{
    std::istringstream iss(s);
    boost::archive::binary_iarchive ia(iss);
    ia >> x;
}

template <typename T>
inline Ops<T> make_ops()
{
    Ops<T> o;
    o.make = &make<T>;
    o.make_default = [] { return new T; };
    o.copy = [](const T &x) { return new T(x); };
    o.move = [](T &x) { return new T(std::move(x)); };
    o.destroy = [](T *x) { delete x; };
    o.assign = [](T &x, const T &y) { x = y; };
    o.move_assign = [](T &x, T &y) { x = std::move(y); };
    o.swap = [](T &x, T &y) {
        using std::swap;
        swap(x, y);
    };
    o.binary = &binary<T>;
    o.in_place = &in_place<T>;
    o.power = [](const T &x, unsigned n) { return new T(obake::pow(x, n)); };
    o.unary = &unary<T>;
    o.equal = [](const T &x, const T &y) { return x == y && !(x != y); };
    o.archive = &archive<T>;
    o.load = &load<T>;
    o.symbols = [](const T &x) -> const void * { return &x.get_symbol_set(); };
    o.trunc = [](const T &x) -> const void * {
        if constexpr (is_ps<T>) {
            return &x.tag().trunc.get();
        } else {
            (void)x;
            return nullptr;
        }
    };
    o.outcome = [](const std::vector<T> &v, const c16::Op &op) { return c16::perform(v, op); };
    o.collect = [](const std::vector<const T *> &v) {
        auto r = std::make_unique<std::vector<T>>();
        for (auto p : v) {
            r->push_back(*p);
        }
        return r.release();
    };
    o.release = [](std::vector<T> *v) { delete v; };
    return o;
}

Api make_api();

} // namespace c25

#endif
