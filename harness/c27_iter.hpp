// Iterators and ranges which watch how they are used, over elements of any type.
#ifndef C27_ITER_HPP
#define C27_ITER_HPP

#include <array>
#include <atomic>
#include <deque>
#include <forward_list>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/ranges.hpp>

#include "wide.hpp"

namespace c27
{

using namespace vf;

struct user_error {
    int n;
};

// The elements of a range, and what was seen of the iterators over them.
template <typename V>
struct Owner {
    explicit Owner(const std::vector<V> &v) : data(v), reads(v.size()) {}
    std::vector<V> data;
    std::vector<std::atomic<unsigned>> reads;
    // The position of a single-pass range.
    std::atomic<long> pos{0};
    std::atomic<unsigned> n_faults{0}, copies{0};
    std::atomic<const char *> fault{nullptr};
    // Which reading throws, if any.
    std::atomic<long> throw_at{-1};

    void bad(const char *what)
    {
        if (n_faults++ == 0u) {
            fault = what;
        }
    }
    long size() const
    {
        return static_cast<long>(data.size());
    }
    V &get(long p)
    {
        if (p < 0 || p >= size()) {
            bad("an element outside of the range was read");
            static V none{};
            return none;
        }
        if (p == throw_at) {
            throw user_error{static_cast<int>(p)};
        }
        reads[static_cast<std::size_t>(p)].fetch_add(1, std::memory_order_relaxed);
        return data[static_cast<std::size_t>(p)];
    }
};

enum class Ret { val, cref, ref, own };

template <typename V, Ret R>
using ret_t = std::conditional_t<R == Ret::val, V, std::conditional_t<R == Ret::ref, V &, const V &>>;

// The arrow of iterators which return values.
template <typename V>
struct arrow {
    V v;
    V *operator->()
    {
        return &v;
    }
};

// An iterator over its elements only once. With Ret::own the elements are within the iterator itself.
template <typename V, Ret R, typename D = long>
class single
{
    Owner<V> *m_o = nullptr;
    long m_p = 0;
    mutable std::optional<V> m_own;

    void live(const char *what) const
    {
        if (!m_o) {
            std::abort();
        }
        if (m_p != m_o->pos) {
            m_o->bad(what);
        }
    }

public:
    using value_type = V;
    using difference_type = D;
    using reference = ret_t<V, R>;
    using pointer = std::conditional_t<R == Ret::val, arrow<V>, std::remove_reference_t<reference> *>;
    using iterator_category = std::input_iterator_tag;

    single(Owner<V> *o, long p) : m_o(o), m_p(p) {}
    single(const single &o) : m_o(o.m_o), m_p(o.m_p) {}
    single &operator=(const single &o)
    {
        m_o = o.m_o;
        m_p = o.m_p;
        m_own.reset();
        return *this;
    }
    ~single()
    {
        m_own.reset();
    }
    reference operator*() const
    {
        live("a copy of a single-pass iterator was read after another one was incremented");
        if constexpr (R == Ret::own) {
            m_own.emplace(m_o->get(m_p));
            return *m_own;
        } else {
            return m_o->get(m_p);
        }
    }
    pointer operator->() const
    {
        if constexpr (R == Ret::val) {
            return pointer{**this};
        } else {
            return &**this;
        }
    }
    single &operator++()
    {
        live("a copy of a single-pass iterator was incremented after another one");
        if (m_p >= m_o->size()) {
            m_o->bad("an iterator was incremented beyond the end");
        } else {
            ++m_p;
        }
        m_o->pos = m_p;
        m_own.reset();
        return *this;
    }
    // What *it++ needs.
    struct proxy {
        V v;
        const V &operator*() const
        {
            return v;
        }
    };
    proxy operator++(int)
    {
        proxy r{**this};
        ++*this;
        return r;
    }
    friend bool operator==(const single &a, const single &b)
    {
        if (a.m_o != b.m_o) {
            a.m_o->bad("iterators of different ranges were compared");
            return true;
        }
        const auto n = a.m_o->size();
        if (a.m_p != n && b.m_p != n) {
            a.live("a copy of a single-pass iterator was compared after another one was incremented");
            b.live("a copy of a single-pass iterator was compared after another one was incremented");
        }
        return a.m_p == b.m_p;
    }
    friend bool operator!=(const single &a, const single &b)
    {
        return !(a == b);
    }
};

// An iterator which goes over its elements any number of times; Tag says what else it can do.
template <typename V, Ret R, typename Tag, typename D = long>
class multi
{
    static_assert(R == Ret::ref || R == Ret::cref);
    Owner<V> *m_o = nullptr;
    long m_p = 0;

    void to(long p)
    {
        if (!m_o) {
            std::abort();
        }
        if (p < 0 || p > m_o->size()) {
            m_o->bad("an iterator was moved outside of the range");
        } else {
            m_p = p;
        }
    }
    static void same(const multi &a, const multi &b)
    {
        if (a.m_o != b.m_o) {
            (a.m_o ? a.m_o : b.m_o)->bad("iterators of different ranges were compared");
        }
    }

public:
    using value_type = V;
    using difference_type = D;
    using reference = ret_t<V, R>;
    using pointer = std::remove_reference_t<reference> *;
    using iterator_category = Tag;

    multi() = default;
    multi(Owner<V> *o, long p) : m_o(o), m_p(p) {}
    reference operator*() const
    {
        return m_o->get(m_p);
    }
    pointer operator->() const
    {
        return &**this;
    }
    multi &operator++()
    {
        to(m_p + 1);
        return *this;
    }
    multi operator++(int)
    {
        auto r = *this;
        ++*this;
        return r;
    }
    friend bool operator==(const multi &a, const multi &b)
    {
        same(a, b);
        return a.m_p == b.m_p;
    }
    friend bool operator!=(const multi &a, const multi &b)
    {
        return !(a == b);
    }
    multi &operator--() requires(std::is_base_of_v<std::bidirectional_iterator_tag, Tag>)
    {
        to(m_p - 1);
        return *this;
    }
    multi operator--(int) requires(std::is_base_of_v<std::bidirectional_iterator_tag, Tag>)
    {
        auto r = *this;
        --*this;
        return r;
    }
#define C27_RA requires(std::is_base_of_v<std::random_access_iterator_tag, Tag>)
    multi &operator+=(D n) C27_RA
    {
        to(m_p + n);
        return *this;
    }
    multi &operator-=(D n) C27_RA
    {
        to(m_p - n);
        return *this;
    }
    friend multi operator+(multi a, D n) C27_RA
    {
        return a += n;
    }
    friend multi operator+(D n, multi a) C27_RA
    {
        return a += n;
    }
    friend multi operator-(multi a, D n) C27_RA
    {
        return a -= n;
    }
    friend D operator-(const multi &a, const multi &b) C27_RA
    {
        same(a, b);
        return static_cast<D>(a.m_p - b.m_p);
    }
    reference operator[](D n) const C27_RA
    {
        return *(*this + n);
    }
#define C27_CMP(op)                                                                                                    \
    friend bool operator op(const multi &a, const multi &b) C27_RA                                                     \
    {                                                                                                                  \
        same(a, b);                                                                                                    \
        return a.m_p op b.m_p;                                                                                         \
    }
    C27_CMP(<)
    C27_CMP(>)
    C27_CMP(<=)
    C27_CMP(>=)
#undef C27_CMP
#undef C27_RA
};

// Ranges over an owner: with members, or with functions found by their arguments only.
template <typename It, typename V>
struct mem_range {
    Owner<V> *o;
    It begin() const
    {
        return It(o, 0);
    }
    It end() const
    {
        return It(o, o->size());
    }
};
template <typename It, typename V>
struct adl_range {
    Owner<V> *o;
    friend It begin(const adl_range &r)
    {
        return It(r.o, 0);
    }
    friend It end(const adl_range &r)
    {
        return It(r.o, r.o->size());
    }
};
// Which has elements only if it is not constant, and only if it is an lvalue.
template <typename It, typename V>
struct lv_range {
    Owner<V> *o;
    friend It begin(lv_range &r)
    {
        return It(r.o, 0);
    }
    friend It end(lv_range &r)
    {
        return It(r.o, r.o->size());
    }
};
// Whose elements depend on its constness and value category.
template <typename It, typename V>
struct cat_range {
    Owner<V> *l, *cl, *rv;
    friend It begin(cat_range &r)
    {
        return It(r.l, 0);
    }
    friend It end(cat_range &r)
    {
        return It(r.l, r.l->size());
    }
    friend It begin(const cat_range &r)
    {
        return It(r.cl, 0);
    }
    friend It end(const cat_range &r)
    {
        return It(r.cl, r.cl->size());
    }
    friend It begin(cat_range &&r)
    {
        return It(r.rv, 0);
    }
    friend It end(cat_range &&r)
    {
        return It(r.rv, r.rv->size());
    }
};

template <typename V>
struct Its {
    using in_val = single<V, Ret::val>;
    using in_ref = single<V, Ret::cref>;
    using in_own = single<V, Ret::own>;
    using fwd = multi<V, Ret::cref, std::forward_iterator_tag>;
    using fwd_mut = multi<V, Ret::ref, std::forward_iterator_tag, short>;
    using bid = multi<V, Ret::ref, std::bidirectional_iterator_tag, int>;
    using ran = multi<V, Ret::cref, std::random_access_iterator_tag>;
    using ran_int = multi<V, Ret::ref, std::random_access_iterator_tag, int>;
};

// What the limits of the exponents of a monomial in n symbols are, measured.
template <typename K>
struct Lim {
    using T = typename K::value_type;
    i128 lo, hi;
};
template <typename K>
inline const Lim<K> &limits(std::size_t n)
{
    static std::mutex m;
    static std::map<std::size_t, Lim<K>> l;
    std::lock_guard lk(m);
    const auto it = l.find(n);
    if (it != l.end()) {
        return it->second;
    }
    using T = typename K::value_type;
    const auto fits = [&](i128 x) {
        std::vector<T> v(n, T(0));
        v[0] = static_cast<T>(x);
        try {
            K k(v.begin(), v.end());
            return true;
        } catch (const std::overflow_error &) {
            return false;
        }
    };
    const i128 tmin = std::numeric_limits<T>::min();
    i128 lo = tmin;
    if (!fits(tmin)) {
        i128 good = 0, bad = tmin;
        while (good - bad > 1) {
            const auto mid = bad + (good - bad) / 2;
            (fits(mid) ? good : bad) = mid;
        }
        lo = good;
    }
    return l.emplace(n, Lim<K>{lo, measured_limit<K>(n)}).first->second;
}

template <typename K>
struct kinfo {
    static constexpr bool packed = true;
};
template <typename T, unsigned P>
struct kinfo<dpm_t<T, P>> {
    static constexpr bool packed = false;
};

} // namespace c27

#endif
