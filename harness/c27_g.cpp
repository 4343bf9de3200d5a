// What the traits of iterators and ranges say, against what the iterators can do; begin() and end().
#include "c27_iter.hpp"

#include <map>
#include <set>
#include <sstream>

using namespace c27;

namespace
{

// A random-access iterator which does all it should, but for one thing (M).
template <int M>
struct lame {
    using value_type = int;
    using difference_type = std::conditional_t<M == 1, unsigned, std::ptrdiff_t>;
    using reference = std::conditional_t<M == 2, long &, std::conditional_t<M == 3, int, int &>>;
    using pointer = int *;
    struct strange {
    };
    using iterator_category = std::conditional_t<
        M == 4, strange,
        std::conditional_t<M == 5, std::output_iterator_tag,
                           std::conditional_t<M == 6, std::input_iterator_tag,
                                              std::conditional_t<M == 7, std::forward_iterator_tag,
                                                                 std::conditional_t<M == 8, std::bidirectional_iterator_tag,
                                                                                    std::random_access_iterator_tag>>>>>;
    int *p = nullptr;
    lame() requires(M != 9) : p(nullptr) {}
    explicit lame(int *q) : p(q) {}
    std::conditional_t<M == 3, int, int &> operator*() const requires(M != 10)
    {
        return *p;
    }
    int &operator*() requires(M == 10)
    {
        return *p;
    }
    int *operator->() const
    {
        return p;
    }
    std::conditional_t<M == 11, void, lame &> operator++()
    {
        ++p;
        if constexpr (M != 11) {
            return *this;
        }
    }
    lame operator++(int) requires(M != 12)
    {
        auto r = *this;
        ++p;
        return r;
    }
    friend bool operator==(const lame &a, const lame &b) requires(M != 13)
    {
        return a.p == b.p;
    }
    friend bool operator!=(const lame &a, const lame &b)
    {
        return a.p != b.p;
    }
    lame &operator--() requires(M != 14)
    {
        --p;
        return *this;
    }
    std::conditional_t<M == 15, void, lame> operator--(int)
    {
        if constexpr (M != 15) {
            auto r = *this;
            --p;
            return r;
        } else {
            --p;
        }
    }
    using D = std::ptrdiff_t;
    lame &operator+=(D n) requires(M != 16)
    {
        p += n;
        return *this;
    }
    lame &operator-=(D n) requires(M != 17)
    {
        p -= n;
        return *this;
    }
    friend lame operator+(const lame &a, D n) requires(M != 18)
    {
        return lame(a.p + n);
    }
    friend lame operator+(D n, const lame &a) requires(M != 19)
    {
        return lame(a.p + n);
    }
    friend lame operator-(const lame &a, D n) requires(M != 20)
    {
        return lame(a.p - n);
    }
    friend std::conditional_t<M == 21, short, D> operator-(const lame &a, const lame &b)
    {
        return static_cast<std::conditional_t<M == 21, short, D>>(a.p - b.p);
    }
    int &operator[](D n) const requires(M != 22)
    {
        return p[n];
    }
    friend bool operator<(const lame &a, const lame &b) requires(M != 23)
    {
        return a.p < b.p;
    }
    friend bool operator>(const lame &a, const lame &b) requires(M != 24)
    {
        return a.p > b.p;
    }
    friend bool operator<=(const lame &a, const lame &b) requires(M != 25)
    {
        return a.p <= b.p;
    }
    friend bool operator>=(const lame &a, const lame &b) requires(M != 26)
    {
        return a.p >= b.p;
    }
};

// How much of an iterator a type is: 0 none, 1 an iterator, 2 input, 3 forward, 4 bidirectional, 5 random access.
template <typename I>
int level()
{
    const bool l[] = {obake::is_iterator_v<I>, obake::is_input_iterator_v<I>, obake::is_forward_iterator_v<I>,
                      obake::is_bidirectional_iterator_v<I>, obake::is_random_access_iterator_v<I>};
    int n = 0;
    while (n < 5 && l[n]) {
        ++n;
    }
    for (int i = n; i < 5; ++i) {
        if (l[i]) {
            return -1;
        }
    }
    // The concepts must say the same.
    const bool k[] = {obake::Iterator<I>, obake::InputIterator<I>, obake::ForwardIterator<I>, obake::BidirectionalIterator<I>,
                      obake::RandomAccessIterator<I>};
    for (int i = 0; i < 5; ++i) {
        if (k[i] != l[i]) {
            return -2;
        }
    }
    return n;
}
// The same of ranges (from 2).
template <typename R>
int rlevel()
{
    const bool l[] = {obake::is_range_v<R>, obake::is_input_range_v<R>, obake::is_forward_range_v<R>,
                      obake::is_bidirectional_range_v<R>, obake::is_random_access_range_v<R>};
    int n = 0;
    while (n < 5 && l[n]) {
        ++n;
    }
    for (int i = n; i < 5; ++i) {
        if (l[i]) {
            return -1;
        }
    }
    const bool k[] = {obake::Range<R>, obake::InputRange<R>, obake::ForwardRange<R>, obake::BidirectionalRange<R>, obake::RandomAccessRange<R>};
    for (int i = 0; i < 5; ++i) {
        if (k[i] != l[i]) {
            return -2;
        }
    }
    return n;
}

struct both_range {
    int a[3] = {1, 2, 3}, b[2] = {7, 8};
    int *begin()
    {
        return a;
    }
    int *end()
    {
        return a + 3;
    }
    friend int *begin(both_range &r)
    {
        return r.b;
    }
    friend int *end(both_range &r)
    {
        return r.b + 2;
    }
};
struct no_end {
    int *begin();
};
struct other_end {
    int *begin();
    const int *end();
};
struct no_iter {
    int begin();
    int end();
};

} // namespace

VF_WORKLOAD("traits", 4, 8)
{
    const auto is = [&](const char *what, int got, int exp) {
        c.check(got == exp, "category", [&] { return cat(what, ": ", got, " instead of ", exp); });
        c.event("traits");
        c.seen(what);
    };
#define IS(I, n) is(#I, level<I>(), n)
    // NOTE: what the missing operation is needed for, according to the standard.
    IS(lame<0>, 5);
    IS(lame<1>, 0);
    IS(lame<2>, 1);
    IS(lame<3>, 2);
    IS(lame<4>, 0);
    IS(lame<5>, 1);
    IS(lame<6>, 2);
    IS(lame<7>, 3);
    IS(lame<8>, 4);
    IS(lame<9>, 2);
    IS(lame<10>, 1);
    IS(lame<11>, 0);
    IS(lame<12>, 1);
    IS(lame<13>, 1);
    IS(lame<14>, 3);
    IS(lame<15>, 3);
    IS(lame<16>, 4);
    IS(lame<17>, 4);
    IS(lame<18>, 4);
    IS(lame<19>, 4);
    IS(lame<20>, 4);
    IS(lame<21>, 4);
    IS(lame<22>, 4);
    IS(lame<23>, 4);
    IS(lame<24>, 4);
    IS(lame<25>, 4);
    IS(lame<26>, 4);
    using I = Its<std::string>;
    IS(I::in_val, 2);
    IS(I::in_ref, 2);
    IS(I::in_own, 2);
    IS(I::fwd, 3);
    IS(I::fwd_mut, 3);
    IS(I::bid, 4);
    IS(I::ran, 5);
    IS(I::ran_int, 5);
    IS(int *, 5);
    IS(const std::string *, 5);
    IS(std::vector<int>::iterator, 5);
    IS(std::deque<std::string>::const_iterator, 5);
    IS(std::list<int>::iterator, 4);
    IS(std::set<int>::iterator, 4);
    using map_it = std::map<int, std::string>::const_reverse_iterator;
    IS(map_it, 4);
    IS(std::forward_list<int>::const_iterator, 3);
    IS(std::istream_iterator<int>, 2);
    IS(std::istreambuf_iterator<char>, 2);
    IS(std::back_insert_iterator<std::vector<int>>, 1);
    IS(std::ostream_iterator<int>, 1);
    // NOTE: it has no arrow.
    IS(std::vector<bool>::iterator, 1);
    IS(int, 0);
    IS(void, 0);
    IS(std::string, 0);
    IS(int &, 0);
    IS(int[3], 0);
#undef IS
    const auto out = [&](const char *what, bool got, bool exp) {
        c.check(got == exp, "output or mutable iterators", [&] { return cat(what, ": ", got); });
        c.event("traits");
    };
    using L0 = lame<0>;
    using BI = std::back_insert_iterator<std::vector<int>>;
    using MI = std::map<int, int>::iterator;
#define OUT(...) out(#__VA_ARGS__, (__VA_ARGS__), true)
#define NOUT(...) out(#__VA_ARGS__, (__VA_ARGS__), false)
    OUT(obake::is_output_iterator_v<L0, int>);
    OUT(obake::is_output_iterator_v<int *, const int &>);
    NOUT(obake::is_output_iterator_v<const int *, int>);
    NOUT(obake::is_output_iterator_v<int *, std::string>);
    OUT(obake::is_output_iterator_v<BI, int>);
    NOUT(obake::is_output_iterator_v<BI, std::string>);
    NOUT(obake::is_output_iterator_v<int, int>);
    NOUT(obake::is_output_iterator_v<MI, int>);
    OUT(obake::is_mutable_forward_iterator_v<I::fwd_mut>);
    NOUT(obake::is_mutable_forward_iterator_v<I::fwd>);
    OUT(obake::is_mutable_forward_iterator_v<I::ran_int>);
    NOUT(obake::is_mutable_forward_iterator_v<std::istream_iterator<int>>);
    OUT(obake::is_mutable_forward_range_v<std::vector<int> &>);
    NOUT(obake::is_mutable_forward_range_v<const std::vector<int> &>);
    NOUT(obake::is_mutable_forward_range_v<std::vector<int>>);
    NOUT(obake::is_mutable_forward_range_v<std::set<int> &>);
#define RIS(R, n) is(#R, rlevel<R>(), n)
    using S = std::string;
    using mf = mem_range<I::fwd, S>;
    using ab = adl_range<I::bid, S>;
    using lr = lv_range<I::ran, S>;
    using cf = cat_range<I::fwd, S>;
    using mi = mem_range<I::in_own, S>;
    RIS(mf, 3);
    RIS(mf &, 3);
    RIS(const mf &, 3);
    RIS(mf &&, 3);
    RIS(ab, 4);
    RIS(const ab, 4);
    RIS(lr &, 5);
    RIS(lr, 0);
    RIS(const lr &, 0);
    RIS(cf &, 3);
    RIS(const cf &, 3);
    RIS(cf &&, 3);
    RIS(mi, 2);
    RIS(std::vector<int>, 5);
    RIS(std::vector<int> &, 5);
    RIS(const std::list<int> &, 4);
    RIS(std::forward_list<int> &, 3);
    RIS(std::initializer_list<int>, 5);
    RIS(int(&)[4], 5);
    RIS(const int(&)[4], 5);
    RIS(both_range &, 5);
    RIS(const both_range &, 0);
    RIS(no_end &, 0);
    RIS(other_end &, 0);
    RIS(no_iter &, 0);
    RIS(int, 0);
    RIS(int &, 0);
    RIS(int *, 0);
    RIS(void, 0);
}

VF_WORKLOAD("begin-end", 400, 4000)
{
    auto &r = c.rng;
    std::vector<int> v(r.below(9));
    for (auto &x : v) {
        x = static_cast<int>(r.below(100));
    }
    const auto rd = [](auto b, auto e) {
        std::vector<int> o;
        for (; b != e; ++b) {
            o.push_back(*b);
        }
        return o;
    };
    const auto same = [&](const char *what, const std::vector<int> &got, const std::vector<int> &exp) {
        c.check(got == exp, "begin and end", [&] { return cat(what, ", ", v.size(), " elements"); });
        c.event("pairs of begin and end");
    };
#define SAME(x, exp) same(#x, rd(obake::begin(x), obake::end(x)), exp)
    SAME(v, v);
    SAME(std::as_const(v), v);
    const std::list<int> l(v.begin(), v.end());
    SAME(l, v);
    const std::multiset<int> ms(v.begin(), v.end());
    auto sorted = v;
    std::sort(sorted.begin(), sorted.end());
    SAME(ms, sorted);
    int arr[3] = {1, static_cast<int>(v.size()), 3};
    SAME(arr, (std::vector<int>{1, arr[1], 3}));
    SAME(std::as_const(arr), (std::vector<int>{1, arr[1], 3}));
    both_range b;
    SAME(b, (std::vector<int>{7, 8}));
    Owner<int> o(v), o1(std::vector<int>{1}), o2(std::vector<int>{2, 2});
    using I = Its<int>;
    {
        mem_range<I::in_own, int> x{&o};
        SAME(x, v);
    }
    o.pos = 0;
    SAME((adl_range<I::in_val, int>{&o}), v);
    SAME((adl_range<I::ran, int>{&o}), v);
    lv_range<I::bid, int> lv{&o};
    SAME(lv, v);
    cat_range<I::fwd, int> x{&o, &o1, &o2};
    SAME(x, v);
    SAME(std::as_const(x), (std::vector<int>{1}));
    SAME(std::move(x), (std::vector<int>{2, 2}));
    // They are the very elements.
    if (!v.empty()) {
        c.check(&*obake::begin(v) == v.data(), "elements of the range itself");
        *obake::begin(v) = 1234;
        c.check(v[0] == 1234, "written through begin");
    }
    c.check(o.n_faults == 0u && o1.n_faults == 0u && o2.n_faults == 0u, "use of iterators");
    c.seen(cat(v.size(), sorted.empty() ? 0 : sorted[0]));
}
