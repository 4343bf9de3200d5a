// Symbols with any names: what is printed consists of the terms, as they are printed each on its own.
#include "c19_print.hpp"

using namespace vf;

namespace
{

template <typename S>
S term_of(const S &s, const typename S::const_iterator &it)
{
    S r;
    r.set_symbol_set_fw(s.get_symbol_set_fw());
    r.add_term(it->first, it->second);
    return r;
}

template <typename S>
std::string text(const S &s, bool tex)
{
    std::ostringstream os;
    if (tex) {
        obake::tex_stream_insert(os, s);
    } else {
        os << s;
        // The terms are what follows the last newline.
        const auto t = os.str();
        return t.substr(t.rfind('\n') + 1u);
    }
    return os.str();
}

template <typename S>
void each(Case &c, const S &s)
{
    for (int tex = 0; tex < 2; ++tex) {
        const auto got = text(s, tex);
        std::string e;
        unsigned n = 0;
        for (auto it = s.begin(); it != s.end() && n < 50u; ++it, ++n) {
            const auto t = text(term_of(s, it), tex);
            std::ostringstream k;
            if (tex) {
                obake::key_tex_stream_insert(k, it->first, s.get_symbol_set());
            } else {
                obake::key_stream_insert(k, it->first, s.get_symbol_set());
            }
            // A minus which is part of a name is not a sign.
            e += (n && (t[0] != '-' || t == k.str()) ? "+" : "") + t;
            c.check(obake::key_is_one(it->first, s.get_symbol_set())
                        || (t.size() >= k.str().size() && t.compare(t.size() - k.str().size(), std::string::npos, k.str()) == 0),
                    "a term does not end with its key", [&] { return cat(t, " and ", k.str()); });
            c.event("terms printed");
        }
        if (s.empty()) {
            e = "0";
        }
        if (s.size() > 50u) {
            e += tex ? "+\\ldots" : "+...";
        }
        c.check(got == e, "a series is not printed as its terms", [&] { return cat(got, " and ", e); });
        if (got.find("+-") != std::string::npos) {
            c.event("names with signs");
        }
    }
    c.sample(text(s, false).substr(0, 300));
    if (!s.empty()) {
        c.seen(text(s, false));
    }
}

template <typename S, typename F>
S with_names(Rng &r, unsigned terms, F &&cf)
{
    static const std::vector<std::string> names{"+-", "a+-b", "\\pi^{+-}", "-+", "x+", "-", "+", "\xc3\xa9", "x y", "+-+-", "x", "-y"};
    obake::symbol_set ss;
    const auto n = 1u + r.below(4);
    while (ss.size() < n) {
        ss.insert(r.pick(names));
    }
    S s;
    s.set_symbol_set(ss);
    s.set_n_segments(static_cast<unsigned>(r.below(3)));
    for (unsigned i = 0; i < terms; ++i) {
        std::vector<std::int64_t> v;
        for (std::size_t j = 0; j < n; ++j) {
            v.push_back(r.chance(1, 3) ? 0 : r.range(-2, 9));
        }
        s.add_term(obake::series_key_t<S>(v.begin(), v.end()), cf());
    }
    return s;
}

} // namespace

VF_WORKLOAD("print-names", 250, 10000)
{
    auto &r = c.rng;
    const auto cf = [&] { return rat_t(static_cast<int>(r.range(-3, 3)), static_cast<int>(r.range(1, 3))); };
    using P = obake::polynomial<pm_t<std::int64_t>, rat_t>;
    using D = obake::polynomial<dpm_t<std::int64_t, 2>, rat_t>;
    using PP = obake::polynomial<pm_t<std::int64_t>, P>;
    const auto n = static_cast<unsigned>(r.chance(1, 10) ? 70u : r.below(6));
    each(c, with_names<P>(r, n, cf));
    each(c, with_names<D>(r, n, cf));
    each(c, with_names<PP>(r, n % 5u, [&] { return with_names<P>(r, static_cast<unsigned>(r.below(3)), cf); }));
}

using L = obake::polynomial<pm_t<std::uint32_t>, i128>;
C19_TYPE("pu32-int128", 600, L)

// Numbers of 128 bits, which the streams of the standard library do not know of.
VF_WORKLOAD("print-128", 200, 10000)
{
    auto &r = c.rng;
    for (int i = 0; i < 50; ++i) {
        const auto a = ((static_cast<u128>(r.next()) << 64) + r.next()) >> r.below(128);
        const u128 n = r.chance(1, 8) ? ~u128(0) - r.below(3) : r.chance(1, 8) ? (u128(1) << 127) - 1u + r.below(3) : a;
        const auto m = static_cast<i128>(n);
        const mpz_class e = (mpz_class(static_cast<unsigned long>(n >> 64)) << 64) + mpz_class(static_cast<unsigned long>(n));
        std::ostringstream x[4];
        obake::cf_stream_insert(x[0], n);
        obake::tex_stream_insert(x[1], n);
        obake::cf_stream_insert(x[2], m);
        obake::tex_stream_insert(x[3], m);
        c.check(x[0].str() == e.get_str() && x[1].str() == x[0].str(), "unsigned number of 128 bits", [&] { return cat(x[0].str(), " for ", e.get_str()); });
        c.check(x[2].str() == to_q(m).get_str() && x[3].str() == x[2].str(), "number of 128 bits", [&] { return cat(x[2].str(), " for ", to_q(m).get_str()); });
        c.event("numbers of 128 bits");
        c.seen(e.get_str());
    }
    c.sample("numbers");
}
