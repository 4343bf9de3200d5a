// The printed forms of series, parsed back.
#ifndef C19_PRINT_HPP
#define C19_PRINT_HPP

#include "dump.hpp"

#include <cctype>
#include <limits>
#include <optional>
#include <sstream>
#include <stdexcept>

#include <obake/math/degree.hpp>
#include <obake/tex_stream_insert.hpp>
#include <obake/type_name.hpp>

namespace c19
{

using namespace vf;

template <typename S>
inline constexpr bool is_ps = false;
template <typename K, typename C>
inline constexpr bool is_ps<obake::p_series<K, C>> = true;

struct parse_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// A monomial to a power (as many bits as the model has).
inline MP var_pow(const std::string &s, i128 e)
{
    MP r;
    Mono m{};
    m[pool_idx(s)] = static_cast<i64>(e);
    r.t[m] = 1;
    return r;
}
inline MP divide(const MP &a, const MP &b)
{
    if (b.size() != 1) {
        throw parse_error("denominator with several terms");
    }
    const auto &[mb, qb] = *b.t.begin();
    MP r;
    for (const auto &[m, q] : a.t) {
        Mono x;
        for (std::size_t i = 0; i < NP; ++i) {
            x[i] = static_cast<i64>(static_cast<u64>(m[i]) - static_cast<u64>(mb[i]));
        }
        const Q qq = q / qb;
        r.add(x, qq);
    }
    return r;
}

// A parser of sums of products, for both the plain and the TeX forms.
struct Parser {
    const std::string &s;
    bool tex;
    std::size_t p = 0;
    // Terms read at the outermost level, and whether an ellipsis follows.
    std::size_t terms = 0;
    std::size_t inner_truncations = 0;
    bool ellipsis = false;
    int depth = 0;

    bool at(const char *w) const
    {
        return s.compare(p, std::char_traits<char>::length(w), w) == 0;
    }
    bool eat(const char *w)
    {
        if (at(w)) {
            p += std::char_traits<char>::length(w);
            return true;
        }
        return false;
    }
    void need(const char *w)
    {
        if (!eat(w)) {
            throw parse_error(cat("expected ", w, " at ", p));
        }
    }
    bool end() const
    {
        return p >= s.size();
    }
    char cur() const
    {
        return end() ? '\0' : s[p];
    }
    static bool digit(char c)
    {
        return c >= '0' && c <= '9';
    }
    i128 integer()
    {
        const bool neg = eat("-");
        if (!digit(cur())) {
            throw parse_error(cat("integer expected at ", p));
        }
        i128 r = 0;
        while (digit(cur())) {
            r = r * 10 + (s[p++] - '0');
        }
        return neg ? -r : r;
    }
    std::string name()
    {
        std::string r;
        while (std::isalnum(static_cast<unsigned char>(cur())) || cur() == '_') {
            r += s[p++];
        }
        const auto &pl = pool();
        if (std::find(pl.begin(), pl.end(), r) == pl.end()) {
            throw parse_error(cat("unknown symbol ", r));
        }
        return r;
    }
    Q number()
    {
        std::string d;
        while (digit(cur())) {
            d += s[p++];
        }
        Q r{mpz_class(d)};
        if (cur() == '.' && p + 1 < s.size() && digit(s[p + 1])) {
            ++p;
            Q f(1);
            while (digit(cur())) {
                f /= 10;
                r += f * (s[p++] - '0');
            }
        }
        if (cur() == 'e' && p + 2 < s.size() && (s[p + 1] == '+' || s[p + 1] == '-') && digit(s[p + 2])) {
            p += 2;
            const bool neg = s[p - 1] == '-';
            const auto e = integer();
            for (i128 i = 0; i < e; ++i) {
                r = neg ? Q(r / 10) : Q(r * 10);
            }
        }
        if (!tex && cur() == '/') {
            ++p;
            std::string den;
            while (digit(cur())) {
                den += s[p++];
            }
            r /= Q(mpz_class(den));
        }
        return r;
    }
    MP factor()
    {
        if (digit(cur())) {
            return MP(number());
        }
        if (tex) {
            if (eat("\\frac{")) {
                auto n = product();
                need("}{");
                auto d = product();
                need("}");
                return divide(n, d);
            }
            if (eat("\\left(")) {
                ++depth;
                auto r = sum();
                --depth;
                need("\\right)");
                return r;
            }
            need("{");
            const auto n = name();
            need("}");
            i128 e = 1;
            if (eat("^{")) {
                e = integer();
                need("}");
            }
            return var_pow(n, e);
        }
        if (eat("(")) {
            ++depth;
            auto r = sum();
            --depth;
            need(")");
            return r;
        }
        const auto n = name();
        i128 e = 1;
        if (eat("**")) {
            e = integer();
        }
        return var_pow(n, e);
    }
    bool more() const
    {
        if (tex) {
            return !end() && cur() != '+' && cur() != '-' && cur() != ' ' && cur() != '}' && !at("\\right)");
        }
        return cur() == '*';
    }
    MP product()
    {
        auto r = factor();
        while (more()) {
            if (!tex) {
                ++p;
            }
            const auto f = factor();
            // As the product of the model, wrapping.
            MP x;
            for (const auto &[m1, q1] : r.t) {
                for (const auto &[m2, q2] : f.t) {
                    Mono m;
                    for (std::size_t i = 0; i < NP; ++i) {
                        m[i] = static_cast<i64>(static_cast<u64>(m1[i]) + static_cast<u64>(m2[i]));
                    }
                    const Q q = q1 * q2;
                    x.add(m, q);
                }
            }
            r = std::move(x);
        }
        return r;
    }
    MP sum()
    {
        MP r;
        bool first = true;
        while (true) {
            bool neg = false;
            if (eat("-")) {
                neg = true;
            } else if (!first) {
                need("+");
            }
            if (eat(tex ? "\\ldots" : "...")) {
                if (neg) {
                    throw parse_error("negative ellipsis");
                }
                if (depth == 0) {
                    ellipsis = true;
                } else {
                    throw parse_error("inner ellipsis");
                }
                break;
            }
            const auto x = product();
            terms += depth == 0;
            r = neg ? r - x : r + x;
            first = false;
            if (cur() != '+' && cur() != '-') {
                break;
            }
        }
        if (tex && depth > 0 && eat(" + \\mathcal{O}\\left( > ")) {
            // The truncation of a coefficient.
            integer();
            const auto e = s.find(" \\right)", p);
            if (e == std::string::npos) {
                throw parse_error("unterminated truncation");
            }
            p = e + 8u;
            ++inner_truncations;
        }
        return r;
    }
};

template <typename S>
inline void check_terms(Case &c, const S &s, const MP &m, const std::string &txt, bool tex, std::string *rest, const char *what)
{
    Parser p{txt, tex};
    MP got;
    const auto ctx = [&] { return cat(what, ": ", txt.substr(0, 600), " of ", dump(s).substr(0, 600)); };
    try {
        got = p.sum();
    } catch (const std::exception &e) {
        c.check(false, cat(what, ": does not parse").c_str(), [&] { return cat(e.what(), " ", ctx()); });
        return;
    }
    if (rest) {
        *rest = txt.substr(p.p);
    } else {
        c.check(p.end(), cat(what, ": something follows").c_str(), ctx);
    }
    if (s.size() <= 50u) {
        c.check(!p.ellipsis, cat(what, ": ellipsis without need").c_str(), ctx);
        c.check(got == m, cat(what, ": another series").c_str(), [&] { return cat(ctx(), " read as ", mstr(got), " instead of ", mstr(m)); });
        c.event("series parsed back");
        if (p.inner_truncations) {
            c.event("truncations of coefficients parsed back");
        }
    } else {
        // 50 of the terms.
        c.check(p.ellipsis, cat(what, ": no ellipsis").c_str(), ctx);
        c.check(p.terms == 50u && got.size() == 50u, cat(what, ": number of terms").c_str(), ctx);
        bool ok = true;
        for (const auto &[k, q] : got.t) {
            const auto it = m.t.find(k);
            ok = ok && it != m.t.end() && it->second == q;
        }
        c.check(ok, cat(what, ": a term of another series").c_str(), ctx);
        c.event("abridged series parsed back");
    }
}

inline std::optional<std::string> line_after(const std::string &txt, const std::string &prefix)
{
    std::istringstream iss(txt);
    std::string l;
    while (std::getline(iss, l)) {
        if (l.rfind(prefix, 0) == 0) {
            return l.substr(prefix.size());
        }
    }
    return {};
}

inline std::string quoted(const obake::symbol_set &ss)
{
    std::string r = "{";
    for (const auto &n : ss) {
        r += (r.size() > 1 ? ", '" : "'") + n + "'";
    }
    return r + "}";
}

template <typename S>
inline void check_plain(Case &c, const S &s, const MP &m, const std::string &txt)
{
    const auto ctx = [&] { return cat(txt.substr(0, 600), " of ", dump(s).substr(0, 300)); };
    const auto line = [&](const char *prefix, const std::string &e) {
        const auto l = line_after(txt, prefix);
        c.check(l.has_value() && *l == e, cat("header: ", prefix).c_str(), [&] { return cat("expected ", e, " in ", ctx()); });
    };
    line("Key type: ", obake::type_name<obake::series_key_t<S>>());
    line("Coefficient type: ", obake::type_name<obake::series_cf_t<S>>());
    line("Rank: ", std::to_string(obake::series_rank<S>));
    line("Symbol set: ", quoted(s.get_symbol_set()));
    line("Number of terms: ", std::to_string(s.size()));
    if constexpr (is_ps<S>) {
        line("Series type: ", "power series");
        const auto &v = obake::get_truncation(s);
        if (v.index() == 0u) {
            line("Truncation: ", "none");
        } else if (v.index() == 1u) {
            line("Truncation degree: ", std::to_string(std::get<1>(v)));
            c.event("truncations printed");
        } else {
            line("Partial truncation degree: ", cat(std::get<2>(v).first, ", ", quoted(std::get<2>(v).second)));
            c.event("truncations printed");
        }
    }
    const auto p = txt.rfind('\n');
    if (!c.check(p != std::string::npos, "no header", ctx)) {
        return;
    }
    const auto last = txt.substr(p + 1);
    check_terms(c, s, m, last, false, nullptr, "plain");
}

template <typename S>
inline void check_tex(Case &c, const S &s, const MP &m, const std::string &txt)
{
    // Negative powers go to the denominators.
    c.check(txt.find("^{-") == std::string::npos, "tex: negative exponent", [&] { return txt; });
    if constexpr (is_ps<S>) {
        std::string rest, e;
        check_terms(c, s, m, txt, true, &rest, "tex");
        const auto &v = obake::get_truncation(s);
        if (v.index() == 1u) {
            e = cat(" + \\mathcal{O}\\left( > ", std::get<1>(v), " \\right)");
        } else if (v.index() == 2u) {
            e = cat(" + \\mathcal{O}\\left( > ", std::get<2>(v).first, " ; ");
            bool first = true;
            for (const auto &n : std::get<2>(v).second) {
                e += first ? n : ", " + n;
                first = false;
            }
            e += " \\right)";
        }
        c.check(rest == e, "tex: truncation", [&] { return cat(txt, " expected ", e); });
    } else {
        check_terms(c, s, m, txt, true, nullptr, "tex");
    }
}

template <typename S>
inline S gen_any(Rng &r, const GenCfg &g, unsigned level)
{
    if constexpr (is_series_v<obake::series_cf_t<S>>) {
        S s;
        const auto sy = gen_syms(r, g);
        s.set_symbol_set(to_ss(sy));
        s.set_n_segments(static_cast<unsigned>(r.below(4)));
        const auto n = r.below(4);
        for (u64 i = 0; i < n; ++i) {
            Mono m{};
            for (const auto &x : sy) {
                if (r.chance(1, 2)) {
                    m[pool_idx(x)] = r.range(g.emin, g.emax);
                }
            }
            auto in = gen_any<obake::series_cf_t<S>>(r, g, level + 1);
            // Coefficients which are units.
            if (r.chance(1, 4)) {
                in = obake::series_cf_t<S>(r.chance(1, 2) ? 1 : -1);
            }
            s.add_term(make_key<obake::series_key_t<S>>(m, sy), std::move(in));
        }
        return s;
    } else {
        GenCfg g2(g);
        if (level) {
            g2.max_terms = 3;
        }
        auto s = gen_poly<S>(r, g2).s;
        if constexpr (is_ps<S>) {
            if (level && r.chance(1, 2)) {
                obake::set_truncation(s, 20);
            }
        }
        return s;
    }
}

// One term, with an exponent around the limits of the type.
template <typename S>
inline S gen_extreme(Rng &r)
{
    using K = obake::series_key_t<S>;
    using T = typename K::value_type;
    S s;
    s.set_symbol_set(obake::symbol_set{r.pick(pool())});
    const T k = static_cast<T>(r.below(3));
    const std::vector<T> e{r.chance(1, 2) ? static_cast<T>(std::numeric_limits<T>::max() - k) : static_cast<T>(std::numeric_limits<T>::min() + k)};
    try {
        s.add_term(K(e.begin(), e.end()), static_cast<int>(r.range(1, 5)) * (r.chance(1, 2) ? 1 : -1));
    } catch (const std::overflow_error &) {
    }
    return s;
}

template <typename S>
inline void print(Case &c)
{
    auto &r = c.rng;
    using T = typename obake::series_key_t<S>::value_type;
    constexpr bool rec = is_series_v<obake::series_cf_t<S>>;
    GenCfg g;
    g.max_terms = c.idx % 6 == 5 ? 90 : 6;
    g.max_syms = 3;
    g.emin = std::is_signed_v<T> && r.chance(1, 2) ? -3 : 0;
    g.emax = r.chance(1, 4) ? 1 : 12;
    g.cmax = r.chance(1, 2) ? 2 : 30;
    g.huge = !rec && !std::is_same_v<obake::series_cf_t<S>, double>;
    g.dyadic = std::is_same_v<obake::series_cf_t<S>, double>;
    g.fractions = !g.dyadic;
    g.max_log2_seg = 4;
    S s;
    if constexpr (rec) {
        s = gen_any<S>(r, g, 0);
    } else {
        s = c.idx % 10 == 3 ? gen_extreme<S>(r) : gen_any<S>(r, g, 0);
    }
    if constexpr (is_ps<S>) {
        if (r.chance(2, 3)) {
            const auto d = static_cast<int>(r.range(std::is_signed_v<T> ? -3 : 0, 40));
            if (r.chance(1, 2)) {
                obake::set_truncation(s, d);
            } else {
                Syms sy;
                const auto k = r.below(4);
                for (u64 i = 0; i < k; ++i) {
                    sy.insert(r.pick(pool()));
                }
                obake::set_truncation(s, d, to_ss(sy));
            }
        }
    }
    const auto m = to_model(s);
    const auto log = dump(s);
    std::ostringstream a, b, a2;
    const auto fl = a.flags();
    const auto pr = a.precision();
    a << s;
    check_plain(c, s, m, a.str());
    obake::tex_stream_insert(b, s);
    check_tex(c, s, m, b.str());
    c.check(a.flags() == fl && a.precision() == pr && a.good() && b.flags() == fl && b.good(), "state of the stream", [&] { return a.str(); });
    c.check(dump(s) == log, "operand altered", [&] { return log; });
    // Again, after something else on the same stream.
    a2 << "before\n" << s;
    c.check(a2.str() == "before\n" + a.str(), "printed differently", [&] { return a2.str(); });
    // A stream which fails: nothing happens, or it throws if told to.
    {
        std::ostringstream f;
        f.setstate(std::ios_base::badbit);
        f << s;
        c.check(f.str().empty(), "printed to a failed stream", [&] { return f.str(); });
    }
    c.event(rec ? "recursive series" : "series");
    if (!s.empty()) {
        c.seen(log);
    }
    c.sample(b.str().substr(0, 300));
}

} // namespace c19

#define C19_TYPE(name, n, ...)                                                                                         \
    VF_WORKLOAD("print-" name, n, (n)*40)                                                                              \
    {                                                                                                                  \
        c19::print<__VA_ARGS__>(c);                                                                                    \
    }

#endif
