// P19: user-defined scanners, stream extraction, discarding and nested scans.
//
// "wrappers": a user type that delegates to a built-in scanner (by inheriting
//   it, by a nested scn::scan over the context's range, by delegation with
//   advance_to, inside ranges and tuples, discarded) must give exactly what the
//   built-in fields it stands for give at its place.
// "probe": a scanner that records what it is shown (its specification, the rest
//   of the source) and answers as told (how far it read, or which error).
// "streams": operator>> running every short program of istream operations, with
//   a std::istringstream over the rest of the text as the reference.
#include "model/strings.h"
#include "sources.h"
#include <scn/istream.h>
#include <scn/ranges.h>
#include <sstream>
using mc::Run;
using src::CookieFile;
using src::Exact;
using src::Out;

// ---- user types ----
template <typename T>
struct Inherit {  // inherits the scanner of T
    T v{};
};
template <typename T>
struct Nested {  // nested scn::scan with "{}"
    T v{};
};
template <typename T>
struct NestedValue {  // nested scn::scan_value
    T v{};
};
struct Pt {  // nested "{},{}"
    int x{};
    std::string y;
};
struct Two {  // delegation to two scanners
    int x{};
    std::string y;
};
struct Deep {  // nested user type inside a nested scan: "<{}>"
    Pt p;
};
struct Probe {
    std::string spec, rest;
};

namespace scn {
template <typename T, typename CharT>
struct scanner<Inherit<T>, CharT> : scanner<T, CharT> {
    template <typename Ctx>
    auto scan(Inherit<T>& val, Ctx& ctx) const
    {
        return scanner<T, CharT>::scan(val.v, ctx);
    }
};
template <typename CharT>
struct NoSpec {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
};
template <typename CharT>
constexpr auto fmt_of(const char* n, const wchar_t* w)
{
    if constexpr (std::is_same_v<CharT, char>) return std::string_view(n);
    else return std::wstring_view(w);
}
#define FMT(s) scn::runtime_format(fmt_of<CharT>(s, L##s))
template <typename T, typename CharT>
struct scanner<Nested<T>, CharT> : NoSpec<CharT> {
    template <typename Ctx>
    auto scan(Nested<T>& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        auto r = scn::scan<T>(ctx.range(), FMT("{}"));
        if (!r) return unexpected(r.error());
        val.v = std::move(r->value());
        return r->begin();
    }
};
template <typename T, typename CharT>
struct scanner<NestedValue<T>, CharT> : NoSpec<CharT> {
    template <typename Ctx>
    auto scan(NestedValue<T>& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        auto r = scn::scan_value<T>(ctx.range());
        if (!r) return unexpected(r.error());
        val.v = std::move(r->value());
        return r->begin();
    }
};
template <typename CharT>
struct scanner<Pt, CharT> : NoSpec<CharT> {
    template <typename Ctx>
    auto scan(Pt& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        return scn::scan<int, std::string>(ctx.range(), FMT("{},{}")).transform([&](auto r) {
            std::tie(val.x, val.y) = r.values();
            return r.begin();
        });
    }
};
template <typename CharT>
struct scanner<Two, CharT> : NoSpec<CharT> {
    template <typename Ctx>
    auto scan(Two& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        return scanner<int, CharT>{}.scan(val.x, ctx).and_then([&](auto it) {
            ctx.advance_to(it);
            return scanner<std::string, CharT>{}.scan(val.y, ctx);
        });
    }
};
template <typename CharT>
struct scanner<Deep, CharT> : NoSpec<CharT> {
    template <typename Ctx>
    auto scan(Deep& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        auto r = scn::scan<Pt>(ctx.range(), FMT("<{}>"));
        if (!r) return unexpected(r.error());
        val.p = std::move(r->value());
        return r->begin();
    }
};
}  // namespace scn

// reprs flatten user types into the built-in values they stand for (found by
// argument-dependent lookup)
using src::repr;
template <typename T>
std::string repr(const Inherit<T>& w) { return repr(w.v); }
template <typename T>
std::string repr(const Nested<T>& w) { return repr(w.v); }
template <typename T>
std::string repr(const NestedValue<T>& w) { return repr(w.v); }
inline std::string repr(const Pt& p) { return repr(p.x) + "," + repr(p.y); }
inline std::string repr(const Two& p) { return repr(p.x) + "," + repr(p.y); }
inline std::string repr(const Deep& p) { return repr(p.p); }
inline std::string repr(const Probe& p) { return repr(p.spec) + "/" + repr(p.rest); }
namespace scn {
template <typename T>
std::string repr(const discard<T>&) { return "_"; }
}
template <typename T>
bool operator<(const Inherit<T>& a, const Inherit<T>& b) { return a.v < b.v; }

// ---- running on all kinds of sources ----
struct Got {
    const char* src;
    Out o;
};
template <typename... T>
static std::string vals(const std::tuple<T...>& t)
{
    std::string s;
    std::apply([&](const auto&... v) { ((s += repr(v) + ","), ...); }, t);
    return s;
}
template <typename... T, typename S, typename F>
static Out one(const S& s, const F& fmt)
{
    Out o;
    auto r = scn::scan<T...>(s, scn::runtime_format(fmt));
    ++Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = vals(r->values());
        o.consumed = long(std::distance(s.begin(), r->begin()));
        if (r->end() != s.end()) o.consumed = -1;
    }
    else
        o.code = r.error().code();
    return o;
}
template <typename... T>
static Out one_file(std::string_view in, std::string_view fmt, uint64_t cuts)
{
    Out o;
    CookieFile cf(in, cuts, 0);
    auto r = scn::scan<T...>(cf.f, scn::runtime_format(fmt));
    ++Run::get().calls;
    o.ok = r.has_value();
    if (r) o.val = vals(r->values());
    else o.code = r.error().code();
    auto rest = cf.rest();
    o.consumed = rest.size() <= in.size() && in.substr(in.size() - rest.size()) == rest ? long(in.size() - rest.size()) : -1;
    if (!o.ok) o.consumed = 0;
    return o;
}
template <bool wide, typename... T>
static std::vector<Got> run_all(const std::string& in, const std::string& fmt)
{
    std::vector<Got> g;
    Exact<char> ex(in);
    g.push_back({"view", one<T...>(ex.view(), fmt)});
    std::deque<char> d(in.begin(), in.end());
    g.push_back({"deque", one<T...>(d, fmt)});
    g.push_back({"FILE", one_file<T...>(in, fmt, ~uint64_t(0))});
    g.push_back({"FILE2", one_file<T...>(in, fmt, 0)});
    if constexpr (wide) {
        std::wstring wi(in.begin(), in.end()), wf(fmt.begin(), fmt.end());
        Exact<wchar_t> wex(wi);
        g.push_back({"wide", one<T...>(wex.view(), wf)});
        std::deque<wchar_t> wd(wi.begin(), wi.end());
        g.push_back({"wide deque", one<T...>(wd, wf)});
    }
    return g;
}

static void compare(const std::string& what, const std::string& in, const std::vector<Got>& want, const std::vector<Got>& got, bool values = true)
{
    auto& R = Run::get();
    for (size_t i = 0; i < got.size(); ++i) {
        ++R.checks;
        bool same = want[i].o.ok == got[i].o.ok && want[i].o.consumed == got[i].o.consumed &&
                    (got[i].o.ok ? !values || want[i].o.val == got[i].o.val : want[i].o.code == got[i].o.code);
        // a bad specification of a user type may be noticed after reading
        if (want[i].o.code == 1 && !got[i].o.ok) same = true;
        if (!same)
            R.fail(what + "|" + got[i].src + "|" + mc::esc(in), "built-in: " + want[i].o.str() + " user: " + got[i].o.str());
    }
}

// C: the types with user ones; B: the built-in types, with the format expanded
template <typename... B>
struct BT {};
template <typename... C>
struct CT {};
template <bool wide = true, typename... B, typename... C>
static void pairwise(BT<B...>, CT<C...>, const char* name, const std::vector<std::pair<std::string, std::string>>& fmts, const std::string& in, bool values = true)
{
    auto& R = Run::get();
    for (auto& [bf, cf] : fmts) {
        if (!R.take([&, &bf = bf, &cf = cf] { return std::string(name) + " " + cf + " ~ " + bf + " \"" + mc::esc(in) + "\""; })) continue;
        auto want = run_all<wide, B...>(in, bf);
        auto got = run_all<wide, C...>(in, cf);
        R.outcome(std::string(name) + cf + want[0].o.str());
        compare(std::string(name) + "|" + cf, in, want, got, values);
    }
}
static std::vector<std::pair<std::string, std::string>> same(std::vector<std::string> v)
{
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& s : v) r.push_back({s, s});
    return r;
}

static void wrappers(const std::string& in)
{
    using scn::discard;
    using S = std::string;
    static const auto one_f = same({"{}", "a{}", "{} ,", "{}{{"});
    static const auto two_f = same({"{}{}", "{} {}", "{},{}", "{1}{0}", "{1},{0}", "a{}{}", "{}<{}"});
    static const auto int_f = same({"{:d}", "{:x}", "{:3}", "{:>3}", "{:.2}", "{:i}{:d}", "{:*<4}", "{0:b}", "{:c}", "{:s}", "{:Q}", "{:"});
    static const auto str_f = same({"{:.2}", "{:[a-c]}", "{:3c}", "{:s}", "{:/<4}", "{:d}", "{:[^,]},", "{:Q}"});
    pairwise(BT<int>{}, CT<Inherit<int>>{}, "inherit int", one_f, in);
    pairwise(BT<int>{}, CT<Inherit<int>>{}, "inherit int", int_f, in);
    pairwise(BT<S>{}, CT<Inherit<S>>{}, "inherit string", one_f, in);
    pairwise(BT<S>{}, CT<Inherit<S>>{}, "inherit string", str_f, in);
    pairwise(BT<double>{}, CT<Inherit<double>>{}, "inherit double", one_f, in);
    pairwise(BT<char32_t>{}, CT<Inherit<char32_t>>{}, "inherit char32_t", one_f, in);
    pairwise(BT<bool>{}, CT<Inherit<bool>>{}, "inherit bool", one_f, in);
    pairwise(BT<int, S>{}, CT<Inherit<int>, S>{}, "inherit int,string", two_f, in);
    pairwise(BT<S, int>{}, CT<S, Inherit<int>>{}, "string,inherit int", two_f, in);
    pairwise(BT<int, S>{}, CT<Inherit<int>, Nested<S>>{}, "inherit int,nested string", two_f, in);

    pairwise(BT<int>{}, CT<Nested<int>>{}, "nested int", one_f, in);
    pairwise(BT<S>{}, CT<Nested<S>>{}, "nested string", one_f, in);
    pairwise(BT<char32_t>{}, CT<Nested<char32_t>>{}, "nested char32_t", one_f, in);
    pairwise(BT<double>{}, CT<Nested<double>>{}, "nested double", one_f, in);
    pairwise(BT<int>{}, CT<NestedValue<int>>{}, "nested value int", one_f, in);
    pairwise(BT<S>{}, CT<NestedValue<S>>{}, "nested value string", one_f, in);
    pairwise(BT<S, int>{}, CT<NestedValue<S>, Nested<int>>{}, "nested value string,nested int", two_f, in);
    pairwise(BT<int, int, S>{}, CT<int, Nested<int>, S>{}, "int,nested int,string", same({"{}{}{}", "{},{},{}", "{1}{2}{0}", "{} {} {}"}), in);

    pairwise(BT<int, S>{}, CT<Pt>{}, "point", {{"{},{}", "{}"}, {"a{},{}", "a{}"}, {" {},{} ,", " {} ,"}}, in);
    pairwise(BT<int, int, S, S>{}, CT<int, Pt, S>{}, "int,point,string", {{"{} {},{} {}", "{} {} {}"}, {"{},{},{},{}", "{},{},{}"}, {"{}{},{}{}", "{}{}{}"}}, in);
    pairwise(BT<int, S>{}, CT<Two>{}, "two", {{"{}{}", "{}"}, {"a{}{}", "a{}"}, {"{}{},", "{},"}}, in);
    pairwise(BT<int, S, int>{}, CT<Two, int>{}, "two,int", {{"{}{}{}", "{}{}"}, {"{}{},{}", "{},{}"}}, in);
    pairwise(BT<int, S>{}, CT<Deep>{}, "deep", {{"<{},{}>", "{}"}, {"a<{},{}>a", "a{}a"}}, in);

    pairwise(BT<int>{}, CT<discard<int>>{}, "discard int", one_f, in, false);
    pairwise(BT<int>{}, CT<discard<int>>{}, "discard int", int_f, in, false);
    pairwise(BT<S>{}, CT<discard<S>>{}, "discard string", one_f, in, false);
    pairwise(BT<S>{}, CT<discard<S>>{}, "discard string", str_f, in, false);
    pairwise(BT<double>{}, CT<discard<double>>{}, "discard double", one_f, in, false);
    pairwise(BT<Pt>{}, CT<discard<Pt>>{}, "discard point", one_f, in, false);
    pairwise(BT<bool>{}, CT<discard<Inherit<bool>>>{}, "discard inherit bool", one_f, in, false);
    pairwise(BT<S, discard<int>, S>{}, CT<S, discard<Nested<int>>, S>{}, "discard in between", same({"{}{}{}", "{},{},{}", "{2}{1}{0}"}), in);
}

// built-in and user fields in every order, each with and without a specification
static void mixed(const std::string& in)
{
    using S = std::string;
    using Ii = Inherit<int>;
    static const auto fmts = [] {
        std::vector<std::string> f;
        const char* sp[] = {"", ":", ":d"};
        const char* ss[] = {"", ":"};
        for (auto a : sp)
            for (auto b : ss)
                for (auto c : sp)
                    for (const char* sep : {"", ",", "o"}) {
                        if (*sep == 'o')
                            f.push_back(S("{2") + c + "}{0" + a + "}{1" + b + "}");
                        else
                            f.push_back(S("{") + a + "}" + sep + "{" + b + "}" + sep + "{" + c + "}");
                    }
        return same(f);
    }();
    pairwise<false>(BT<int, char, int>{}, CT<Ii, char, Ii>{}, "mixed user,built-in,user", fmts, in);
    pairwise<false>(BT<int, S, int>{}, CT<Ii, Nested<S>, Ii>{}, "mixed user,user,user", fmts, in);
    pairwise<false>(BT<int, S, int>{}, CT<int, Nested<S>, Ii>{}, "mixed built-in,user,user", fmts, in);
    pairwise<false>(BT<int, char32_t, int>{}, CT<Ii, Inherit<char32_t>, int>{}, "mixed user,user,built-in", fmts, in);
}

// every built-in type with every specification: inherited, and discarded
template <typename T>
static void every_spec(const char* name)
{
    auto& R = Run::get();
    static const std::vector<std::string> toks = {"d", "x", "i", "u", "b", "o", "c", "s", "a", "e", "f", "g", "p", "B", "X", "E", "L", "3", ".2", "<", ">", "^", "*>", "[a-c]", "[^,]", "/a/", "r", "?", "%Y"};
    mc::for_strings(toks, 0, R.thorough ? 3 : 2, [&](const std::string& sp) {
        for (const char* in : {"a", "12", "-1", "0x1f", " 7 ", "true", "0", "1", "*ab*", "", "\xc3\xa4,", "1e3", "c", "111111111111111111111111"}) {
            const std::string fmt = "{:" + sp + "}", t = in;
            auto key = [&] { return std::string("every spec ") + name + " " + fmt + " \"" + mc::esc(t) + "\""; };
            if (!R.take(key)) continue;
            auto cmp = [&](const char* s, const Out& b, Out u, bool values) {
                ++R.checks;
                bool ok = b.ok == u.ok && b.consumed == u.consumed && (b.ok ? !values || b.val == u.val : b.code == u.code);
                if (b.code == 1 && !b.ok && !u.ok) ok = true;
                if (!ok) R.fail(std::string(s) + "|" + key(), "built-in: " + b.str() + " user: " + u.str());
            };
            Exact<char> ex(t);
            auto b = one<T>(ex.view(), fmt);
            cmp("inherited", b, one<Inherit<T>>(ex.view(), fmt), true);
            cmp("discarded", b, one<scn::discard<T>>(ex.view(), fmt), false);
            if constexpr (!std::is_same_v<T, std::string_view>) {
                std::deque<char> d(t.begin(), t.end());
                cmp("deque inherited", one<T>(d, fmt), one<Inherit<T>>(d, fmt), true);
                if constexpr (!std::is_same_v<T, char>) {
                    std::wstring wi(t.begin(), t.end()), wf(fmt.begin(), fmt.end());
                    Exact<wchar_t> wex(wi);
                    cmp("wide inherited", one<T>(wex.view(), wf), one<Inherit<T>>(wex.view(), wf), true);
                }
            }
            R.outcome(b.str());
        }
    });
}

// the values around a discarded field are those around the kept one
static void discards(const std::string& in)
{
    auto& R = Run::get();
    using S = std::string;
    for (const char* f : {"{}{}{}", "{},{},{}", "{2}{1}{0}", "{}{:x}{}", "{} {} {}"}) {
        if (!R.take([&] { return std::string("discard middle ") + f + " \"" + mc::esc(in) + "\""; })) continue;
        auto strip = [](std::vector<Got> g) {
            for (auto& x : g) {
                if (!x.o.ok) continue;
                auto a = x.o.val.find(','), b = x.o.val.find(',', a + 1);
                x.o.val = x.o.val.substr(0, a) + ",_" + x.o.val.substr(b);
            }
            return g;
        };
        compare(std::string("discard middle|") + f, in, strip(run_all<true, int, int, int>(in, f)), run_all<true, int, scn::discard<int>, int>(in, f));
        compare(std::string("discard first|") + f, in, strip(run_all<false, char, int, int>(in, f)), strip(run_all<false, char, scn::discard<int>, int>(in, f)));
        (void)sizeof(S);
    }
}

static void containers(const std::string& in)
{
    using S = std::string;
    using Ii = Inherit<int>;
    static const auto f = same({"{}", "a{}", "{} ,"});
    static const auto fe = same({"{}", "{::x}", "{:3}", "{::.2}"});
    pairwise<false>(BT<std::vector<int>>{}, CT<std::vector<Ii>>{}, "vector<inherit int>", fe, in);
    pairwise<false>(BT<std::vector<S>>{}, CT<std::vector<Nested<S>>>{}, "vector<nested string>", f, in);
    pairwise<false>(BT<std::set<int>>{}, CT<std::set<Ii>>{}, "set<inherit int>", f, in);
    pairwise<false>(BT<std::map<int, S>>{}, CT<std::map<Ii, Nested<S>>>{}, "map", f, in);
    pairwise<false>(BT<std::pair<int, S>>{}, CT<std::pair<Nested<int>, Inherit<S>>>{}, "pair", f, in);
    pairwise<false>(BT<std::tuple<int, double, S>>{}, CT<std::tuple<Ii, Nested<double>, Nested<S>>>{}, "tuple", f, in);
    pairwise<false>(BT<std::vector<std::vector<int>>>{}, CT<std::vector<Nested<std::vector<int>>>>{}, "vector<nested vector>", f, in);
    pairwise<false>(BT<std::vector<int>>{}, CT<Nested<std::vector<int>>>{}, "nested vector", f, in);
    pairwise<false>(BT<std::vector<int>>{}, CT<Inherit<std::vector<int>>>{}, "inherit vector", fe, in);
    pairwise<false>(BT<std::vector<int>, int>{}, CT<scn::discard<std::vector<int>>, int>{}, "discard vector", same({"{}{}", "{},{}"}), in, false);
    pairwise<false>(BT<std::map<int, S>>{}, CT<scn::discard<std::map<int, S>>>{}, "discard map", f, in, false);
    pairwise<false>(BT<std::pair<int, S>>{}, CT<scn::discard<std::pair<Nested<int>, S>>>{}, "discard pair", f, in, false);
}

// ---- probe: what a scanner is shown, and what becomes of its answer ----
static long g_take;      // code units the probe consumes
static int g_err = -1;   // or the error it returns
static int g_parse;      // 0 accept all up to '}', 1 throw, 2 on_error, 3 nothing
static int g_parsed, g_scanned;
namespace scn {
template <typename CharT>
struct scanner<Probe, CharT> {
    std::string spec;
    template <typename P>
    auto parse(P& p) -> typename P::iterator
    {
        ++g_parsed;
        auto it = p.begin();
        if (g_parse == 1) throw scan_format_string_error("probe");
        if (g_parse == 2) {
            p.on_error("probe");
            return it;
        }
        if (g_parse == 3) return it;
        int depth = 0;
        for (; it != p.end(); ++it) {
            if (*it == CharT('}') && depth-- == 0) break;
            if (*it == CharT('{')) ++depth;
            spec += char(*it);
        }
        return it;
    }
    template <typename Ctx>
    auto scan(Probe& val, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        ++g_scanned;
        val.spec = spec;
        auto r = ctx.range();
        for (auto it = r.begin(); it != r.end(); ++it) val.rest += char(*it);
        if (g_err >= 0) return scn::unexpected(scan_error{static_cast<decltype(scan_error::end_of_input)>(g_err), "probe"});
        auto it = r.begin();
        for (long i = 0; i < g_take && it != r.end(); ++i) ++it;
        return it;
    }
};
}  // namespace scn

struct ProbeFmt {
    const char* fmt;
    const char* spec;
    long before;  // literal code units before the probe: the texts start with them
    int then;     // 0 nothing, 1 literal ';' after it, 2 a following char, 3 a preceding char
};
static void probes(const std::string& body)
{
    auto& R = Run::get();
    static const ProbeFmt fmts[] = {
        {"{}", "", 0, 0},       {"{:}", "", 0, 0},        {"{:abc}", "abc", 0, 0}, {"{:{x}y}", "{x}y", 0, 0}, {"{0:a b}", "a b", 0, 0},
        {"q{}", "", 1, 0},      {"{{{:z}", "z", 1, 0},    {"q{:%Y}", "%Y", 1, 0},  {"{};", "", 0, 1},         {"{:w};", "w", 0, 1},
        {"{}{}", "", 0, 2},     {"{:u}{}", "u", 0, 2},    {"{}{:v}", "v", 1, 3},   {"{1}{0:k}", "k", 1, 4},   {"{0:j}{1}", "j", 0, 2},
    };
    for (auto& f : fmts)
        for (int parse = 0; parse < 4; ++parse)
            for (long take = 0; take <= long(body.size()); ++take)
                for (int err = -1; err <= (take == 0 ? 10 : -1); ++err) {
                    if (!R.take([&] { return std::string("probe ") + f.fmt + " take " + std::to_string(take) + " err " + std::to_string(err) + " parse " + std::to_string(parse) + " \"" + mc::esc(body) + "\""; })) continue;
                    std::string lead = f.before ? (f.fmt[0] == '{' && f.fmt[1] == '{' ? "{" : "q") : "";
                    std::string in = lead + body;
                    // expected
                    Out w;
                    std::string spec = f.spec;
                    bool nospec_ok = spec.empty();
                    long after = long(lead.size()) + take;
                    if (parse == 1 || parse == 2 || (parse == 3 && !nospec_ok)) {
                        w.code = 1;
                    }
                    else if (err >= 0) {
                        w.code = err;
                    }
                    else {
                        w.ok = true;
                        w.val = src::repr(parse == 0 ? spec : std::string()) + "/" + src::repr(body) + ",";
                        w.consumed = after;
                        auto rest = std::string_view(in).substr(size_t(after));
                        if (f.then == 1) {
                            if (rest.empty() || rest[0] != ';') {
                                w.ok = false;
                                w.code = 3;
                                w.consumed = 0;
                            }
                            else
                                ++w.consumed;
                        }
                        else if (f.then == 2) {
                            if (rest.empty()) {
                                w.ok = false;
                                w.code = 0;
                                w.consumed = 0;
                            }
                            else {
                                w.val += std::to_string(int(rest[0])) + ",";
                                ++w.consumed;
                            }
                        }
                        else if (f.then == 3)
                            w.val = std::to_string(int('q')) + "," + w.val;
                        else if (f.then == 4)
                            w.val = w.val + std::to_string(int('q')) + ",";
                    }
                    g_parse = parse;
                    g_take = take;
                    g_err = err;
                    auto check = [&](const char* s, auto call) {
                        g_parsed = g_scanned = 0;
                        Out g = call();
                        ++R.checks;
                        auto key = [&] { return std::string("probe|") + f.fmt + "|" + s + "|" + std::to_string(parse) + "," + std::to_string(take) + "," + std::to_string(err) + "|" + mc::esc(in); };
                        if (w.code == 1 && parse == 3 && err >= 0 && g.code == err) return;  // noticed after reading
                        if (!(w == g)) R.fail(key(), "expected: " + w.str() + " got: " + g.str());
                        else if (w.ok && (g_scanned != 1)) R.fail(key(), "scanned " + std::to_string(g_scanned) + " times");
                        else if (g_scanned > 1) R.fail(key(), "scanned " + std::to_string(g_scanned) + " times");
                    };
                    std::string fm = f.fmt;
                    Exact<char> ex(in);
                    std::deque<char> d(in.begin(), in.end());
                    std::wstring wi(in.begin(), in.end()), wf(fm.begin(), fm.end());
                    Exact<wchar_t> wex(wi);
                    if (f.then == 2 || f.then == 4) {
                        check("view", [&] { return one<Probe, char>(ex.view(), fm); });
                        check("deque", [&] { return one<Probe, char>(d, fm); });
                        check("FILE", [&] { return one_file<Probe, char>(in, fm, ~uint64_t(0)); });
                        check("wide", [&] { return one<Probe, wchar_t>(wex.view(), wf); });
                    }
                    else if (f.then == 3) {
                        check("view", [&] { return one<char, Probe>(ex.view(), fm); });
                        check("deque", [&] { return one<char, Probe>(d, fm); });
                        check("FILE", [&] { return one_file<char, Probe>(in, fm, ~uint64_t(0)); });
                        check("wide", [&] { return one<wchar_t, Probe>(wex.view(), wf); });
                    }
                    else {
                        check("view", [&] { return one<Probe>(ex.view(), fm); });
                        check("deque", [&] { return one<Probe>(d, fm); });
                        check("FILE", [&] { return one_file<Probe>(in, fm, ~uint64_t(0)); });
                        check("wide", [&] { return one<Probe>(wex.view(), wf); });
                    }
                    R.outcome(std::string(f.fmt) + w.str());
                }
}

// ---- stream extraction ----
enum Op { GET, PEEK, UNGET, PUTBACK, PUTOTHER, WS, XCHAR, XINT, XSTR, IGN2, IGNC, READ2, GETL, CLEAR, SETFAIL, SETBAD, SETEOF, NOPS };
static const char* op_names[] = {"get", "peek", "unget", "putback", "putback(other)", "ws", ">>char", ">>int", ">>string", "ignore(2)", "ignore(',')", "read(2)", "getline", "clear", "setstate(fail)", "setstate(bad)", "setstate(eof)"};
static const std::vector<int>* g_prog;
struct Prog {
    std::string log;
};
inline std::string repr(const Prog& p) { return p.log; }
template <typename CharT>
static void run_prog(std::basic_istream<CharT>& is, std::string& log)
{
    using Str = std::basic_string<CharT>;
    auto num = [&](long v) { log += std::to_string(v) + ";"; };
    auto str = [&](const Str& s) {
        for (auto c : s) num(long(c));
        log += "|";
    };
    using Tr = typename std::basic_istream<CharT>::traits_type;
    typename Tr::int_type last = Tr::eof();
    for (int op : *g_prog) {
        switch (op) {
            case GET: {
                auto c = is.get();
                num(Tr::eq_int_type(c, Tr::eof()) ? -1 : long(Tr::to_char_type(c)));
                if (!Tr::eq_int_type(c, Tr::eof())) last = c;
                break;
            }
            case PEEK: {
                auto c = is.peek();
                num(Tr::eq_int_type(c, Tr::eof()) ? -1 : long(Tr::to_char_type(c)));
                break;
            }
            case UNGET: is.unget(); break;
            case PUTBACK:
                if (!Tr::eq_int_type(last, Tr::eof())) is.putback(Tr::to_char_type(last));
                break;
            case PUTOTHER: is.putback(CharT('~')); break;
            case WS: is >> std::ws; break;
            case XCHAR: {
                CharT c{};
                is >> c;
                num(long(c));
                break;
            }
            case XINT: {
                int i = -7;
                is >> i;
                num(i);
                break;
            }
            case XSTR: {
                Str s;
                is >> s;
                str(s);
                break;
            }
            case IGN2: is.ignore(2); num(is.gcount()); break;
            case IGNC: is.ignore(100, Tr::to_int_type(CharT(','))); num(is.gcount()); break;
            case READ2: {
                CharT b[2] = {};
                is.read(b, 2);
                num(is.gcount());
                num(long(b[0]));
                break;
            }
            case GETL: {
                Str s;
                std::getline(is, s);
                str(s);
                break;
            }
            case CLEAR: is.clear(); break;
            case SETFAIL: is.setstate(std::ios_base::failbit); break;
            case SETBAD: is.setstate(std::ios_base::badbit); break;
            case SETEOF: is.setstate(std::ios_base::eofbit); break;
        }
        log += is.good() ? "g" : is.bad() ? "b" : is.fail() ? "f" : "e";
    }
}
static std::istream& operator>>(std::istream& is, Prog& p)
{
    run_prog(is, p.log);
    return is;
}
static std::wistream& operator>>(std::wistream& is, Prog& p)
{
    run_prog(is, p.log);
    return is;
}
template <>
struct scn::scanner<Prog, char> : scn::basic_istream_scanner<char> {};
template <>
struct scn::scanner<Prog, wchar_t> : scn::basic_istream_scanner<wchar_t> {};

template <typename CharT>
static Out want_prog(const std::basic_string<CharT>& in, size_t from)
{
    Out o;
    std::basic_istringstream<CharT> ss(in.substr(from), std::ios_base::in);
    std::string log;
    run_prog<CharT>(ss, log);
    o.ok = !ss.fail();
    if (o.ok) {
        o.val = log + ",";
        ss.clear();
        auto p = ss.tellg();
        o.consumed = long(from) + long(p);
    }
    else
        o.code = ss.eof() ? 0 : ss.bad() ? 6 : 2;
    return o;
}
static void streams(const std::vector<int>& prog, const std::string& in)
{
    auto& R = Run::get();
    if (!R.take([&] {
            std::string s = "stream";
            for (int o : prog) s += std::string(" ") + op_names[o];
            return s + " \"" + mc::esc(in) + "\"";
        }))
        return;
    g_prog = &prog;
    std::string names;
    for (int o : prog) names += std::string(" ") + op_names[o];
    auto chk = [&](const char* s, const Out& w, const Out& g) {
        ++R.checks;
        bool same = w.ok == g.ok && w.consumed == g.consumed && (w.ok ? w.val == g.val : true);
        if (same && !w.ok) same = w.code == g.code;
        if (!same) R.fail("stream|" + names + "|" + s + "|" + mc::esc(in), "istringstream: " + w.str() + " scan: " + g.str());
    };
    Out w0 = want_prog<char>(in, 0);
    Exact<char> ex(in);
    chk("view", w0, one<Prog>(ex.view(), std::string("{}")));
    std::list<char> l(in.begin(), in.end());
    chk("list", w0, one<Prog>(l, std::string("{}")));
    chk("FILE", w0, one_file<Prog>(in, "{}", ~uint64_t(0)));
    std::wstring wi;  // L'\xff', not (wchar_t)-1, which is WEOF
    for (unsigned char c : in) wi += wchar_t(c);
    Exact<wchar_t> wex(wi);
    chk("wide", want_prog<wchar_t>(wi, 0), one<Prog>(wex.view(), std::wstring(L"{}")));
    if (!in.empty() && in[0] == 'a') {
        chk("after a literal", want_prog<char>(in, 1), one<Prog>(ex.view(), std::string("a{}")));
        chk("FILE after a literal", want_prog<char>(in, 1), one_file<Prog>(in, "a{}", 0));
    }
    R.outcome(w0.str());
}
// two streamed fields in a row
static void stream_pairs(const std::vector<int>& prog, const std::string& in)
{
    auto& R = Run::get();
    if (!R.take([&] {
            std::string s = "stream pair";
            for (int o : prog) s += std::string(" ") + op_names[o];
            return s + " \"" + mc::esc(in) + "\"";
        }))
        return;
    g_prog = &prog;
    Out a = want_prog<char>(in, 0);
    Out w = a;
    if (a.ok) {
        Out b = want_prog<char>(in, size_t(a.consumed));
        w = b;
        w.val = a.val + b.val;
    }
    std::string names;
    for (int o : prog) names += std::string(" ") + op_names[o];
    auto chk = [&](const char* s, const Out& g) {
        ++R.checks;
        bool same = w.ok == g.ok && w.consumed == g.consumed && (w.ok ? w.val == g.val : w.code == g.code);
        if (!same) R.fail("stream pair|" + names + "|" + s + "|" + mc::esc(in), "istringstream: " + w.str() + " scan: " + g.str());
    };
    Exact<char> ex(in);
    chk("view", one<Prog, Prog>(ex.view(), std::string("{}{}")));
    std::deque<char> l(in.begin(), in.end());
    chk("deque", one<Prog, Prog>(l, std::string("{}{}")));
    chk("FILE", one_file<Prog, Prog>(in, "{}{}", 0xaaaa));
}

// ---- user types as late (unpacked) arguments ----
template <size_t>
using Int = int;
template <size_t... I>
static Out late_b(const std::string& in, const std::string& f, std::index_sequence<I...>)
{
    return one<Int<I>..., int, std::string>(in, f);
}
template <size_t... I>
static Out late_c(const std::string& in, const std::string& f, std::index_sequence<I...>)
{
    return one<Int<I>..., Inherit<int>, Nested<std::string>>(in, f);
}
template <size_t... I>
static Out late_d(const std::string& in, const std::string& f, std::index_sequence<I...>)
{
    return one<Inherit<int>, Nested<Int<I>>..., std::string>(in, f);
}
template <size_t N>
static void late(const std::string& tail)
{
    auto& R = Run::get();
    if (!R.take([&] { return "late " + std::to_string(N) + " \"" + mc::esc(tail) + "\""; })) return;
    std::string f, in;
    for (size_t i = 0; i < N; ++i) {
        f += "{} ";
        in += std::to_string(i + 1) + " ";
    }
    f += "{} {}";
    in += tail;
    Out b = late_b(in, f, std::make_index_sequence<N>{});
    for (int k = 0; k < 2; ++k) {
        Out c = k ? late_d(in, f, std::make_index_sequence<N>{}) : late_c(in, f, std::make_index_sequence<N>{});
        ++R.checks;
        if (b != c) R.fail("late|" + std::to_string(N) + "|" + std::to_string(k) + "|" + mc::esc(tail), "built-in: " + b.str() + " user: " + c.str());
    }
    R.outcome(b.str());
}
template <size_t... N>
static void lates(const std::string& t, std::index_sequence<N...>)
{
    (late<N>(t), ...);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    bool th = R.thorough;
    if (R.group("wrappers"))
        mc::for_strings({"1", "a", " ", ",", "-", "<", ">", "0x"}, 0, th ? 6 : 5, wrappers);
    if (R.group("mixed"))
        mc::for_strings({"1", "-2", "a", " ", ","}, 0, th ? 6 : 5, mixed);
    if (R.group("discard"))
        mc::for_strings({"1", "2", "a", " ", ",", "-"}, 0, th ? 8 : 7, discards);
    if (R.group("containers")) {
        std::vector<std::string> base = {"[1,2]", "[ 1 , 2 ]", "{1,2}", "{1:a,2:b }", "(1,a )", "(1,2.5,a )", "[[1],[2,3]]", "[]", "[1,2],3", "[12,34]5", "[a ,b ]", "{}", "a[1]", "[1] ,"};
        std::vector<std::string> ins = {"[", "]", "{", "}", "(", ")", ",", ":", "1", "a", " ", "-"};
        for (auto& b : base) {
            containers(b);
            for (size_t p = 0; p <= b.size(); ++p) {
                containers(b.substr(0, p));
                for (auto& i : ins) {
                    containers(b.substr(0, p) + i + b.substr(p));
                    if (p < b.size()) containers(b.substr(0, p) + i + b.substr(p + 1));
                }
                if (p < b.size()) containers(b.substr(0, p) + b.substr(p + 1));
            }
        }
        mc::for_strings(ins, 0, th ? 5 : 4, containers);
    }
    if (R.group("every specification")) {
        every_spec<char>("char");
        every_spec<wchar_t>("wchar_t");
        every_spec<char32_t>("char32_t");
        every_spec<bool>("bool");
        every_spec<signed char>("schar");
        every_spec<unsigned short>("ushort");
        every_spec<unsigned>("unsigned");
        every_spec<long long>("llong");
        every_spec<float>("float");
        every_spec<double>("double");
        every_spec<long double>("ldouble");
        every_spec<void*>("pointer");
        every_spec<std::string>("string");
        every_spec<std::wstring>("wstring");
        every_spec<std::string_view>("string_view");
    }
    if (R.group("probe"))
        mc::for_strings({"a", " ", ";", "{", "\xc3"}, 0, th ? 5 : 4, probes);
    if (R.group("streams")) {
        std::vector<int> ops;
        for (int i = 0; i < NOPS; ++i) ops.push_back(i);
        std::vector<std::string> texts;
        mc::for_strings({"a", "1", " ", ","}, 0, 3, [&](const std::string& s) { texts.push_back(s); });
        texts.push_back("a12,b c");
        texts.push_back("a\xff\xff z");
        texts.push_back("aa\n b");
        mc::for_seqs(ops, 0, th ? 5 : 4, [&](const std::vector<int>& p) {
            for (auto& t : texts) {
                if (p.size() > 3 && t.size() == 3 && (t[0] != 'a' || (!th && t[1] != '1'))) continue;
                if (p.size() > 4 && t.size() < 7) continue;
                streams(p, t);
            }
        });
    }
    if (R.group("stream pairs")) {
        std::vector<int> ops;
        for (int i = 0; i < NOPS; ++i) ops.push_back(i);
        mc::for_seqs(ops, 1, th ? 3 : 2, [&](const std::vector<int>& p) {
            mc::for_strings({"a", "1", " ", ","}, 0, 3, [&](const std::string& t) { stream_pairs(p, t); });
        });
    }
    if (R.group("late"))
        mc::for_strings({"1", "a", " ", ",", "-"}, 0, th ? 5 : 4, [](const std::string& t) { lates(t, std::make_index_sequence<15>{}); });
    return R.finish();
}
