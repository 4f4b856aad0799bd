// P17: regex fields against the regex engine applied directly to the rest of
// the text.  Built once for std::regex and once for Boost.Regex with ICU.
#include "model/strings.h"
#include <scn/regex.h>
#include <scn/scan.h>
namespace src {
template <typename CharT>
std::string repr(const scn::basic_regex_matches<CharT>& m);
}
#include "sources.h"
#if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
#include <boost/regex.hpp>
#include <boost/regex/icu.hpp>
#else
#include <regex>
#endif
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

namespace src {
template <typename CharT>
std::string repr(const scn::basic_regex_matches<CharT>& m)
{
    std::string s = "<";
    for (size_t i = 0; i < m.size(); ++i) {
        auto& e = m[i];
        if (!e) s += "none";
        else {
            s += repr(e->get());
#if SCN_REGEX_SUPPORTS_NAMED_CAPTURES
            if (e->name()) s += "=" + repr(*e->name());
#endif
        }
        s += ";";
    }
    return s + ">";
}
}  // namespace src

// What the engine says about a pattern.
struct Group {
    bool matched = false;
    size_t b = 0, e = 0;
    std::string name;
};
struct Res {
    bool bad = false, found = false;
    std::vector<Group> g;
};

template <typename CharT>
struct Engine {
    bool bad = false;
    std::string pat;
    std::vector<std::pair<int, std::string>> names;
#if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
    boost::u32regex re;
    Engine(std::basic_string_view<CharT> p, bool i, bool m, bool s, bool n)
    {
        boost::regex_constants::syntax_option_type f = boost::regex_constants::perl;
        if (i) f |= boost::regex_constants::icase;
        f |= m ? boost::regex_constants::syntax_option_type(0) : boost::regex_constants::no_mod_m;
        f |= s ? boost::regex_constants::mod_s : boost::regex_constants::no_mod_s;
        if (n) f |= boost::regex_constants::nosubs;
        try {
            re = boost::make_u32regex(p.data(), p.data() + p.size(), f);
        }
        catch (const std::exception&) {
            bad = true;
            return;
        }
        // names by counting capturing groups from the left
        if (n) return;
        int k = 0;
        bool cls = false;
        for (size_t q = 0; q < p.size(); ++q) {
            if (p[q] == CharT('\\')) {
                ++q;
                continue;
            }
            if (cls) {
                if (p[q] == CharT(']')) cls = false;
                continue;
            }
            if (p[q] == CharT('[')) {
                cls = true;
                if (q + 1 < p.size() && p[q + 1] == CharT('^')) ++q;
                if (q + 1 < p.size() && p[q + 1] == CharT(']')) ++q;
                continue;
            }
            if (p[q] != CharT('(')) continue;
            if (q + 1 < p.size() && p[q + 1] == CharT('?')) {
                if (q + 3 < p.size() && p[q + 2] == CharT('<') && p[q + 3] != CharT('=') && p[q + 3] != CharT('!')) {
                    ++k;
                    std::string nm;
                    for (size_t z = q + 3; z < p.size() && p[z] != CharT('>'); ++z) nm += char(p[z]);
                    names.push_back({k, nm});
                }
                continue;
            }
            ++k;
        }
    }
    Res match(std::basic_string_view<CharT> t)
    {
        Res r;
        r.bad = bad;
        if (bad) return r;
        boost::match_results<const CharT*> m;
        try {
            r.found = boost::u32regex_search(t.data(), t.data() + t.size(), m, re, boost::regex_constants::match_continuous);
        }
        catch (const std::out_of_range&) {  // ill-formed text
            r.found = false;
            return r;
        }
        catch (const std::exception&) {
            r.bad = true;
            return r;
        }
#else
    std::basic_regex<CharT> re;
    Engine(std::basic_string_view<CharT> p, bool i, bool m, bool, bool n)
    {
        auto f = std::regex_constants::ECMAScript;
        if (i) f |= std::regex_constants::icase;
        if (m) f |= std::regex_constants::multiline;
        if (n) f |= std::regex_constants::nosubs;
        try {
            re = std::basic_regex<CharT>(p.data(), p.size(), f);
        }
        catch (const std::regex_error&) {
            bad = true;
        }
    }
    Res match(std::basic_string_view<CharT> t)
    {
        Res r;
        r.bad = bad;
        if (bad) return r;
        std::match_results<const CharT*> m;
        r.found = std::regex_search(t.data(), t.data() + t.size(), m, re, std::regex_constants::match_continuous);
#endif
        if (!r.found) return r;
        for (size_t k = 0; k < m.size(); ++k) {
            Group g;
            g.matched = m[int(k)].matched;
            if (g.matched) {
                g.b = size_t(m[int(k)].first - t.data());
                g.e = size_t(m[int(k)].second - t.data());
            }
            for (auto& [ix, nm] : names)
                if (ix == int(k)) g.name = nm;
            r.g.push_back(g);
        }
        return r;
    }
};

static bool unique_names(const std::vector<std::pair<int, std::string>>& n)
{
    for (size_t i = 0; i < n.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (n[i].second == n[j].second) return false;
    return true;
}

// `shown` is the pattern as written in the format (slashes escaped), `pat` the
// pattern meant
struct Pat {
    std::string shown, pat, flags;
    bool flags_ok = true, i = false, m = false, s = false, n = false;
    std::unique_ptr<Engine<char>> en;
    std::unique_ptr<Engine<wchar_t>> we;
    bool parse_bad = false;
};
static std::unique_ptr<Pat> make(const std::string& shown, const std::string& flags)
{
    auto p = std::make_unique<Pat>();
    p->shown = shown;
    p->flags = flags;
    // "/^" at the start of a field is the fill '/' with the alignment '^'
    if (!shown.empty() && (shown[0] == '<' || shown[0] == '>' || shown[0] == '^')) return nullptr;
    // the first unescaped slash would end the pattern early
    for (size_t k = 0; k < shown.size(); ++k)
        if (shown[k] == '/' && (k == 0 || shown[k - 1] != '\\')) return nullptr;
    if (!shown.empty() && shown.back() == '\\') return nullptr;  // swallows the end
    if (shown.empty()) p->parse_bad = true;
    std::string q;
    for (size_t k = 0; k < shown.size(); ++k) {
        if (shown[k] == '\\' && k + 1 < shown.size() && shown[k + 1] == '/') continue;
        q += shown[k];
    }
    p->pat = q;
    for (char c : flags) {
        bool* b = c == 'i' ? &p->i : c == 'm' ? &p->m : c == 's' ? &p->s : c == 'n' ? &p->n : nullptr;
        if (!b || *b) p->parse_bad = true;
        else *b = true;
    }
#if SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_STD
    if (p->s) p->parse_bad = true;
#endif
    if (!p->parse_bad) {
        p->en = std::make_unique<Engine<char>>(p->pat, p->i, p->m, p->s, p->n);
        auto w = txt::to_wide(p->pat);
        p->we = std::make_unique<Engine<wchar_t>>(*w, p->i, p->m, p->s, p->n);
    }
    return p;
}

template <typename CharT>
static Out expect(Pat& p, Engine<CharT>* en, std::basic_string_view<CharT> t, int kind, size_t off)
{
    Out o;
    Res r;
    if (!p.parse_bad) r = en->match(t);
    if (p.parse_bad || r.bad) {
        o.code = model::invalid_format_string;
        return o;
    }
    if (t.empty()) {
        // a field at the end of the source
    }
    if (!r.found) {
        o.code = model::invalid_scanned_value;
        return o;
    }
    o.ok = true;
    auto v = t.substr(0, r.g[0].e);
    if (kind == 0) o.val = repr(std::basic_string<CharT>(v));
    else if (kind == 1) {
        if constexpr (std::is_same_v<CharT, char>) {
            auto w = txt::to_wide(v);
            if (!w) {
                o.ok = false;
                o.code = model::invalid_scanned_value;
                return o;
            }
            o.val = repr(*w);
        }
        else
            o.val = repr(txt::narrow(v));
    }
    else {
        o.val = "<";
        for (auto& g : r.g) {
            if (!g.matched) o.val += "none";
            else {
                o.val += repr(t.substr(g.b, g.e - g.b));
                if (!g.name.empty()) {
                    if constexpr (std::is_same_v<CharT, char>) o.val += "=" + repr(g.name);
                    else o.val += "=" + repr(std::wstring(g.name.begin(), g.name.end()));
                }
            }
            o.val += ";";
        }
        o.val += ">";
    }
    o.val += ",";
    if constexpr (std::is_same_v<CharT, char>)
        if (kind == 0 && !txt::valid(v)) {  // a string must be well-formed
            o = Out{};
            o.code = model::invalid_scanned_value;
            return o;
        }
    o.consumed = long(r.g[0].e + off);
    return o;
}

// bits: 1 string, 2 string_view, 4 matches, 8 wide, 16 literal in front, 32 wstring, 64 non-contiguous
static void one(Pat* p, const std::string& text, unsigned what)
{
    auto& R = Run::get();
    if (!p) return;
    if (p->en && !unique_names(p->en->names)) return;
    std::string fmt = "{:/" + p->shown + "/" + p->flags + "}";
    auto key = [&](const char* s) { return std::string(s) + "|" + mc::esc(fmt) + "|" + mc::esc(text); };
    if (!R.take([&] { return key("-"); })) return;
    auto cmp = [&](const char* s, const Out& w, const Out& g) {
        ++R.checks;
        if (w != g) R.fail(key(s), "engine: " + w.str() + " scanned: " + g.str());
    };
    Exact<char> ex(text);
    auto sv = ex.view();
    Out w = expect<char>(*p, p->en.get(), sv, 0, 0);
    R.outcome(fmt + w.str());
    const bool ok_utf = txt::valid(text);
    if (what & 1) cmp("string", w, scan_sv<std::string>(sv, fmt));
    if (what & 2) cmp("string_view", w, scan_sv<std::string_view>(sv, fmt));
    if (what & 4) cmp("matches", expect<char>(*p, p->en.get(), sv, 2, 0), scan_sv<scn::regex_matches>(sv, fmt));
    if (what & 4) {
        // into matches that hold those of an earlier scan
        Out g;
        scn::regex_matches old;
        old.resize(text.size() % 2 ? 1 : 20);
        old[0].emplace(std::string_view("old"));
        auto r = scn::scan<scn::regex_matches>(sv, scn::runtime_format(fmt), std::tuple<scn::regex_matches>{old});
        ++R.calls;
        g.ok = bool(r);
        if (r) {
            g.val = repr(r->value()) + ",";
            g.consumed = long(r->range().begin() - sv.begin());
        }
        else
            g.code = int(r.error().code());
        cmp("matches reused", expect<char>(*p, p->en.get(), sv, 2, 0), g);
    }
    if ((what & 32) && ok_utf) cmp("wstring", expect<char>(*p, p->en.get(), sv, 1, 0), scan_sv<std::wstring>(sv, fmt));
    if ((what & 16) && ok_utf) {
        // behind a literal and another field, with a field behind it
        Exact<char> ex2("x7" + text);
        Out x = expect<char>(*p, p->en.get(), ex2.view().substr(2), 0, 2);
        if (x.ok) x.val = "7," + x.val;
        cmp("second field", x, scan_sv<int, std::string>(ex2.view(), "x{:.1}" + fmt));
        Out y = expect<char>(*p, p->en.get(), ex2.view().substr(2), 2, 2);
        if (y.ok) y.val = "7," + y.val;
        cmp("second field matches", y, scan_sv<int, scn::regex_matches>(ex2.view(), "x{:.1}" + fmt));
        // a space in front is not skipped
        Exact<char> ex3(" " + text);
        cmp("space in front", expect<char>(*p, p->en.get(), ex3.view(), 0, 0), scan_sv<std::string>(ex3.view(), fmt));
    }
    if ((what & 64) && text.size() > 1) {
        Out n;
        n.code = model::invalid_format_string;
        cmp("list", n, scan_list<std::string>(text, fmt));
    }
    auto wi = txt::to_wide(text);
    if ((what & 8) && wi) {
        Exact<wchar_t> wex(*wi);
        auto wf = *txt::to_wide(fmt);
        cmp("wide wstring", expect<wchar_t>(*p, p->we.get(), wex.view(), 0, 0), scan_wsv<std::wstring>(wex.view(), wf));
        cmp("wide wstring_view", expect<wchar_t>(*p, p->we.get(), wex.view(), 0, 0), scan_wsv<std::wstring_view>(wex.view(), wf));
        cmp("wide string", expect<wchar_t>(*p, p->we.get(), wex.view(), 1, 0), scan_wsv<std::string>(wex.view(), wf));
        cmp("wide matches", expect<wchar_t>(*p, p->we.get(), wex.view(), 2, 0), scan_wsv<scn::wregex_matches>(wex.view(), wf));
    }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    const bool boost = SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST;
    std::vector<std::string> texts;
    mc::for_strings({"a", "b", "1", "\n"}, 0, 3, [&](const std::string& s) { texts.push_back(s); });
    Toks pt = {"a", "b", ".", "*", "+", "?", "|", "(", ")", "[ab]", "[^a]", "^", "$", "\\d", "\\b", "(?:", "{2}", "\\/"};
    if (boost) pt.push_back("(?<n>"), pt.push_back("(?<=");
    auto patterns = [&](const Toks& alpha, int lo, int hi, const std::vector<std::string>& tx, unsigned what, const std::vector<std::string>& flags) {
        mc::for_strings(alpha, lo, hi, [&](const std::string& e) {
            for (auto& f : flags) {
                auto p = make(e, f);
                for (auto& t : tx) one(p.get(), t, what);
            }
        });
    };
    if (R.group("patterns"))
        patterns(pt, 1, 2, texts, 127, {"", "i", "m", "n"});
    if (R.group("patterns of three"))
        patterns(pt, 3, 3, {"", "a", "ab", "aab", "aba", "b1", "a\nb", "ba\n", "1/a"}, th ? 127 : 5 | 8, {""});
    if (R.group("groups")) {
        Toks ga = {"a", "b", "(", ")", "|", "?", "(?:", "*", "."};
        if (boost) ga = {"a", "b", "(", ")", "|", "?", "(?<n>", "(?<m>", "(?<="};
        patterns(ga, 4, th ? 6 : 5, {"a", "ab", "ba", "aba", "abab"}, 4, {""});
    }
    // all pairs of groups with all texts that repeat their content
    if (R.group("captures")) {
        Toks gs = {"(a)", "(b)", "(a|b)", "(a?)", "(a*)", "()", "(?:a)", "(a)?", "(b)?", "a", "(a|(b))", "((a)b)", "([ab])", "\\1"};
        if (boost) for (const char* x : {"(?<x>a)", "(?<y>b)?", "(?<z>a*)", "(?<w>)", "(?<=a)", "(?<!b)", "(?<v>a|b)", "(?<u>(a))", "\\(?<k>a", "[(?<q>]", "\\\\(?<p>b)", "\\\\(?<o>b)?", "\\\\\\(?<r>b"}) gs.push_back(x);
        std::vector<std::string> tx;
        mc::for_strings({"a", "b"}, 0, th ? 6 : 5, [&](const std::string& s) { tx.push_back(s); });
        tx.push_back("(<k>a");
        tx.push_back("a(");
        tx.push_back("\\b");
        tx.push_back("\\bab");
        tx.push_back("a\\b\\b");
        tx.push_back("\\(<r>ba");
        patterns(gs, 1, 3, tx, 5, {""});
        patterns(gs, 1, 2, tx, 4 | 8, {"n", "i"});
    }
    // many groups, each present, absent, empty or named
    if (R.group("many groups"))
        for (int n = 1; n <= 24; ++n)
            for (int kind = 0; kind < (boost ? 6 : 5); ++kind)
                for (int odd = -1; odd < n; ++odd) {
                    std::string e, t;
                    for (int k = 0; k < n; ++k) {
                        const std::string c(1, char('a' + k));
                        const bool o = k == odd;
                        if (kind == 0) e += o ? "(z)?" : "(" + c + ")", t += o ? "" : c;
                        if (kind == 1) e += o ? "()" : "(" + c + "?)", t += c;
                        if (kind == 2) e += o ? "(?:" + c + ")" : "(" + c + ")", t += c;
                        if (kind == 3) e += o ? "(" + c + ")" : "(" + c + ")?", t += o ? c : k % 3 ? c : "";
                        if (kind == 4) e += "(" + c + (o ? ")" : ""), t += c;
                        if (kind == 5) e += o ? "(" + c + ")" : "(?<g" + std::to_string(k) + ">" + c + ")", t += c;
                    }
                    if (kind == 4)
                        for (int k = 0; k < n - (odd >= 0); ++k) e += ")";
                    if (auto p = make(e, ""))
                        for (auto& x : {t, t + "rest", t.substr(0, t.size() / 2)}) one(p.get(), x, 5 | 8 | 16);
                }
    if (R.group("flags"))
        mc::for_strings({"m", "s", "i", "n", "x", "g"}, 0, 4, [&](const std::string& f) {
            for (const char* e : {"a", "a.b", "^b", "a$", "(a)(B)", "[a-c]+", ".+", ".*$", "\n^b"})
                if (auto p = make(e, f))
                    for (const char* t : {"a", "A", "a\nb", "A\nB", "ab", "AB", "b", "\nb", "abcABC", "a\n"}) one(p.get(), t, 1 | 2 | 4 | 8);
        });
    // slashes and other bytes that mean something to the format string
    if (R.group("escapes"))
        mc::for_strings({"a", "\\/", "/", "\\\\", "{", "}", "\\{", "\\}", "[/]", "[\\/]", ":", "{{", " ", "\\."}, 1, th ? 4 : 3, [&](const std::string& e) {
            if (auto p = make(e, ""))
                for (const char* t : {"a", "/", "a/", "/a", "//", "\\/", "\\", "{", "}", "a}", "{a", ":", "{{", " ", "./", "a/a/", "}}"}) one(p.get(), t, 1 | 4 | 8);
        });
    if (R.group("unicode"))
        mc::for_strings({"\xc3\xa4", "a", ".", "[a\xc3\xa4]", "+", "*", "[^a]", "\xe4\xbd\xa0", "(", ")"}, 1, 3, [&](const std::string& e) {
            if (auto p = make(e, ""))
                for (const char* t : {"", "a", "\xc3\xa4", "\xc3\xa4\xc3\xa4" "a", "\xe4\xbd\xa0", "a\xc3\xa4", "\xc3\xa5", "\xe4\xbd\xa0\xe4\xbd\xa0" "b"}) {
                    if (boost) one(p.get(), t, 1 | 2 | 4 | 8 | 32);
                    else one(p.get(), t, 1 | 8);
                }
        });
    if (R.group("ill-formed"))
        for (const char* e : {"a", ".", "a*", "[^a]", "\xff", "a\xc3", "\xe4\xbd", "[\xff]", "(a)", "\xc3\xa4"})
            for (const char* f : {"", "i"})
                if (auto p = make(e, f))
                    mc::for_strings({"a", "\xff", "\xc3", "\xa4", "\xe4"}, 0, 3, [&](const std::string& t) { one(p.get(), t, 7); });
    if (R.group("lengths"))
        for (int n = 0; n <= (th ? 400 : 120); ++n)
            for (const char* e : {"a+", "a*b", "(a)+", "a{3,40}", "(?:ab)*", "[^b]*", ".*c", "a*?b", "(a+)(a+)"})
                if (auto p = make(e, "")) {
                    one(p.get(), std::string(size_t(n), 'a'), 127);
                    one(p.get(), std::string(size_t(n), 'a') + "b", 127);
                    one(p.get(), std::string(size_t(n), 'a') + "bc a", 127);
                    std::string ab;
                    for (int k = 0; k < n; ++k) ab += k & 1 ? "b" : "a";
                    one(p.get(), ab, 127);
                }
    return R.finish();
}
