// P11: exactly the valid format strings are accepted, at run time.
#include "model/format.h"
#include <scn/regex.h>
#include "sources.h"
#include <utility>
using namespace src;
using mc::Run;
using model::Ty;
using Toks = std::vector<std::string>;

template <typename T> struct TyOf;
template <> struct TyOf<int> { static constexpr Ty v = Ty::INT; static constexpr const char* n = "int"; };
template <> struct TyOf<unsigned> { static constexpr Ty v = Ty::UINT; static constexpr const char* n = "unsigned"; };
template <> struct TyOf<signed char> { static constexpr Ty v = Ty::INT; static constexpr const char* n = "signed char"; };
template <> struct TyOf<unsigned long long> { static constexpr Ty v = Ty::UINT; static constexpr const char* n = "unsigned long long"; };
template <> struct TyOf<double> { static constexpr Ty v = Ty::FLOAT; static constexpr const char* n = "double"; };
template <> struct TyOf<float> { static constexpr Ty v = Ty::FLOAT; static constexpr const char* n = "float"; };
template <> struct TyOf<bool> { static constexpr Ty v = Ty::BOOL; static constexpr const char* n = "bool"; };
template <> struct TyOf<char> { static constexpr Ty v = Ty::CHAR; static constexpr const char* n = "char"; };
template <> struct TyOf<wchar_t> { static constexpr Ty v = Ty::CHAR; static constexpr const char* n = "wchar_t"; };
template <> struct TyOf<char32_t> { static constexpr Ty v = Ty::CP; static constexpr const char* n = "char32_t"; };
template <> struct TyOf<std::string> { static constexpr Ty v = Ty::STR; static constexpr const char* n = "string"; };
template <> struct TyOf<std::wstring> { static constexpr Ty v = Ty::STR; static constexpr const char* n = "wstring"; };
template <> struct TyOf<std::string_view> { static constexpr Ty v = Ty::SV; static constexpr const char* n = "string_view"; };
template <> struct TyOf<std::wstring_view> { static constexpr Ty v = Ty::SV; static constexpr const char* n = "wstring_view"; };
template <> struct TyOf<void*> { static constexpr Ty v = Ty::PTR; static constexpr const char* n = "void*"; };
template <> struct TyOf<scn::regex_matches> { static constexpr Ty v = Ty::RX; static constexpr const char* n = "regex_matches"; };
template <> struct TyOf<scn::wregex_matches> { static constexpr Ty v = Ty::RX; static constexpr const char* n = "wregex_matches"; };

template <typename... T>
static std::string names()
{
    std::string s;
    ((s += std::string(TyOf<T>::n) + ","), ...);
    return s;
}

struct Res {
    bool ok;
    int code;
};
template <typename... T, typename R>
static Res res(R&& r)
{
    ++Run::get().calls;
    return {r.has_value(), r ? -1 : int(r.error().code())};
}
static void judge(const char* how, const std::string& ty, const std::string& fmt, const std::string& text, const model::Verdict& v, Res r)
{
    auto& R = Run::get();
    ++R.checks;
    std::string why;
    const bool rejected = !r.ok && r.code == model::invalid_format_string;
    if (v.valid && rejected && !v.engine) why = "a valid format is rejected";
    else if (!v.valid && r.ok) why = "an invalid format is accepted";
    else if (!v.valid && !rejected && v.solid) why = std::string("an invalid format gives ") + code_name(r.code);
    else if (v.valid && v.solid && !r.ok) why = std::string("a matching source gives ") + code_name(r.code);
    if (!why.empty()) R.fail(std::string(how) + "|" + ty + "|" + mc::esc(fmt) + "|" + mc::esc(text), why);
}

// one format, one list of argument types, all entry points that take formats at
// run time
template <typename... T>
static void one(const std::string& fmt, bool more = true)
{
    auto& R = Run::get();
    if (!R.take([&] { return names<T...>() + "|" + mc::esc(fmt); })) return;
    const std::vector<Ty> tys{TyOf<T>::v...};
    auto v = model::check_format(fmt, tys);
    R.outcome(names<T...>() + (v.valid ? "+" : "-") + v.text);
    Exact<char> ef(fmt);
    {
        Exact<char> e(v.text);
        auto r = scn::scan<T...>(e.view(), scn::runtime_format(ef.view()));
        judge("sv", names<T...>(), fmt, v.text, v, res<T...>(r));
    }
    if (!more) return;
    {
        // an empty source never makes a bad format look good
        auto r = scn::scan<T...>(std::string_view{}, scn::runtime_format(ef.view()));
        ++R.calls;
        ++R.checks;
        if (v.valid && !v.engine && !r && r.error().code() == scn::scan_error::invalid_format_string)
            R.fail("empty|" + names<T...>() + "|" + mc::esc(fmt), "a valid format is rejected");
        if (!v.valid && r) R.fail("empty|" + names<T...>() + "|" + mc::esc(fmt), "an invalid format is accepted");
    }
    // (a view into a non-contiguous source is rejected by its type when
    // compiled; run-time formats find out at the first character: see P08)
    if constexpr (!(std::is_same_v<T, std::string_view> || ...)) {
        auto v2 = model::check_format(fmt, tys, false);
        std::deque<char> d(v2.text.begin(), v2.text.end());
        auto r = scn::scan<T...>(d, scn::runtime_format(ef.view()));
        judge("deque", names<T...>(), fmt, v2.text, v2, res<T...>(r));
    }
}
template <typename T>
struct WideOf { using t = T; };
template <> struct WideOf<std::string_view> { using t = std::wstring_view; };
template <> struct WideOf<scn::regex_matches> { using t = scn::wregex_matches; };
template <> struct WideOf<char> { using t = wchar_t; };
template <typename... T>
static void wide(const std::string& fmt)
{
    auto& R = Run::get();
    auto wf = txt::to_wide(fmt);
    if (!wf) return;
    if (!R.take([&] { return "wide " + names<T...>() + "|" + mc::esc(fmt); })) return;
    auto v = model::check_format(fmt, {TyOf<T>::v...});
    Exact<wchar_t> ef(*wf);
    Exact<wchar_t> e(*txt::to_wide(v.text));
    auto r = scn::scan<typename WideOf<T>::t...>(e.view(), scn::runtime_format(ef.view()));
    judge("wide", names<T...>(), fmt, v.text, v, res<T...>(r));
}

template <typename... T>
static void each(const std::string& f, bool more)
{
    (one<T>(f, more), ...);
}
template <typename... T>
static void each_wide(const std::string& f)
{
    (wide<T>(f), ...);
}

// ---- many arguments -------------------------------------------------------
template <size_t> using Int = int;
template <size_t... I>
static auto scan_n(std::string_view text, std::string_view fmt, std::vector<int>& vals, std::index_sequence<I...>)
{
    auto r = scn::scan<Int<I>...>(text, scn::runtime_format(fmt));
    Res x{r.has_value(), r ? -1 : int(r.error().code())};
    if (r) vals = {std::get<I>(r->values())...};
    ++Run::get().calls;
    return x;
}
template <size_t N>
static void many()
{
    auto& R = Run::get();
    std::string text;
    for (size_t i = 0; i < N + 2; ++i) text += std::to_string(i * 7 % 1000) + " ";
    const std::vector<Ty> tys(N, Ty::INT);
    // ids: -1 automatic
    auto go = [&](const std::vector<int>& ids) {
        if (!R.take([&] { std::string s = "ids of " + std::to_string(N) + ":"; for (int i : ids) s += " " + std::to_string(i); return s; })) return;
        std::string f;
        for (int i : ids) f += i < 0 ? std::string("{} ") : "{" + std::to_string(i) + "} ";
        std::vector<int> vals;
        Res x = scan_n(text, f, vals, std::make_index_sequence<N>{});
        auto v = model::check_format(f, tys);
        v.solid = ids.size() <= N + 2;
        judge("many", std::to_string(N) + " ints", f, text, v, x);
        if (v.valid && x.ok)
            for (size_t k = 0; k < N; ++k) {
                size_t at = ids[k] < 0 ? k : size_t(ids[k]);
                if (vals[at] != int(k * 7 % 1000)) {
                    R.fail("values of " + std::to_string(N) + "|" + f, "argument " + std::to_string(at) + " holds " + std::to_string(vals[at]));
                    break;
                }
            }
    };
    std::vector<int> a(N, -1), up(N), down(N);
    for (size_t i = 0; i < N; ++i) up[i] = int(i), down[i] = int(N - 1 - i);
    go(a), go(up), go(down);
    for (auto* b : {&a, &up, &down}) {
        auto c = *b;
        if (N) c.pop_back(), go(c);
        c = *b;
        c.push_back(b == &a ? -1 : int(N));
        go(c);
        for (size_t i = 0; i < N; ++i) {
            // leave one out, repeat one, go beyond, mix
            c = *b;
            c.erase(c.begin() + long(i));
            go(c);
            c = *b;
            c.insert(c.begin() + long(i), c[i]);
            go(c);
            c = *b;
            c[i] = int(N);
            go(c);
            c[i] = int(N) + 64;
            go(c);
            c = *b;
            c[i] = b == &a ? int(i) : -1;
            go(c);
            if (b != &a)
                for (size_t j = 0; j < N; ++j) {
                    if (j == i) continue;
                    c = *b;
                    std::swap(c[i], c[j]);
                    if (j > i && (i % 8 < 2 || R.thorough)) go(c);
                    c = *b;
                    c[i] = c[j];
                    if (i % 8 == 0 || i + 1 == N || j % 8 == 7 || R.thorough) go(c);
                }
        }
    }
}
template <size_t... N>
static void manies()
{
    (many<N>(), ...);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    // specifications
    const Toks sp = {"<", ">", "^", "5", "0", ".", "L", "d", "s", "[", "]", "a", "c", "{", "}", "x", "/", "-", "\xc3\xa4"};
    if (R.group("specifications"))
        mc::for_strings(sp, 0, th ? 5 : 4, [&](const std::string& s) {
            each<int, double, bool, char, char32_t, std::string, std::string_view, void*, scn::regex_matches, unsigned>("{:" + s + "}", s.size() < 4);
        });
    if (R.group("wide specifications"))
        mc::for_strings(sp, 0, th ? 5 : 4, [&](const std::string& s) {
            each_wide<int, double, bool, char, char32_t, std::string, std::string_view, void*, scn::regex_matches>("{:" + s + "}");
        });
    // every character as a type, with and without options in front
    if (R.group("every character"))
        for (int c = 0; c < 256; ++c)
            for (const char* pre : {"", "<", ".3", "5.7", "L", "*>8", "<L", "5.8L", "d", "[", "[^", "/", "[a-", "/a/"})
                for (const char* post : {"", "d", "]", "/", "<", "}", "s", "5"}) {
                    std::string f = std::string("{:") + pre + char(c) + post + "}";
                    // patterns must compile: the engine's verdict is P17's
                    if (f.find('/') != f.npos && !(c == 'a' || std::isalnum(c) || c == '/' || c == '\\')) continue;
                    if (f.find('/') != f.npos && c == '\\') continue;
                    each<int, double, bool, char, char32_t, std::string, std::string_view, void*, scn::regex_matches, unsigned, signed char, unsigned long long, float, wchar_t, std::wstring>(f, false);
                }
    if (R.group("character and rest"))
        for (int c = 0; c < 256; ++c)
            for (const char* f0 : {"{@}", "@", "{@", "{:@", "a@b", "{}@", "{:d}@{{", "{0@}", "{0@:}", "{:5@}", "{:.@}", "{:.5@}", "{:@<}", "{:@<5}", "{:5.5@}"}) {
                std::string f = f0;
                f[f.find('@')] = char(c);
                each<int, std::string, char>(f, true);
                one<>(f, true);
                one<int, int>(f, false);
            }
    // characters of every length and on every page, as fill, literal, set member
    // and range end; and the same cut short or with a wrong unit
    if (R.group("code points"))
        for (char32_t c = 0x80; c <= 0x10ffff; ++c) {
            if (c >= 0xd800 && c <= 0xdfff) continue;
            const bool edge = (c & 0xfff) < 2 || (c & 0xfff) > 0xffd;
            if (!th && c > 0x400 && (c & 0x3f) != 1 && !edge) continue;
            std::string x = txt::enc8(c);
            for (const char* f0 : {"{:@<}", "{:@>5}", "{:@^.7}", "{:@}", "@{}", "{}@", "{:[@]}", "{:[a-@]}", "{:[@-\xf4\x8f\xbf\xbf]}", "{:[^@b]}", "{@}", "{:@<@}"}) {
                auto put = [&](std::string_view y) {
                    std::string f;
                    for (const char* q = f0; *q; ++q)
                        if (*q == '@') f += y;
                        else f += *q;
                    return f;
                };
                each<int, std::string, char32_t>(put(x), false);
                each_wide<int, std::string>(put(x));
                if ((c & 0x3ff) == 1 || edge) {
                    one<std::string>(put(x.substr(0, x.size() - 1)), false);
                    one<std::string>(put(x.substr(1)), false);
                    std::string y = x;
                    y.back() = 'b';
                    one<std::string>(put(y), false);
                }
            }
        }
    // wide characters that are no scalar values are valid nowhere
    if (R.group("ill-formed wide"))
        for (unsigned long c : {0xd800ul, 0xdbfful, 0xdc00ul, 0xdffful, 0x110000ul, 0x7ffffffful, 0x80000000ul, 0xfffffffful})
            for (const wchar_t* f0 : {L"{:@<}", L"{:@>5}", L"{:@^.7}", L"{:@}", L"@{}", L"{}@", L"{:[@]}", L"{:[a-@]}", L"{:[@-z]}", L"{:[^@b]}", L"{@}", L"{@:}", L"{:L@}", L"{:5@}"}) {
                std::wstring f = f0;
                f[f.find(L'@')] = wchar_t(c);
                auto key = [&] { return "ill-formed wide|" + mc::esc(std::wstring_view(f)); };
                if (!R.take(key)) continue;
                std::wstring in = L"1 " + std::wstring(1, wchar_t(c)) + L" a";
                auto go = [&](auto t) {
                    Exact<wchar_t> ef(f), e(in);
                    auto r = scn::scan<decltype(t)>(e.view(), scn::runtime_format(ef.view()));
                    ++R.calls, ++R.checks;
                    if (r || r.error().code() != scn::scan_error::invalid_format_string)
                        R.fail(key(), r ? "accepted" : "code " + std::to_string(int(r.error().code())));
                };
                go(std::wstring{});
                go(int{});
            }
    // numbers
    if (R.group("numbers"))
        for (const char* a : {"0", "1", "9", "00", "01", "10", "2147483647", "2147483648", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "99999999999999999999", "-1", "+1", "1 ", " 1"})
            for (const char* b : {"", "0", "1", "5", "9", "10", "2147483647", "2147483648", "18446744073709551616", "00", "x"})
                for (const char* pat : {"{A}", "{:A}", "{:.A}", "{:A.B}", "{:<A.B}", "{:A.BL}", "{:*>A.Bd}", "{A:B}", "{A:.B}", "{A}{B}", "{A:}{B:d}", "{:A.Bc}", "{:AB}", "{:A.B.A}"}) {
                    std::string f;
                    for (const char* q = pat; *q; ++q) f += *q == 'A' ? std::string(a) : *q == 'B' ? std::string(b) : std::string(1, *q);
                    each<int, std::string, double, bool>(f, true);
                    one<int, int>(f, true);
                }
    // braces, literals and indices
    const Toks raw = {"{", "}", ":", "0", "1", "<", "d", "a"};
    if (R.group("raw strings"))
        mc::for_strings(raw, 0, th ? 8 : 7, [&](const std::string& s) {
            one<>(s, s.size() < 6);
            one<int>(s, s.size() < 6);
            one<std::string>(s, s.size() < 5);
            one<int, int>(s, s.size() < 6);
        });
    if (R.group("wide raw strings"))
        mc::for_strings(raw, 0, th ? 7 : 6, [&](const std::string& s) {
            wide<int>(s);
            wide<int, int>(s);
        });
    const Toks tk = {"{}", "{0}", "{1}", "{2}", "{3}", "{:d}", "{0:d}", "{1:}", "{:5}", "{2:x}", "{{", "}}", "{", "}", ",", " ", "{00}", "{01}", "{:", "{:s}", "{L}", "{:}", "\xc3\xa4", "\xff"};
    if (R.group("fields"))
        mc::for_strings(tk, 0, th ? 5 : 4, [&](const std::string& s) {
            one<int>(s, false);
            one<int, int>(s, false);
            one<int, int, int>(s, s.size() < 9);
            one<int, char, unsigned>(s, false);
        });
    if (R.group("fields of four"))
        mc::for_strings({"{}", "{0}", "{1}", "{2}", "{3}", "{4}", "{:d}", "{3:d}", " "}, 3, th ? 7 : 6, [&](const std::string& s) { one<int, int, int, int>(s, false); });
    if (R.group("sets"))
        mc::for_strings({"a", "z", "-", "^", "]", "[", "\xc3\xa4", "\xc3", "5", " ", "}", "{", ":"}, 0, th ? 6 : 5, [&](const std::string& s) {
            one<std::string>("{:[" + s + "}", false);
            if (s.size() < 5) one<std::string_view>("{:[" + s + "]}", true), one<int>("{:[" + s + "]}", false), one<std::string, std::string>("{:[" + s + "]}{}", false);
        });
    if (R.group("many arguments")) {
        manies<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17>();
        manies<31, 32, 33>();
        manies<62, 63, 64, 65, 66>();
        manies<71, 72, 73, 80, 81, 128, 129>();
    }
    return R.finish();
}
