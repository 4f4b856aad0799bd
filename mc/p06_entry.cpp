// P06: all entry points give the same answer for the same text.
#include "scanint.h"
#include <locale>
using namespace si;

template <typename R>
static Out wout_of(R& r, const wchar_t* end, size_t n)
{
    ++Run::get().calls;
    Out o;
    o.ok = bool(r);
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        bool in = &*rg.begin() + rg.size() == end && rg.size() <= n;
        o.consumed = in ? long(n - rg.size()) : -1;
    }
    else
        o.code = r.error().code();
    return o;
}

// initial values, none of which may be seen in the result
template <typename T>
static T old_value(int which)
{
    if constexpr (std::is_same_v<T, bool>) return which != 0;
    else if constexpr (std::is_arithmetic_v<T>) return which ? T(89) : std::numeric_limits<T>::max();
    else if constexpr (std::is_same_v<T, std::string>) return which ? "old" : "a value much too long for the small buffer of a string";
    else if constexpr (std::is_same_v<T, std::wstring>) return which ? L"old" : L"a value much too long for the small buffer of a string";
    else if constexpr (std::is_same_v<T, std::string_view>) return which ? "old" : "q";
    else if constexpr (std::is_same_v<T, std::wstring_view>) return which ? L"old" : L"q";
    else if constexpr (std::is_same_v<T, void*>) return reinterpret_cast<void*>(which ? 0x59 : -1);
    else return T{};
}

// ---- the generic entry points, any type ---------------------------------
template <typename T>
void entry_one(const char* ty, const std::string& in)
{
    auto& R = Run::get();
    auto key = [&](const char* e) { return std::string(ty) + "|" + e + "|" + mc::esc(in); };
    if (!R.take([&] { return key("entry points"); })) return;
    static const std::locale classic = std::locale::classic();
    Exact<char> ex(in);
    auto sv = ex.view();
    const char* end = sv.data() + sv.size();
    Out w = scan_sv<T>(sv, "{}");
    R.outcome(w.str());
#define EP(NAME, CALL)                                   \
    {                                                    \
        auto r = CALL;                                   \
        cmp(key(NAME), w, out_of(r, end, sv.size()));    \
    }
    EP("compile-time {}", scn::scan<T>(sv, "{}"));
    EP("compile-time {:}", scn::scan<T>(sv, "{:}"));
    EP("{0}", scn::scan<T>(sv, "{0}"));
    EP("runtime {0:}", scn::scan<T>(sv, scn::runtime_format("{0:}")));
    EP("scan_value", scn::scan_value<T>(sv));
    EP("scan_value with default", scn::scan_value<T>(sv, T{}));
    EP("scan with default", (scn::scan<T>(sv, "{}", std::tuple<T>{T{}})));
    EP("scan_value over a value", scn::scan_value<T>(sv, old_value<T>(1)));
    EP("scan_value over another value", scn::scan_value<T>(sv, old_value<T>(0)));
    EP("scan over a value", (scn::scan<T>(sv, "{}", std::tuple<T>{old_value<T>(1)})));
    EP("scan over another value", (scn::scan<T>(sv, "{}", std::tuple<T>{old_value<T>(0)})));
    EP("scan with locale over a value", (scn::scan<T>(classic, sv, "{}", std::tuple<T>{old_value<T>(1)})));
    EP("scan with locale", scn::scan<T>(classic, sv, "{}"));
    EP("scan with locale {0}", scn::scan<T>(classic, sv, "{0}"));
    EP("scan with locale and default", (scn::scan<T>(classic, sv, "{}", std::tuple<T>{T{}})));
    {
        // vscan: the type-erased call
        auto res = scn::make_scan_result<std::string_view, T>();
        scn::fill_scan_result(res, scn::vscan(sv, "{}", scn::make_scan_args(res->values())));
        cmp(key("vscan"), w, out_of(res, end, sv.size()));
    }
    {
        auto res = scn::make_scan_result<std::string_view, T>();
        auto args = scn::make_scan_args(res->values());
        scn::fill_scan_result(res, scn::vscan_value(sv, scn::scan_args(args).get(0)));
        cmp(key("vscan_value"), w, out_of(res, end, sv.size()));
    }
    if constexpr (!std::is_same_v<T, std::string_view> && !std::is_same_v<T, std::wstring_view>) {
        {
            std::string str(in);
            auto r = scn::scan<T>(str, "{}");
            cmp(key("std::string lvalue"), w, out_of(r, str.data() + str.size(), str.size()));
        }
        {
            std::vector<char> v(in.begin(), in.end());
            auto r = scn::scan<T>(v, "{}");
            cmp(key("std::vector<char>"), w, out_of(r, v.data() + v.size(), v.size()));
        }
        {
            std::string str(in);
            auto r = scn::scan_value<T>(str);
            cmp(key("scan_value std::string"), w, out_of(r, str.data() + str.size(), str.size()));
        }
        {
            // an rvalue string: no range, but the value
            auto r = scn::scan<T>(std::string(in), "{}");
            ++R.calls;
            ++R.checks;
            Out o;
            o.ok = bool(r);
            if (r) o.val = repr_all(r->values()), o.consumed = w.consumed;
            else o.code = r.error().code();
            if (o.ok != w.ok || (o.ok ? o.val != w.val : o.code != w.code))
                R.fail(key("rvalue string"), "expected " + w.str() + " got " + o.str());
        }
        {
            std::deque<char> d(in.begin(), in.end());
            auto r = scn::scan_value<T>(d);
            Out o;
            o.ok = bool(r);
            if (r) {
                o.val = repr_all(r->values());
                o.consumed = long(std::distance(d.begin(), r->range().begin()));
            }
            else
                o.code = r.error().code();
            ++R.calls;
            cmp(key("scan_value deque"), w, o);
        }
        {
            CookieFile cf(in, 0x5555);
            auto r = scn::scan_value<T>(cf.f);
            Out o;
            o.ok = bool(r);
            if (r) o.val = repr_all(r->values());
            else o.code = r.error().code();
            o.consumed = long(in.size()) - long(cf.rest().size());
            ++R.calls;
            cmp(key("scan_value FILE"), w, o);
        }
        {
            CookieFile cf(in, 0);
            FILE* old = stdin;
            stdin = cf.f;
            auto r = scn::input<T>("{}");
            stdin = old;
            Out o;
            o.ok = bool(r);
            if (r) o.val = repr_all(r->values());
            else o.code = r.error().code();
            o.consumed = long(in.size()) - long(cf.rest().size());
            ++R.calls;
            cmp(key("input"), w, o);
        }
        {
            CookieFile cf(in, 0);
            FILE* old = stdin;
            stdin = cf.f;
            FILE* oldout = stdout;
            static char pbuf[64];
            FILE* mo = fmemopen(pbuf, sizeof pbuf, "w");
            stdout = mo;
            auto r = scn::prompt<T>("%s Q? ", "{}");
            stdout = oldout;
            std::fclose(mo);
            stdin = old;
            Out o;
            o.ok = bool(r);
            if (r) o.val = repr_all(r->values());
            else o.code = r.error().code();
            o.consumed = long(in.size()) - long(cf.rest().size());
            ++R.calls;
            cmp(key("prompt"), w, o);
            ++R.checks;
            if (std::string_view(pbuf) != "%s Q? ") R.fail(key("prompt text"), pbuf);
        }
    }
    // wide twins agree with each other
    if constexpr (!std::is_same_v<T, char> && !std::is_same_v<T, std::string_view>) {
        auto wi = txt::to_wide(in);
        if (!wi) return;
        Exact<wchar_t> wex(*wi);
        auto wsv = wex.view();
        const wchar_t* wend = wsv.data() + wsv.size();
        Out ww = scan_wsv<T>(wsv, L"{}");
#define WEP(NAME, CALL)                                   \
    {                                                     \
        auto r = CALL;                                    \
        cmp(key(NAME), ww, wout_of(r, wend, wsv.size())); \
    }
        WEP("wide compile-time {}", scn::scan<T>(wsv, L"{}"));
        WEP("wide {0:}", scn::scan<T>(wsv, L"{0:}"));
        WEP("wide scan_value", scn::scan_value<T>(wsv));
        WEP("wide scan_value with default", scn::scan_value<T>(wsv, T{}));
        WEP("wide scan with default", (scn::scan<T>(wsv, L"{}", std::tuple<T>{T{}})));
        WEP("wide scan_value over a value", scn::scan_value<T>(wsv, old_value<T>(1)));
        WEP("wide scan over a value", (scn::scan<T>(wsv, L"{}", std::tuple<T>{old_value<T>(0)})));
        WEP("wide scan with locale", scn::scan<T>(classic, wsv, L"{}"));
        WEP("wide scan with locale and default", (scn::scan<T>(classic, wsv, L"{}", std::tuple<T>{T{}})));
        Out c = ww;
        if (c.ok) c.consumed = txt::bytes_of(in, c.consumed);
        if constexpr (!std::is_same_v<T, std::wstring_view>) cmp(key("wide"), w, c);
    }
}
template <typename T>
void entries(const char* ty, const std::vector<std::string>& alpha, int len)
{
    auto& R = Run::get();
    if (!R.group(std::string("entry points ") + ty)) return;
    mc::for_strings(alpha, 0, len + (R.thorough ? 1 : 0), [&](const std::string& in) { entry_one<T>(ty, in); });
}

// ---- the value an argument had before the call is not seen ---------------
template <typename T>
void over(const char* ty, const std::vector<std::string>& fmts, const std::vector<std::string>& alpha, int len)
{
    auto& R = Run::get();
    if (!R.group(std::string("over a value ") + ty)) return;
    static const std::locale classic = std::locale::classic();
    for (auto& f : fmts) {
        const std::wstring wf(f.begin(), f.end());
        auto rf = [&] { return scn::runtime_format(std::string_view(f)); };
        auto wrf = [&] { return scn::runtime_format(std::wstring_view(wf)); };
        mc::for_strings(alpha, 0, len + (R.thorough ? 1 : 0), [&](const std::string& in) {
            auto key = [&](const char* e) { return std::string(ty) + "|" + f + "|" + e + "|" + mc::esc(in); };
            if (!R.take([&] { return key("over"); })) return;
            Exact<char> ex(in);
            auto sv = ex.view();
            const char* end = sv.data() + sv.size();
            Out w = scan_sv<T>(sv, f);
            for (int k : {0, 1}) {
                std::tuple<T> old{old_value<T>(k)};
                EP("view", (scn::scan<T>(sv, rf(), std::tuple<T>(old))));
                EP("locale", (scn::scan<T>(classic, sv, rf(), std::tuple<T>(old))));
                {
                    auto res = scn::make_scan_result<std::string_view, T>();
                    res->values() = old;
                    scn::fill_scan_result(res, scn::vscan(sv, f, scn::make_scan_args(res->values())));
                    cmp(key("vscan"), w, out_of(res, end, sv.size()));
                }
                // (a regular expression needs a contiguous source)
                if constexpr (!std::is_same_v<T, std::string_view>) if (f.find('/') == f.npos) {
                    std::deque<char> d(in.begin(), in.end());
                    auto r = scn::scan<T>(d, rf(), std::tuple<T>(old));
                    Out o;
                    o.ok = bool(r);
                    if (r) {
                        o.val = repr_all(r->values());
                        o.consumed = long(std::distance(d.begin(), r->range().begin()));
                    }
                    else
                        o.code = r.error().code();
                    ++R.calls;
                    cmp(key("deque"), w, o);
                }
                if constexpr (!std::is_same_v<T, char> && !std::is_same_v<T, std::string_view>) {
                    auto wi = txt::to_wide(in);
                    if (!wi) continue;
                    Exact<wchar_t> wex(*wi);
                    auto wsv = wex.view();
                    const wchar_t* wend = wsv.data() + wsv.size();
                    Out ww = scan_wsv<T>(wsv, wf);
                    auto r = scn::scan<T>(wsv, wrf(), std::tuple<T>(old));
                    cmp(key("wide"), ww, wout_of(r, wend, wsv.size()));
                }
            }
        });
    }
}

// ---- presentation types and multi-argument variants --------------------
static void variants(const std::string& in)
{
    auto& R = Run::get();
    auto key = [&](const char* e) { return std::string("variants|") + e + "|" + mc::esc(in); };
    if (!R.take([&] { return key("int"); })) return;
    static const std::locale classic = std::locale::classic();
    Exact<char> ex(in);
    auto sv = ex.view();
    const char* end = sv.data() + sv.size();
#define PAIR(NAME, A, B)                                    \
    {                                                       \
        auto a = A;                                         \
        auto b = B;                                         \
        cmp(key(NAME), out_of(a, end, sv.size()), out_of(b, end, sv.size())); \
    }
    // scan_int against the model, in the bases that take prefixes
    for (int b : {0, 2, 8, 10, 16}) scan_int_one<int>("int", in, b, false);
    PAIR("d", scn::scan<int>(sv, "{:d}"), scn::scan_int<int>(sv, 10));
    PAIR("x", scn::scan<int>(sv, "{:x}"), scn::scan_int<int>(sv, 16));
    PAIR("o", scn::scan<int>(sv, "{:o}"), scn::scan_int<int>(sv, 8));
    PAIR("b", scn::scan<int>(sv, "{:b}"), scn::scan_int<int>(sv, 2));
    PAIR("i", scn::scan<int>(sv, "{:i}"), scn::scan_int<int>(sv, 0));
    PAIR("rt d", scn::scan<int>(sv, scn::runtime_format("{:d}")), scn::scan<int>(sv, "{:d}"));
    PAIR("rt x", scn::scan<int>(sv, scn::runtime_format("{:x}")), scn::scan<int>(sv, "{:x}"));
    PAIR("two", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(sv, scn::runtime_format("{} {}"))));
    PAIR("two manual", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(sv, "{0} {1}")));
    PAIR("two default", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(sv, "{} {}", std::tuple<int, int>{7, 7})));
    PAIR("two locale", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(classic, sv, "{} {}")));
    PAIR("two locale default", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(classic, sv, "{} {}", std::tuple<int, int>{7, 7})));
    PAIR("three", (scn::scan<int, std::string, int>(sv, "{}{}{}")), (scn::scan<int, std::string, int>(classic, sv, scn::runtime_format("{0}{1}{2}"))));
    auto wi = txt::to_wide(in);
    Exact<wchar_t> wex(*wi);
    auto w = wex.view();
    const wchar_t* wend = w.data() + w.size();
#define WPAIR(NAME, A, B)                                   \
    {                                                       \
        auto a = A;                                         \
        auto b = B;                                         \
        auto wo = wout_of(b, wend, w.size());               \
        if (wo.ok) wo.consumed = txt::bytes_of(in, wo.consumed); \
        cmp(key(NAME), out_of(a, end, sv.size()), wo);      \
    }
    WPAIR("wide d", scn::scan<int>(sv, "{:d}"), scn::scan<int>(w, L"{:d}"));
    WPAIR("wide x", scn::scan<int>(sv, "{:x}"), scn::scan<int>(w, L"{:x}"));
    WPAIR("wide o", scn::scan<int>(sv, "{:o}"), scn::scan<int>(w, L"{:o}"));
    WPAIR("wide b", scn::scan<int>(sv, "{:b}"), scn::scan<int>(w, L"{:b}"));
    WPAIR("wide i", scn::scan<int>(sv, "{:i}"), scn::scan<int>(w, L"{:i}"));
    WPAIR("wide u", scn::scan<int>(sv, "{:u}"), scn::scan<int>(w, L"{:u}"));
    WPAIR("wide two", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(w, L"{} {}")));
    WPAIR("wide two default", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(w, L"{} {}", std::tuple<int, int>{7, 7})));
    WPAIR("wide two locale", (scn::scan<int, int>(sv, "{} {}")), (scn::scan<int, int>(classic, w, L"{0} {1}")));
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    bases<int>("int", true);
    bases<long long>("llong", false);
    bases<unsigned long>("ulong", true);
    bases<long>("long", false);
    bases<signed char>("schar", false);
    bases<unsigned char>("uchar", false);
    bases<short>("short", false);
    bases<unsigned short>("ushort", false);
    bases<unsigned>("uint", false);
    bases<unsigned long long>("ullong", false);
    exhaustive<long>("long", 1, 19);
    exhaustive<unsigned long>("ulong", 1, 20);
    exhaustive<unsigned long long>("ullong", 1, 20);
    exhaustive<long long>("llong", 1, 19);
    exhaustive<int>("int", 1, 10);
    exhaustive<unsigned>("uint", 1, 10);
    exhaustive<short>("short", 1, 5);
    exhaustive<unsigned short>("ushort", 1, 5);
    exhaustive<signed char>("schar", 1, 3);
    exhaustive<unsigned char>("uchar", 1, 3);

    const std::vector<std::string> ai = {"1", "9", "0", "-", "+", " ", "x", "a", "\xc2\x85"};
    entries<int>("int", ai, 4);
    entries<unsigned>("uint", ai, 3);
    entries<signed char>("schar", ai, 4);
    entries<unsigned char>("uchar", ai, 3);
    entries<short>("short", ai, 3);
    entries<unsigned short>("ushort", ai, 3);
    entries<long>("long", ai, 3);
    entries<unsigned long>("ulong", ai, 3);
    entries<long long>("llong", ai, 3);
    entries<unsigned long long>("ullong", ai, 3);
    const std::vector<std::string> af = {"1", "0", ".", "e", "-", " ", "x", "inf", "nan", "p"};
    entries<float>("float", af, 3);
    entries<double>("double", af, 4);
    entries<long double>("ldouble", af, 3);
    const std::vector<std::string> as = {"a", "b", " ", "\n", "\xc3\xa4", "\xc2\x85", "1"};
    entries<std::string>("string", as, 4);
    entries<std::wstring>("wstring", as, 3);
    entries<std::string_view>("string_view", as, 4);
    entries<char>("char", as, 3);
    entries<char32_t>("char32", as, 3);
    entries<wchar_t>("wchar", as, 3);
    entries<bool>("bool", {"true", "false", "1", "0", " ", "t"}, 3);
    entries<void*>("ptr", {"0x", "1", "f", "F", " ", "g", "-"}, 4);
    const std::vector<std::string> fi = {"{}", "{:d}", "{:i}", "{:u}", "{:x}", "{:o}", "{:b}", "{:L}", "{:r7}", "{:3}", "{:.3}", "{:c}"};
    const std::vector<std::string> oi = {"1", "0", "7", "-", "0x", "0b", " ", "z"};
    over<int>("int", fi, oi, 4);
    over<unsigned char>("uchar", fi, oi, 3);
    over<long long>("llong", fi, oi, 3);
    over<unsigned long>("ulong", fi, oi, 3);
    over<short>("short", fi, oi, 3);
    const std::vector<std::string> ff = {"{}", "{:a}", "{:e}", "{:f}", "{:g}", "{:L}", "{:4}", "{:.4}"};
    const std::vector<std::string> of = {"1", "0", ".", "e", "-", "0x", "inf", "nan", " ", "z"};
    over<float>("float", ff, of, 3);
    over<double>("double", ff, of, 4);
    over<long double>("ldouble", ff, of, 3);
    const std::vector<std::string> fb = {"{}", "{:s}", "{:d}", "{:i}", "{:x}", "{:o}", "{:b}", "{:u}", "{:L}", "{:Ls}", "{:.4}"};
    over<bool>("bool", fb, {"true", "false", "1", "0", " ", "t", "-"}, 3);
    over<void*>("ptr", {"{}", "{:p}", "{:6}"}, {"0x", "1", "0", "f", " ", "g"}, 4);
    const std::vector<std::string> fs = {"{}", "{:s}", "{:c}", "{:.2c}", "{:3c}", "{:.3}", "{:3}", "{:[ab]}", "{:[^ ]}", "{:/[a-z]+/}", "{:/a*/}", "{:<.4}", "{:^5}", "{:*>4}"};
    const std::vector<std::string> os = {"a", "b", " ", "\xc3\xa4", "*", "1"};
    over<std::string>("string", fs, os, 4);
    over<std::wstring>("wstring", fs, os, 3);
    over<std::string_view>("string_view", fs, os, 3);
    const std::vector<std::string> fc = {"{}", "{:c}", "{:3}", "{:.3}", "{:>3}"};
    over<char>("char", fc, os, 4);
    over<wchar_t>("wchar", fc, os, 3);
    over<char32_t>("char32", fc, os, 3);
    if (R.group("variants"))
        mc::for_strings({"1", "7", "a", "0", "x", "b", "-", "+", " ", "o"}, 0, th ? 6 : 5, variants);
    if (R.group("variants, prefixes in both cases"))
        mc::for_strings({"1", "7", "f", "0x", "0X", "0b", "0B", "0o", "0O", "-", " "}, 0, th ? 5 : 4, variants);
    if (R.group("variants, lookalikes"))
        mc::for_strings({"1", "0", "x", "-", "\xc4\xb1", "\xc4\xad", "\xc4\xab", "\xc5\xb8", "\xc4\xa0", "\xd9\xa1", "\xef\xbc\x91"}, 1, th ? 5 : 4, variants);
    if (R.group("variants, long")) {
        for (int len = 1; len <= 300; ++len)
            for (const char* head : {"", "-", "0x", "0b", "0o", "  "})
                for (char fill : {'0', '1', '9'})
                    for (const char* tail : {"", "1", "7 ", "x"}) variants(head + std::string(size_t(len), fill) + tail);
    }
    if (R.group("variants, all kinds of whitespace"))
        mc::for_strings({"1", "0x", "-", " ", "\t", "\v", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\x8e", "\xc2\xa0"}, 0, th ? 5 : 4, variants);
    return R.finish();
}
