// P01: the outcome of a scan depends on the characters, not on the source that
// delivers them.
#include "sources.h"
#include "text.h"
#include <vector>
#include <istream>
#include <map>
#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
using namespace src;
using mc::Run;

std::string repr(const std::tm& t)
{
    std::string s;
    for (long v : {long(t.tm_sec), long(t.tm_min), long(t.tm_hour), long(t.tm_mday), long(t.tm_mon), long(t.tm_year), long(t.tm_wday), long(t.tm_yday), long(t.tm_gmtoff)})
        s += std::to_string(v) + "/";
    return s;
}
namespace scn {
template <typename T>
std::string repr(const discard<T>&)
{
    return "";
}
std::string repr(const datetime_components& t)
{
    std::string s;
    auto put = [&](auto& o) { s += o ? std::to_string(long(*o)) + "/" : "-/"; };
    s += t.subsec ? src::repr(*t.subsec) + "/" : "-/";
    put(t.sec), put(t.min), put(t.hour), put(t.mday), put(t.year), put(t.yday);
    s += t.mon ? std::to_string(unsigned(*t.mon)) + "/" : "-/";
    s += t.wday ? std::to_string(t.wday->c_encoding()) + "/" : "-/";
    s += t.tz_offset ? std::to_string(t.tz_offset->count()) + "/" : "-/";
    s += t.tz_name ? *t.tz_name : "-";
    return s;
}
}  // namespace scn

// a user type read with operator>>
namespace user {
struct St {
    int x;
    std::string y;
};
template <typename C>
std::basic_istream<C>& operator>>(std::basic_istream<C>& is, St& s)
{
    std::basic_string<C> w;
    if (is >> s.x && is.get() == C(':')) is >> w;
    else is.setstate(std::ios_base::failbit);
    s.y.clear();
    for (C c : w) s.y += std::to_string(long(c)) + ".";
    return is;
}
std::string repr(const St& s)
{
    return std::to_string(s.x) + ":" + s.y;
}
}  // namespace user
template <typename CharT>
struct scn::scanner<user::St, CharT> : scn::basic_istream_scanner<CharT> {};

// a user type with a nested scan over ctx.range()
namespace user {
struct Pt {
    int x, y;
};
std::string repr(const Pt& p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}
}  // namespace user
template <typename CharT>
struct scn::scanner<user::Pt, CharT> : scn::scanner<int, CharT> {
    template <class Ctx>
    auto scan(user::Pt& p, Ctx& ctx) const
        -> scan_expected<typename Ctx::iterator>
    {
        if constexpr (std::is_same_v<CharT, char>) {
            auto r = scn::scan<int, int>(ctx.range(), "[{},{}]");
            if (!r) return scn::unexpected(r.error());
            std::tie(p.x, p.y) = r->values();
            return r->begin();
        }
        else {
            auto r = scn::scan<int, int>(ctx.range(), L"[{},{}]");
            if (!r) return scn::unexpected(r.error());
            std::tie(p.x, p.y) = r->values();
            return r->begin();
        }
    }
};
static void diff(const char* ty, std::string_view fmt, std::string_view in,
                 const std::string& where, const Out& ref, const Out& got)
{
    ++Run::get().checks;
    if (ref != got)
        Run::get().fail(std::string(ty) + "|" + mc::esc(fmt) + "|" +
                            mc::esc(in) + "|" + where,
                        "string_view: " + ref.str() + "  " + where + ": " +
                            got.str());
}

// (a char can't be read from wide text)
template <typename T>
struct no_wide : std::is_same<T, char> {};
template <typename... T>
struct no_wide<std::tuple<T...>> : std::disjunction<no_wide<T>...> {};
template <typename... T>
constexpr bool wide_ok = !(no_wide<T>::value || ...);

// FILE cut masks to run for an input of length n
template <typename F>
void for_cuts(size_t n, size_t full, F&& f)
{
    if (n <= 1) return f(uint64_t(0));
    if (n <= full) {
        for (uint64_t m = 0; m < (uint64_t(1) << (n - 1)); ++m) f(m);
        return;
    }
    f(0);
    f(~uint64_t(0));
    size_t k = n - 1 < 63 ? n - 1 : 63;
    for (size_t i = 0; i < k; ++i) f(uint64_t(1) << i);
    for (size_t i = 0; i < k; ++i)
        for (size_t j = i + 1; j < k; ++j)
            f(uint64_t(1) << i | uint64_t(1) << j);
}

template <typename... T>
void one(const char* ty, std::string_view fmt, std::string_view in,
         bool wide, size_t full)
{
    auto& R = Run::get();
    if (!R.take([&] {
            return std::string(ty) + " fmt=" + mc::esc(fmt) + " in=" + mc::esc(in);
        }))
        return;
    Exact<char> ex(in);
    Out ref = scan_sv<T...>(ex.view(), fmt);
    R.outcome(ref.str());
    diff(ty, fmt, in, "list", ref, scan_list<T...>(in, fmt));
    if (in.size() <= 24)
        diff(ty, fmt, in, "deque", ref, scan_deque<T...>(in, fmt));
    for_cuts(in.size(), full, [&](uint64_t m) {
        diff(ty, fmt, in, "FILE cuts=" + std::to_string(m), ref,
             scan_file<T...>(in, fmt, m, 0));
    });
    diff(ty, fmt, in, "FILE unbuffered", ref, scan_file<T...>(in, fmt, 0, 1));
    for (int bs : {2, 3, 5, 8})
        if (size_t(bs) < in.size())
            diff(ty, fmt, in, "FILE buffer=" + std::to_string(bs), ref,
                 scan_file<T...>(in, fmt, 0, bs));
    if constexpr (wide_ok<T...>) {
        if (!wide) return;
        auto win = txt::to_wide(in), wf = txt::to_wide(fmt);
        if (!win || !wf) return;
        Exact<wchar_t> wex(*win);
        Out w = scan_wsv<T...>(wex.view(), *wf);
        diff(ty, fmt, in, "wide deque", w, scan_wdeque<T...>(*win, *wf));
        if (w.consumed > 0) w.consumed = txt::bytes_of(in, w.consumed);
        diff(ty, fmt, in, "wstring_view", ref, w);
    }
}

using Toks = std::vector<std::string>;

template <typename... T>
void sweep(const char* ty, const Toks& fmts, const Toks& alpha, int len,
           bool wide = true, int minlen = 0)
{
    auto& R = Run::get();
    if (!R.group(ty)) return;
    for (auto& f : fmts)
        mc::for_strings(alpha, minlen, len, [&](const std::string& in) {
            one<T...>(ty, f, in, wide, R.thorough ? 10 : 8);
        });
}
// long inputs: prefix filler of every length up to n, so that the interesting
// part falls on every offset of an 8-byte block and of small buffers
template <typename... T>
void longs(const char* ty, const Toks& fmts, const Toks& fill, const Toks& tails,
           int n, bool wide = true)
{
    auto& R = Run::get();
    if (!R.group(std::string(ty) + "-long")) return;
    for (auto& f : fmts)
        for (auto& fl : fill)
            for (auto& t : tails) {
                std::string p;
                for (int k = 0; k <= n; ++k) {
                    one<T...>(ty, f, p + t, wide, 0);
                    p += fl;
                }
            }
}
// inputs around the size of a default FILE buffer
template <typename... T>
void huge(const char* ty, const Toks& fmts, const Toks& fill, const Toks& tails)
{
    auto& R = Run::get();
    if (!R.group(std::string(ty) + "-4096")) return;
    for (auto& f : fmts)
        for (auto& fl : fill)
            for (auto& t : tails)
                for (int n = 4096 - 12; n <= 4096 + 2; ++n) {
                    std::string in;
                    while (int(in.size()) + int(fl.size()) <= n) in += fl;
                    in += t;
                    if (!R.take([&] {
                            return std::string(ty) + " fmt=" + mc::esc(f) +
                                   " in=" + mc::esc(fl) + "*" +
                                   std::to_string(n) + mc::esc(t);
                        }))
                        continue;
                    Out ref = scan_sv<T...>(in, f);
                    std::string nm = fl + "*" + std::to_string(n) + t;
                    diff(ty, f, nm, "list", ref, scan_list<T...>(in, f));
                    diff(ty, f, nm, "FILE", ref, scan_file<T...>(in, f, 0, 0));
                    diff(ty, f, nm, "FILE unbuffered", ref,
                         scan_file<T...>(in, f, 0, 1));
                }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    const int L = th ? 5 : 4;
    const Toks spec_i = {"{}", "{:d}", "{:x}", "{:i}", "{:b}", "{:o}", "{:u}", "{:.2}",
                         "{:3}", "{:*>3}", "{:*<3}", "{:*^.3}", "{:*>.4}", "{:L}",
                         " {}", "a{}", "{}a"};
    sweep<int>("int", spec_i, {"1", "9", "-", "0", "x", "*", " ", "a"}, L);
    sweep<unsigned char>("uchar", {"{}", "{:i}", "{:*>4}"},
                         {"2", "5", "6", "-", "+", "0", " ", "\xc2\x85"}, L);
    sweep<long long>("llong", {"{}", "{:x}"},
                     {"9223372036854775807", "9223372036854775808", "-", "7fffffffffffffff", "0", " "}, 3);
    sweep<double>("double", {"{}", "{:a}", "{:e}", "{:f}", "{:g}", "{:.3}", "{:*>4}", "{:*<4}", "{:L}"},
                  {"1", "0", ".", "e", "-", "x", "p", " ", "f"}, th ? 5 : 4);
    sweep<double>("double2", {"{}", "{:.4}"},
                  {"i", "n", "f", "N", "a", "(", ")", "+"}, th ? 5 : 4);
    sweep<double>("double3", {"{}", "{:a}", "{:g}"},
                  {"inf", "inity", "nan", "(1)", "1e", "+", "99999", "0x", ".5", " "}, 4);
    sweep<float>("float", {"{}", "{:a}"}, {"3", ".", "e", "40", "-", "0x", "p"}, L);
    sweep<std::string>("string", {"{}", "{:s}", "{:.2}", "{:3}", "{:.2c}", "{:4c}", "{:[a-c]}",
                                  "{:[^a]}", "{:[a\xc3\xa4]}", "{:*>3}", "{:*<4}", "{:*^.4}", "{:[:alpha:]}",
                                  "b{}"},
                       {"a", "b", " ", "*", "\xc3\xa4", "\xe4\xbd\xa0", "\xc2\x85", "\n"}, L);
    sweep<std::string>("string-bad", {"{}", "{:.2}", "{:.3c}", "{:[^a]}", "{:*>3}", "{:\xc3\xa4>}"},
                       {"a", " ", "\xe4", "\xbd", "\xa0", "\xc3", "\x85", "\xff"}, L, false);
    sweep<std::wstring>("wstring", {"{}", "{:.2}", "{:.2c}", "{:[^a]}"},
                        {"a", " ", "\xc3\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xff"}, L);
    sweep<char>("char", {"{}", "{:c}", "{:d}", " {}", "{:*>3}", "{:3}"}, {"a", " ", "*", "1", "\xc3", "\n"}, L);
    sweep<char32_t>("char32", {"{}", "{:c}", " {}", "{:*>3}"},
                    {"a", " ", "*", "\xc3", "\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xc0\x80"}, th ? 4 : 3);
    sweep<wchar_t>("wchar", {"{}", "{:c}"}, {"a", " ", "\xc3", "\xa4", "\xe4\xbd\xa0", "\xf0\x9f"}, 3);
    sweep<bool>("bool", {"{}", "{:s}", "{:d}", "{:i}", "{:.4}", "{:*>6}"},
                {"true", "false", "tru", "e", "0", "1", " ", "*"}, 3);
    sweep<void*>("ptr", {"{}", "{:p}", "{:.4}"}, {"0x", "0X", "f", "1", " ", "-", "g", "0"}, L);
    sweep<int, int>("int2", {"{} {}", "{},{}", "{}{}", "{:1}{}", "{:.1}{}", "{} x{}", "{1} {0}"},
                    {"1", "23", " ", ",", "x", "-"}, th ? 6 : 5);
    sweep<std::string, int>("str-int", {"{} {}", "{:[a-z]}{}", "{:.2c}{}"},
                            {"a", "1", " ", "\xc2\x85", "\xe2\x80\xa8"}, 4);
    sweep<int, std::string>("int-lit", {"{} \xe4\xbd\xa0{}", "\xc2\x85{}{{{}", "{}}}{}"},
                            {"1", "\xe4\xbd\xa0", " ", "{", "}", "\xc2\x85"}, 4);
    sweep<int, user::Pt, int>("nested", {"{} {} {}", "{}{}{}"},
                              {"1", "[", ",", "]", " "}, th ? 7 : 6);
    sweep<user::Pt>("nested1", {"{}", " {}"}, {"12", "[", ",", "]", " "}, th ? 6 : 5);
    sweep<std::vector<int>>("vector", {"{}", "{:x}"}, {"1", "[", ",", "]", " ", "-"}, th ? 6 : 5, true);

    sweep<std::map<int, std::string>>("map", {"{}"}, {"1", "{", ":", "a", ",", "}", " "}, th ? 6 : 5, true, 2);
    sweep<std::tuple<int, char, double>>("tuple", {"{}"}, {"(1", ",", "2.5", "a", ")", " "}, 6, false, 2);
    sweep<std::tuple<int, bool, double>>("tuple<int,bool,double>", {"{}"}, {"(1", ",", "2.5", "true", ")", " "}, 6, true, 2);
    sweep<std::vector<std::string>>("vector<string>", {"{}", "{:[a-z]}"}, {"[", "ab", ",", "]", "\xc3\xa4", " "}, 5);
    // discarded fields
    sweep<scn::discard<int>, std::string>("discard", {"{} {}", "{:x}{}", "{},{}"}, {"1", "f", " ", ",", "\xc2\x85"}, 5);
    // extraction operators
    sweep<user::St, std::string>("stream", {"{}{}", "{} {}"}, {"1", "-", ":", "a", " "}, th ? 6 : 5);
    // dates
    sweep<std::tm>("tm", {"{:%Y-%m-%d}", "{:%F}"}, {"2024", "-", "1", "02", " "}, 5, true, 1);
    sweep<std::tm>("tm2", {"{:%H:%M:%S}", "{:%T %p}", "{:%I:%M %p}", "{:%I%p}"}, {"12", ":", "5", "am", "p.m.", " "}, th ? 6 : 5, true, 1);
    sweep<std::tm>("tm3", {"{:%a %d %b}", "{:%b%a}", "{:%A, %d}", "{:%c}", "{:L%b}", "{:L%a %d}"}, {"Mon", "day", "1", " ", "May", "Jun", "e", ","}, 5, true, 1);
    sweep<scn::datetime_components>("datetime", {"{:%.S}", "{:%M:%.S%z}", "{:%H%Z}", "{:%C%y}", "{:%R%Ez}", "{:%x}"},
                                    {"20", ".", "5", ":", "+", "-", "/"}, 5, true, 1);
    longs<scn::datetime_components>("datetime", {"{:%Z}", "{:%.S}", "{: %H}", "{:%H %M}"}, {" ", "A", "1.5", "1"}, {"", "1.5", "12 3", "B/c "}, 20);

    longs<std::string>("string", {"{}", " {}", "{:[^ ]}"}, {"a", "\xc3\xa4"},
                       {"", " ", "\xc2\x85", "\xe2\x80\xa8x", "\xe4\xbd\xa0 b", "\xc2", "\xe2\x80", "\xff z"},
                       th ? 40 : 20);
    longs<int>("int", {"{}", "{:x}", "a {}"}, {" ", "\n", "1", "0"},
               {"", "1", "23 ", "-4", "x", "\xc2\x85" "5"}, th ? 40 : 24);
    longs<int>("int-a", {"{}", "aaaaaaaa {}"}, {"a", "\xe2\x80\x8e", "\xc2\x85"}, {"", " 1", "7", "\xe2\x80\xa9" "6"}, 14);
    longs<double>("double", {"{}", "{:.9}"}, {"1", "0", " "}, {"", ".5", "e1", "e", ".", "x", "p1"}, 24);
    huge<std::string>("string", {"{}", "{:[^ ]}", " {}"}, {"a", "\xc3\xa4", " ", "\xe4\xbd\xa0"},
                      {"", " b", "\xc2\x85", "bc d", "\xe4\xbd\xa0\xe4\xbd\xa0 x"});
    huge<int>("int", {"{}", " {}"}, {" ", "0", "\xe2\x80\xa8"}, {"", "12 3", "-5x", "\xc2\x85" "9"});
    huge<std::string, int>("str-int", {"{} {}"}, {"a"}, {" 1", "b 23", " x"});
    return R.finish();
}
