// P04: any input with any format string is processed safely and terminates.
// Built with AddressSanitizer, UBSan, library assertions and SCN_EXPECT: a
// violation ends the shard and is attributed to the running case.
#include "sources.h"
#include "text.h"
#include <scn/chrono.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <map>
#include <set>
#include <vector>
using mc::Run;
using src::CookieFile;
using src::Exact;
using Toks = std::vector<std::string>;

struct Sources {
    bool list = true, file = true, wide = true;
};
// not available for wide sources, or for sources that are not contiguous
template <typename T>
struct traits {
    static constexpr bool wide = true, seg = true;
};
#define NO_WIDE(...)                                      \
    template <>                                           \
    struct traits<__VA_ARGS__> {                          \
        static constexpr bool wide = false, seg = true;   \
    }
NO_WIDE(char);
NO_WIDE(std::string_view);
NO_WIDE(std::vector<int>);
NO_WIDE(std::vector<std::string>);
NO_WIDE(std::map<int, std::string>);
NO_WIDE(std::set<char32_t>);
NO_WIDE(std::pair<int, std::string>);
NO_WIDE(std::tuple<char, double, int>);
NO_WIDE(std::vector<std::vector<int>>);
NO_WIDE(scn::regex_matches);

// the description of a case, made only when it is needed
struct Key {
    std::function<std::string()> f;
};
static std::string operator+(const std::string& a, const Key& k) { return a + k.f(); }
static void bad(const std::string& key, const char* what)
{
    Run::get().fail(key, what);
}

template <typename... T, typename S, typename F>
void guarded(const char* kind, const Key& key, const S& s, F fmt)
{
    auto& R = Run::get();
    ++R.calls;
    ++R.checks;
    try {
        auto r = scn::scan<T...>(s, scn::runtime_format(fmt));
        if (r) {
            auto rg = r->range();
            auto n = std::distance(s.begin(), s.end()), k = std::distance(rg.begin(), rg.end());
            if (k < 0 || k > n || !(rg.end() == s.end())) bad(std::string(kind) + "|" + key, "range() outside the source");
        }
        R.outcome(uint64_t(r ? 99 : r.error().code()) * 31 + sizeof...(T));
    }
    catch (const std::exception& e) {
        bad(std::string(kind) + "|" + key, (std::string("exception: ") + e.what()).c_str());
    }
    catch (...) {
        bad(std::string(kind) + "|" + key, "exception");
    }
}
template <typename... T>
void all_sources(const char* ty, const std::string& fmt, const std::string& in, Sources so)
{
    auto& R = Run::get();
    auto mk = [&] { return std::string(ty) + "|" + mc::esc(fmt) + "|" + mc::esc(in); };
    if (!R.take(mk)) return;
    const Key key{mk};
    Exact<char> ex(in), fx(fmt);
    guarded<T...>("string_view", key, ex.view(), fx.view());
    if constexpr ((traits<T>::seg && ...)) {
        if (so.list) {
            std::list<char> l(in.begin(), in.end());
            guarded<T...>("list", key, l, fx.view());
        }
        if (so.file)
            for (uint64_t cuts : {uint64_t(0), ~uint64_t(0)}) {
                CookieFile cf(in, cuts);
                ++R.calls;
                ++R.checks;
                try {
                    auto r = scn::scan<T...>(cf.f, scn::runtime_format(fx.view()));
                    (void)r;
                }
                catch (...) {
                    bad(std::string("FILE|") + key, "exception");
                }
                auto rest = cf.rest();
                if (rest.size() > in.size() || in.compare(in.size() - rest.size(), rest.size(), rest) != 0)
                    bad(std::string("FILE|") + key, "text lost");
            }
    }
    if constexpr ((traits<T>::wide && ...)) {
        if (so.wide) {
            // ill-formed text becomes wide characters out of range
            auto w8 = [](const std::string& s) {
                std::wstring w;
                for (size_t i = 0; i < s.size();) {
                    char32_t c{};
                    int n = txt::dec8(std::string_view(s).substr(i), c);
                    w += n ? wchar_t(c) : wchar_t(0xdc00 + (unsigned char)s[i]);
                    i += size_t(n ? n : 1);
                }
                return w;
            };
            Exact<wchar_t> wex(w8(in)), wf(w8(fmt));
            guarded<T...>("wide", key, wex.view(), wf.view());
            if (so.list) {
                auto v = wex.view();
                std::deque<wchar_t> d(v.begin(), v.end());
                guarded<T...>("wide deque", key, d, wf.view());
            }
        }
    }
}

// spec-level tokens: every character with a meaning somewhere in the grammar
static const Toks spec_toks = {"<", ">", "^", "*", "\xc3\xa4", "0", "3", "99", ".", "L", "d", "x", "i", "u", "b", "o",
                               "c", "s", "a", "e", "f", "g", "p", "r", "[a-\xc3\xa4]", "[^ ]", "[]", "[", "]", "/a.*/", "/(a/i", "/",
                               "{", "}", ":", "-", "%Y", "%H:%M", "%", "%E", "%O", "%.", "%.E", "n", "m", "99999999999", "\xff", "\xc3", "B", "X", "E"};
static const Toks raw_toks = {"{", "}", "{}", "{:", "0", "1", ":", " ", "a", "\xc3\xa4", "\xff", "%", "{0}", "{{", "}}", "{:d}"};

template <typename T>
void formats(const char* ty, const Toks& ins, int depth, int rawdepth)
{
    if (!Run::get().group(std::string("formats ") + ty)) return;
    mc::for_strings(spec_toks, 0, depth, [&](const std::string& f) {
        for (auto& in : ins) {
            all_sources<T>(ty, "{:" + f + "}", in, {false, false, f.size() <= 4});
            if (&in == &ins.back()) all_sources<T>(ty, "{:" + f, in, {false, false, f.size() <= 4});
        }
    });
    mc::for_strings(raw_toks, 0, rawdepth, [&](const std::string& f) {
        for (auto& in : ins) all_sources<T>(ty, f, in, {false, false, true});
    });
}
template <typename... T>
void texts(const char* ty, const Toks& fmts, const Toks& alpha, int len)
{
    if (!Run::get().group(std::string("texts ") + ty)) return;
    for (auto& f : fmts)
        mc::for_strings(alpha, 0, len, [&](const std::string& in) { all_sources<T...>(ty, f, in, {}); });
}
template <typename T>
void pads(const char* ty, const Toks& fmts, const Toks& fill, const Toks& tails)
{
    if (!Run::get().group(std::string("long texts ") + ty)) return;
    for (auto& f : fmts)
        for (auto& fl : fill)
            for (auto& t : tails) {
                std::string p;
                for (int k = 0; k <= 40; ++k) {
                    all_sources<T>(ty, f, p + t, {});
                    p += fl;
                }
            }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    const int d1 = th ? 4 : 3, d2 = 3;
    const Toks nin = {"", "12", " -0x1f*", "*1*", "\xff"};
    const Toks sin = {"", "a\xc3\xa4 ", "***", "\xe4\xbd", "  ab*"};
    const Toks cin = {"", "2024-01-31", "12:30:59", "1", "\xff", "Mon"};
    formats<int>("int", nin, d1, th ? 5 : 4);
    formats<double>("double", nin, d1, 3);
    formats<std::string>("string", sin, d1, th ? 5 : 4);
    formats<std::string_view>("string_view", sin, d2, 3);
    formats<char>("char", sin, d2, 3);
    formats<char32_t>("char32", sin, d2, 3);
    formats<wchar_t>("wchar", sin, d2, 3);
    formats<std::wstring>("wstring", sin, d2, 3);
    formats<bool>("bool", {"", "true", "0", "*1", "t\xff"}, d2, 3);
    formats<void*>("ptr", nin, d2, 3);
    formats<unsigned char>("uchar", nin, d2, 3);
    formats<long long>("llong", nin, d2, 2);
    formats<float>("float", nin, d2, 2);
    formats<long double>("ldouble", nin, d2, 2);
    formats<std::tm>("tm", cin, d2, 3);
    formats<scn::tm_with_tz>("tm_with_tz", cin, d2, 2);
    formats<scn::datetime_components>("datetime", cin, d2, 3);
    formats<scn::weekday>("weekday", cin, d2, 2);
    formats<scn::day>("day", cin, d2, 2);
    formats<scn::month>("month", cin, d2, 2);
    formats<scn::year>("year", cin, d2, 2);
    formats<scn::month_day>("month_day", cin, d2, 2);
    formats<scn::year_month>("year_month", cin, d2, 2);
    formats<scn::year_month_day>("year_month_day", cin, d2, 2);
    formats<std::vector<int>>("vector<int>", {"", "[1,2]", "[", "{1}", "[1"}, d2, 3);
    formats<std::map<int, std::string>>("map", {"", "{1:a,2:b}", "{", "{1:", "[1:a]"}, d2, 2);
    formats<std::tuple<char, double, int>>("tuple", {"", "(a,1,2)", "(", "(a", "(a,1,"}, d2, 2);
    formats<scn::regex_matches>("regex_matches", {"", "aab", "b", "\xff"}, d2, 2);
    formats<scn::discard<int>>("discard<int>", {"", "12", "x"}, d2, 2);

    const int L = th ? 6 : 5;
    texts<int>("int", {"{}", "{:i}", "{:x}", "{:L}", "{:.2}", "{:3}", "{:*<4}", "{:*^.5}", "{:\xc3\xa4>4}", "x{}", " {} "},
               {"1", "0", "x", "-", "*", " ", "\xff", "\xc3\xa4", "99999999999"}, L - 1);
    texts<unsigned long long>("ullong", {"{}", "{:x}", "{:b}"}, {"18446744073709551615", "0", "f", "0x", "-", "\x80"}, L);
    texts<double>("double", {"{}", "{:a}", "{:e}", "{:L}", "{:.3}", "{:*>5}"}, {"1", ".", "e", "-", "0x", "p", "inf", "nan", "(", " ", "*"}, L - 1);
    texts<float>("float", {"{}"}, {"1", ".", "e", "-", "9999999999", "0x", "p", "i", "n"}, L);
    texts<long double>("ldouble", {"{}"}, {"1", ".", "e", "+", "999", "0x", "p", "N", "\xff"}, L);
    texts<std::string>("string", {"{}", "{:s}", "{:[a]}", "{:[^a]}", "{:[\xc3\xa4-\xe4\xbd\xa0]}", "{:.3c}", "{:.2}", "{:3}", "{:*<5}", "{:*^.4}", "{:\xe4\xbd\xa0>.5}", "{:/a*/}"},
                       {"a", " ", "*", "\xc3", "\xa4", "\xe4\xbd\xa0", "\xf0\x9f", "\x98\x80", "\xff", "\xe2\x80\xa8"}, L - 1);
    texts<std::wstring>("wstring", {"{}", "{:[^a]}", "{:.3c}", "{:.2}"}, {"a", " ", "\xc3", "\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xff", "\xed\xa0\x80"}, L - 1);
    texts<std::string_view>("string_view", {"{}", "{:[^a]}", "{:.3c}"}, {"a", " ", "\xc3", "\xa4", "\xff"}, L);
    texts<char32_t, wchar_t>("char32,wchar", {"{}{}", "{} {}", "{:c}\xc3\xa4{}"}, {"a", " ", "\xc3", "\xa4", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80"}, L - 1);
    texts<bool>("bool", {"{}", "{:L}", "{:s}", "{:d}", "{:.3}"}, {"true", "fals", "e", "1", "0", " ", "\xff"}, L - 1);
    texts<void*>("ptr", {"{}"}, {"0x", "f", "1", "-", " ", "ffffffffffffffff"}, L);
    texts<std::vector<int>>("vector<int>", {"{}", "{:x}", "{:n}", "{::x}"}, {"[", "]", ",", "1", " ", "-", "\xff"}, L);
    texts<std::vector<std::string>>("vector<string>", {"{}"}, {"[", "]", ",", "a", " ", "\xc3\xa4"}, L);
    texts<std::vector<std::vector<int>>>("vector<vector>", {"{}"}, {"[", "]", ",", "1", " "}, L + 1);
    texts<std::map<int, std::string>>("map", {"{}"}, {"{", "}", ",", ":", "1", "a", " "}, L);
    texts<std::pair<int, std::string>>("pair", {"{}"}, {"(", ")", ",", "1", "a", " "}, L);
    texts<std::set<char32_t>>("set", {"{}"}, {"{", "}", ",", "a", "\xc3", "\xa4"}, L);
    texts<std::tm>("tm", {"{:%Y-%m-%d}", "{:%T %p}", "{:%a %b}", "{:%z}", "{:%S}", "{:%C%y}", "{:%j %U}", "{:%D}", "{:%c}", "{:%OS}"},
                   {"12", "0", "-", ":", "/", " ", "AM", "Mon", "Jan", "+", "\xff", "."}, 4);
    texts<scn::datetime_components>("datetime", {"{:%Y-%m-%dT%H:%M:%S%z}", "{:%I %p}", "{:%F}", "{:%Z}", "{:%s}", "{:%y %C}", "{:%G %V %u}"},
                                    {"2024", "12", "0", "-", ":", "T", " ", "pm", "+", "Z", "\xff"}, 4);
    texts<scn::regex_matches>("regex", {"{:/(a)|(b)/}", "{:/(a*)(b)?/}", "{:/[^a]+/}"}, {"a", "b", " ", "\xff", "\xc3\xa4"}, L);
    texts<int, std::string, char>("int,string,char", {"{}{}{}", "{} {}\xc3\xa4{}", "{2}{0}{1}", "{:*>3}{:.2}{}"},
                                  {"1", "a", " ", "*", "\xc3\xa4", "\xff"}, L);
    // the limits of every integer type, in every base, for every type and entry point
    if (R.group("limits")) {
        std::set<std::string> nums;
        auto put = [&](unsigned __int128 v) {
            for (int b = 2; b <= 36; ++b) {
                if (!th && b > 10 && b != 16 && b != 36) continue;
                std::string s;
                auto x = v;
                do s.insert(s.begin(), "0123456789abcdefghijklmnopqrstuvwxyz"[size_t(x % unsigned(b))]), x /= unsigned(b);
                while (x);
                nums.insert(s);
            }
        };
        for (int bits : {7, 8, 15, 16, 31, 32, 63, 64, 65})
            for (int d = -2; d <= 2; ++d) put((static_cast<unsigned __int128>(1) << bits) + static_cast<unsigned __int128>(d));
        for (auto& n : nums)
            for (auto* sign : {"", "-", "+"})
                for (auto* pre : {"", "0", "0x", "0b", "000000000000000000000000000000000000000000000000000000000000000000000"}) {
                    std::string in = sign + (pre + n);
                    if (!R.take([&] { return "limits|" + in; })) continue;
                    auto each = [&](auto zero) {
                        using T = decltype(zero);
                        for (auto* f : {"{}", "{:x}", "{:b}", "{:o}", "{:i}", "{:u}", "{:r36}", "{:r7}", "{:*>30}", "{:.12}", "{:L}"}) {
                            Exact<char> ex(in), fx{std::string(f)};
                            std::wstring w(in.begin(), in.end());
                            Exact<wchar_t> wex(w);
                            (void)scn::scan<T>(ex.view(), scn::runtime_format(fx.view()));
                            std::string ff = f;
                            (void)scn::scan<T>(wex.view(), scn::runtime_format(std::wstring(ff.begin(), ff.end())));
                            std::list<char> l(in.begin(), in.end());
                            (void)scn::scan<T>(l, scn::runtime_format(fx.view()));
                            R.calls += 3;
                        }
                        Exact<char> ex(in);
                        (void)scn::scan_value<T>(ex.view());
                        for (int b : {0, 2, 3, 8, 10, 16, 35, 36}) (void)scn::scan_int<T>(ex.view(), b);
                        R.calls += 9;
                        ++R.checks;
                    };
                    each((signed char)0), each((unsigned char)0), each(short(0)), each((unsigned short)0), each(0), each(0u);
                    each(0l), each(0ul), each(0ll), each(0ull);
                    Exact<char> ex(in);
                    (void)scn::scan<void*>(ex.view(), "{}");
                    (void)scn::scan<double>(ex.view(), "{}");
                    (void)scn::scan<float>(ex.view(), "{:a}");
                    (void)scn::scan<bool>(ex.view(), "{}");
                    (void)scn::scan<char>(ex.view(), "{:d}");
                    (void)scn::scan<wchar_t>(std::wstring(in.begin(), in.end()), L"{:d}");
                }
    }
    pads<std::string>("string", {"{}", "{:[^ ]}", "{:.20}", "{:30}", "{:*<20}"}, {"a", " ", "*", "\xc3\xa4", "\xf0\x9f\x98\x80", "\xff", "\xe2\x80"}, {"", " ", "\xc3", "\xe2\x80\xa8", "b"});
    pads<int>("int", {"{}", "{:x}", "{:*>40}", "{:.30}"}, {"0", "9", " ", "*", "\xe2\x80\xa8"}, {"", "1", "x", "\xff", "\xc2"});
    pads<double>("double", {"{}", "{:a}", "{:.30}"}, {"0", "9", " ", "a", "."}, {"", "e5", ".5", "\xff", "e"});
    return R.finish();
}
