// P13: booleans, characters and pointers against a model.
#include "model/strings.h"
#include "sources.h"
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

struct Want {
    int code = model::OK;
    std::string val;
    size_t end = 0;
};
static Out to_out(const Want& w)
{
    Out o;
    o.ok = w.code == model::OK;
    o.code = w.code;
    o.val = w.val + ",";
    o.consumed = o.ok ? long(w.end) : 0;
    return o;
}
static void cmp(const std::string& key, const Out& w, const Out& g)
{
    ++Run::get().checks;
    if (w != g) Run::get().fail(key, "model: " + w.str() + " scanned: " + g.str());
}

// narrow sources of every kind, and the wide text if it exists
template <typename T>
static void sources(const std::string& what, const std::string& in, const std::string& fmt, const Want& want, const Want* wide, bool all = true)
{
    auto& R = Run::get();
    auto key = [&](const char* s) { return what + "|" + fmt + "|" + s + "|" + mc::esc(in); };
    Out w = to_out(want);
    R.outcome(what + w.str());
    {
        Exact<char> ex(in);
        cmp(key("view"), w, scan_sv<T>(ex.view(), fmt));
    }
    if (all) {
        cmp(key("list"), w, scan_list<T>(in, fmt));
        for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0xaaaa)}) {
            Out g = scan_file<T>(in, fmt, cuts);
            if (!g.ok) g.consumed = 0;
            cmp(key("FILE"), w, g);
        }
    }
    if constexpr (!std::is_same_v<T, char>) {
        if (!wide) return;
        auto wi = txt::to_wide(in);
        if (!wi) return;
        Exact<wchar_t> wex(*wi);
        cmp(key("wide"), to_out(*wide), scan_wsv<T>(wex.view(), std::wstring(fmt.begin(), fmt.end())));
        if (all) cmp(key("wide deque"), to_out(*wide), scan_wdeque<T>(*wi, std::wstring(fmt.begin(), fmt.end())));
    }
}

template <typename CharT>
static Want want_bool(std::basic_string_view<CharT> s, char pres)
{
    Want w;
    size_t i = model::skip_ws(s);
    if (i == s.size()) {
        w.code = model::end_of_input;
        return w;
    }
    auto lit = [&](const char* l) {
        size_t n = std::strlen(l);
        if (s.size() - i < n) return false;
        for (size_t k = 0; k < n; ++k)
            if (s[i + k] != CharT(l[k])) return false;
        w.end = i + n;
        return true;
    };
    if (pres != 's') {
        if (lit("0")) { w.val = "false"; return w; }
        if (lit("1")) { w.val = "true"; return w; }
    }
    if (pres == 's' || pres == 0) {
        if (lit("false")) { w.val = "false"; return w; }
        if (lit("true")) { w.val = "true"; return w; }
    }
    w.code = model::invalid_scanned_value;
    return w;
}
static const char bool_pres[] = {0, 's', 'i', 'd', 'u', 'x', 'o', 'b'};
static void bools(const std::string& in)
{
    auto& R = Run::get();
    for (char p : bool_pres) {
        if (!R.take([&] { return "bool " + std::string(1, p ? p : '-') + " \"" + mc::esc(in) + "\""; })) continue;
        std::string fmt = p ? std::string("{:") + p + "}" : "{}";
        auto wi = txt::to_wide(in);
        Want n = want_bool<char>(in, p), w;
        if (wi) w = want_bool<wchar_t>(*wi, p);
        sources<bool>("bool", in, fmt, n, &w, in.size() < 12);
    }
}

template <typename T, typename CharT>
static Want want_int(std::basic_string_view<CharT> s, int base, bool neg_ok)
{
    Want w;
    size_t i = model::skip_ws(s);
    if (i == s.size()) {
        w.code = model::end_of_input;
        return w;
    }
    auto m = model::read_int<CharT>(s.substr(i), base, neg_ok, (unsigned long long)std::numeric_limits<T>::max(), true);
    w.code = m.code;
    if (w.code == model::OK) {
        w.val = model::int_repr<T>(m);
        w.end = i + m.consumed;
    }
    return w;
}
// char and wchar_t with an integer presentation
static void char_ints(const std::string& in)
{
    auto& R = Run::get();
    struct P { const char* p; int base; };
    for (auto [p, base] : {P{"d", 10}, P{"i", 0}, P{"u", 10}, P{"x", 16}, P{"o", 8}, P{"b", 2}}) {
        if (!R.take([&] { return std::string("char ints ") + p + " \"" + mc::esc(in) + "\""; })) continue;
        std::string fmt = std::string("{:") + p + "}";
        auto wi = txt::to_wide(in);
        Want n = want_int<signed char, char>(in, base, *p != 'u');
        sources<char>("char", in, fmt, n, nullptr);
        Want w;
        if (wi) w = want_int<int, wchar_t>(*wi, base, *p != 'u');
        sources<wchar_t>("wchar_t", in, fmt, want_int<int, char>(in, base, *p != 'u'), &w);
    }
}
static std::string ptr_repr(unsigned long long v)
{
    return repr(reinterpret_cast<void*>(uintptr_t(v)));
}
template <typename CharT>
static Want want_ptr(std::basic_string_view<CharT> s)
{
    Want w;
    size_t i = model::skip_ws(s);
    if (i == s.size()) {
        w.code = model::end_of_input;
        return w;
    }
    auto m = model::read_int<CharT>(s.substr(i), 16, false, ~0ull, true);
    w.code = m.code;
    if (w.code == model::OK) {
        w.val = ptr_repr((unsigned long long)m.mag);
        w.end = i + m.consumed;
    }
    return w;
}
static void pointers(const std::string& in, bool all = true)
{
    auto& R = Run::get();
    for (const char* fmt : {"{}", "{:p}", "{:}"}) {
        if (!R.take([&] { return std::string("pointer ") + fmt + " \"" + mc::esc(in) + "\""; })) continue;
        auto wi = txt::to_wide(in);
        Want n = want_ptr<char>(in), w;
        if (wi) w = want_ptr<wchar_t>(*wi);
        sources<void*>("void*", in, fmt, n, &w, all);
        if (*(fmt + 1) == '}') sources<const void*>("const void*", in, fmt, n, &w, false);
    }
}
// single characters
static void chars(const std::string& in, bool all)
{
    auto& R = Run::get();
    if (!R.take([&] { return "chars \"" + mc::esc(in) + "\""; })) return;
    for (const char* fmt : {"{}", "{:c}", "{:}"}) {
        Want w;
        if (in.empty()) w.code = model::end_of_input;
        else w.val = repr(in[0]), w.end = 1;
        sources<char>("char", in, fmt, w, nullptr, all);
        Want n, x;
        char32_t c{};
        int l = txt::dec8(in, c);
        if (in.empty()) n.code = model::end_of_input;
        else if (!l) n.code = model::invalid_scanned_value;
        else n.val = repr(c), n.end = size_t(l);
        x = n;
        if (x.code == model::OK) x.end = 1;
        sources<char32_t>("char32_t", in, fmt, n, &x, all);
        sources<wchar_t>("wchar_t", in, fmt, n, &x, all);
    }
}
static void wchars(const std::wstring& in)
{
    auto& R = Run::get();
    if (!R.take([&] { return "wchars \"" + mc::esc(std::wstring_view(in)) + "\""; })) return;
    for (const wchar_t* fmt : {L"{}", L"{:c}"}) {
        Want w, c;
        if (in.empty()) w.code = c.code = model::end_of_input;
        else {
            w.val = repr(in[0]), w.end = 1;
            auto u = char32_t(in[0]);
            if (u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) c.code = model::invalid_scanned_value;
            else c.val = repr(u), c.end = 1;
        }
        Exact<wchar_t> ex(in);
        auto k = [&](const char* t) { return std::string(t) + "|wide only|" + mc::esc(std::wstring_view(in)); };
        cmp(k("wchar_t"), to_out(w), scan_wsv<wchar_t>(ex.view(), fmt));
        cmp(k("char32_t"), to_out(c), scan_wsv<char32_t>(ex.view(), fmt));
        cmp(k("wchar_t deque"), to_out(w), scan_wdeque<wchar_t>(in, fmt));
        cmp(k("char32_t deque"), to_out(c), scan_wdeque<char32_t>(in, fmt));
    }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;

    if (R.group("bool texts"))
        mc::for_strings({"t", "r", "u", "e", "f", "a", "l", "s", "0", "1", " ", "T"}, 0, th ? 5 : 4, bools);
    if (R.group("bool words"))
        mc::for_strings({"true", "false", "tru", "fals", "TRUE", "False", "0", "1", "2", "-", "+", " ", "\n", "\xe2\x80\xa8", "e", ",", "x", "\xc3\xa4", "\xff"}, 0, th ? 5 : 4, bools);
    if (R.group("bool mutations"))
        for (std::string base : {"true", "false", " true", "\ttrue ", "1", "0", " 1", "true1", "falsefalse"})
            for (size_t pos = 0; pos <= base.size(); ++pos)
                for (int c = 0; c < 256; ++c) {
                    std::string s = base;
                    s.insert(pos, 1, char(c));
                    bools(s);
                    if (pos < base.size()) {
                        s = base;
                        s[pos] = char(c);
                        bools(s);
                        s.resize(pos + 1);
                        bools(s);
                        bools(base.substr(0, pos));
                    }
                }
    if (R.group("bool lookalikes"))
        for (std::string base : {"true", "false", " true", "1", "0", "true ", " 1"})
            for (size_t pos = 0; pos < base.size(); ++pos)
                for (char32_t page : {0x100, 0x200, 0x1000, 0x2000, 0xff00, 0x1d700, 0x10ff00}) {
                    bools(base.substr(0, pos) + txt::alike(base[pos], page) + base.substr(pos + 1));
                    bools(base.substr(0, pos) + txt::alike(base[pos], page));
                    bools(base.substr(0, pos) + txt::alike(base[pos], page) + base.substr(pos));
                }
    if (R.group("lookalikes")) {
        Toks alpha = {"1", "0", "f", "x", " "};
        for (char c : {'1', '0', 'x', 'f', '-', '+', ' '}) alpha.push_back(txt::alike(c));
        for (const char* c : {"\xd9\xa1", "\xef\xbc\x91", "\xf0\x9d\x9f\x8f", "\xe2\x88\x92"}) alpha.push_back(c);
        mc::for_strings(alpha, 1, th ? 4 : 3, [](const std::string& s) { pointers(s); });
        mc::for_strings(alpha, 1, th ? 4 : 3, char_ints);
    }
    if (R.group("bool offsets"))
        for (int n = 0; n <= 40; ++n)
            for (const char* w : {" ", "\n", "\xe2\x80\xa8", "\xc2\x85"})
                for (const char* v : {"true", "false", "0", "1", "tru", "", "\xc2\xa0true"}) {
                    std::string s;
                    for (int k = 0; k < n; ++k) s += w;
                    bools(s + v);
                }
    if (R.group("char integers")) {
        mc::for_strings({"0", "1", "7", "2", "8", "9", "-", "+", " ", "x", "b", "o", "f", "A"}, 0, th ? 5 : 4, char_ints);
        for (int v = -1100; v <= 1100; ++v)
            for (const char* pre : {"", " ", "00", "+"})
                for (int base : {10, 16, 8, 2}) {
                    std::string d;
                    for (int m = v < 0 ? -v : v; m || d.empty(); m /= base) d.insert(d.begin(), "0123456789abcdef"[m % base]);
                    char_ints((v < 0 ? "-" : "") + std::string(pre) + d);
                }
        for (long long c : {1ll << 7, 1ll << 8, 1ll << 15, 1ll << 16, 1ll << 31, 1ll << 32, 1ll << 62})
            for (long long d = -3; d <= 3; ++d) {
                char_ints(std::to_string(c + d));
                char_ints(std::to_string(-c + d));
            }
    }
    if (R.group("pointers")) {
        mc::for_strings({"0", "x", "X", "f", "A", "1", "g", "-", "+", " ", "0x", "nil"}, 0, th ? 5 : 4, [](const std::string& s) { pointers(s); });
        for (int k = 0; k <= 70; ++k)
            for (int d = -2; d <= 2; ++d)
                for (const char* pre : {"", "0x", "0X", "0x0", "00000000000000000000", "-", "+0x", " 0x"}) {
                    auto v = ((unsigned __int128)1 << k) + (unsigned __int128)(d + 4) - 4;
                    std::string s;
                    bool up = k & 1;
                    for (auto m = v & (((unsigned __int128)1 << 80) - 1); m || s.empty(); m >>= 4) s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[int(m & 15)]);
                    pointers(pre + s);
                    pointers(pre + s + "g");
                }
        for (int len = 1; len <= 20; ++len)
            for (int pos = 0; pos < len; ++pos)
                for (int d = 0; d < 256; ++d) {
                    std::string s(size_t(len), '7');
                    s[size_t(pos)] = char(d);
                    pointers("0x" + s, false);
                }
    }
    if (R.group("chars")) {
        chars("", true);
        for (int a = 0; a < 256; ++a) {
            chars(std::string(1, char(a)), true);
            for (int b = 0; b < 256; ++b) chars({char(a), char(b)}, true);
        }
        mc::for_strings({"a", " ", "\n", "\xc3\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xf0", "\x9f", "\xe4", "\xbd", "\xc0", "\xff", "{", "\xed\xa0\x80", "\xf4\x90\x80\x80"}, 0, th ? 4 : 3,
                        [](const std::string& s) { chars(s, true); });
    }
    if (R.group("code points"))
        for (char32_t c = 0; c <= 0x10ffff; ++c) {
            if (c >= 0xd800 && c <= 0xdfff) continue;
            if (!th && c > 0x3000 && c < 0x10fff0 && (c & 0x3f) > 1 && (c & 0x3f) < 0x3e) continue;
            chars(txt::enc8(c) + "b", (c & 0xff) < 2);
        }
    if (R.group("wide chars")) {
        std::vector<unsigned> vals = {0, 1, 9, 10, 32, 65, 127, 128, 0x85, 0xff, 0x2028, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff};
        wchars(L"");
        for (auto a : vals) {
            wchars(std::wstring(1, wchar_t(a)));
            for (auto b : vals) wchars({wchar_t(a), wchar_t(b)});
        }
    }
    return R.finish();
}
