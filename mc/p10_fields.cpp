// P10: width, precision, fill and alignment, against a column-level model.
#include "model/fields.h"
#include "sources.h"
using namespace src;
using mc::Run;
using model::Field;
using model::Val;
using Toks = std::vector<std::string>;
using U32 = std::u32string_view;

static const int UNDECIDED = 99;
struct Kind {
    std::string name;
    std::string type;  // presentation
    bool skips_ws;
    std::function<Val(U32, const Field&)> value;
    std::function<Out(std::string_view, std::string_view, int)> run;
    std::function<Out(std::wstring_view, std::wstring_view)> wide;
    Toks alpha;
};

template <typename T>
static Out run_narrow(std::string_view in, std::string_view fmt, int how)
{
    if (how == 0) {
        Exact<char> ex(in);
        return scan_sv<T>(ex.view(), fmt);
    }
    if constexpr (!std::is_same_v<T, std::string_view>) {
        if (how == 1) return scan_list<T>(in, fmt);
        Out o = scan_file<T>(in, fmt, how == 2 ? 0 : how == 3 ? 0x5555555555 : 0x924924924924);
        if (!o.ok) o.consumed = 0;
        return o;
    }
    return {};
}
template <typename T>
static Out run_wide(std::wstring_view in, std::wstring_view fmt)
{
    Exact<wchar_t> ex(in);
    return scan_wsv<T>(ex.view(), fmt);
}

template <typename T>
static Val int_value(U32 s, int base)
{
    Val v;
    auto t = model::u8(s);
    auto m = model::read_int<char>(t, base, std::is_signed_v<T>,
                                   (unsigned long long)std::numeric_limits<T>::max(), true);
    v.code = m.code;
    if (v.code == model::OK) {
        v.repr = model::int_repr<T>(m);
        v.n = m.consumed;
    }
    return v;
}
static Val dbl_value(U32 s)
{
    Val v;
    auto t = model::u8(s);
    if (t.empty()) {
        v.code = model::end_of_input;
        return v;
    }
    auto m = model::read_float(t, model::fopt('0'));
    double d{};
    v.code = model::float_value<double>(m, d);
    v.repr = repr(d);
    v.n = m.consumed;
    return v;
}
static Val text_of(U32 s, size_t n)
{
    Val v;
    v.n = n;
    v.repr = repr(model::u8(s.substr(0, n)));
    return v;
}
// a word where the reader stands: up to whitespace, or up to the fill
// if that is expected behind the value; with an alignment it may be empty
static Val word_value(U32 s, const Field& f)
{
    size_t n = 0;
    bool to_fill = f.align == '<' || f.align == '^';
    while (n < s.size() && !(to_fill ? s[n] == f.fill : txt::is_space(s[n]))) ++n;
    Val v = text_of(s, n);
    if (!n && !f.align) v.code = s.empty() ? model::end_of_input : model::invalid_scanned_value;
    return v;
}
static Val bool_value(U32 s)
{
    Val v;
    auto t = model::u8(s);
    for (auto& [lit, b] : std::vector<std::pair<std::string, bool>>{{"0", false}, {"1", true}, {"true", true}, {"false", false}})
        if (t.substr(0, lit.size()) == lit) {
            v.n = lit.size();
            v.repr = repr(b);
            return v;
        }
    v.code = model::invalid_scanned_value;
    return v;
}

static std::vector<Kind> kinds()
{
    std::vector<Kind> k;
    k.push_back({"int", "", true, [](U32 s, const Field&) { return int_value<int>(s, 10); }, run_narrow<int>, run_wide<int>, {"1", "2", "-", " ", "\xe4\xbd\xa0"}});
    k.push_back({"unsigned", "x", true, [](U32 s, const Field&) { return int_value<unsigned>(s, 16); }, run_narrow<unsigned>, run_wide<unsigned>, {"0", "x", "a", " ", "\xe2\x80\xa8"}});
    k.push_back({"double", "", true, [](U32 s, const Field&) { return dbl_value(s); }, run_narrow<double>, run_wide<double>, {"1", ".", "e", " ", "-"}});
    k.push_back({"string", "", true, [](U32 s, const Field& f) { return word_value(s, f); }, run_narrow<std::string>, nullptr, {"a", " ", "\n", "\xe4\xbd\xa0", "\xc3\xa4"}});
    k.push_back({"string", "s", true, [](U32 s, const Field& f) { return word_value(s, f); }, run_narrow<std::string>, nullptr, {"a", " ", "\xc2\x85", "\xf0\x9f\x98\x80", "\xc3\xa4"}});
    k.push_back({"string_view", "", true, [](U32 s, const Field& f) { return word_value(s, f); }, run_narrow<std::string_view>, nullptr, {"a", " ", "\xe2\x80\xa9", "\xe4\xbd\xa0", "\xc3\xa4"}});
    k.push_back({"string", "[a\xe4\xbd\xa0]", false, [](U32 s, const Field&) {
                     size_t n = 0;
                     while (n < s.size() && (s[n] == U'a' || s[n] == U'\u4f60')) ++n;
                     Val v = text_of(s, n);
                     if (!n) v.code = model::invalid_scanned_value;
                     return v;
                 }, run_narrow<std::string>, nullptr, {"a", "b", " ", "\xe4\xbd\xa0", "\n"}});
    k.push_back({"string", "c", false, [](U32 s, const Field&) { return text_of(s, s.size()); }, run_narrow<std::string>, nullptr, {"a", " ", "\n", "\xe4\xbd\xa0", "\xc3\xa4"}});
    k.push_back({"char", "", false, [](U32 s, const Field&) {
                     Val v;
                     if (s.empty()) v.code = model::end_of_input;
                     else if (s[0] > 127) v.code = UNDECIDED;  // a part of a character: P13
                     else v.n = 1, v.repr = repr(char(s[0]));
                     return v;
                 }, run_narrow<char>, nullptr, {"a", "b", " ", "\n", "\xe4\xbd\xa0"}});
    k.push_back({"char32_t", "", false, [](U32 s, const Field&) {
                     Val v;
                     if (s.empty()) v.code = model::end_of_input;
                     else v.n = 1, v.repr = repr(s[0]);
                     return v;
                 }, run_narrow<char32_t>, run_wide<char32_t>, {"a", "\xc3\xa4", " ", "\n", "\xe4\xbd\xa0"}});
    k.push_back({"bool", "", true, [](U32 s, const Field&) { return bool_value(s); }, run_narrow<bool>, run_wide<bool>, {"1", "0", "true", " ", "f"}});
    return k;
}

static std::string format_of(const Kind& k, const Field& f, bool fill_given)
{
    std::string s = "{:";
    if (f.align) {
        if (fill_given) s += txt::enc8(f.fill);
        s += f.align;
    }
    if (f.width) s += std::to_string(f.width);
    if (f.precision) s += "." + std::to_string(f.precision);
    return s + k.type + "}";
}

static void one(const Kind& k, const Field& f0, bool fg, const std::string& in, unsigned hows)
{
    auto& R = Run::get();
    Field f = f0;
    f.skips_ws = k.skips_ws;
    auto key = [&](const std::string& w) { return k.name + "|" + mc::esc(format_of(k, f, fg)) + "|" + w + "|" + mc::esc(in); };
    if (!R.take([&] { return key(""); })) return;
    std::string fmt = format_of(k, f, fg);
    auto d = *txt::dec(in);
    Val v = model::read_field(d, f, [&](U32 s) { return k.value(s, f); });
    if (v.code == UNDECIDED) return;
    Out w;
    w.ok = v.code == model::OK;
    w.code = v.code;
    if (w.ok) {
        w.val = v.repr + ",";
        w.consumed = txt::bytes_of(in, long(v.n));
    }
    R.outcome(w.str());
    static const char* hn[] = {"view", "list", "FILE", "FILE split", "FILE split 3"};
    for (int h = 0; h < 5; ++h) {
        if (!((hows >> h) & 1)) continue;
        if (h && k.name == "string_view") continue;
        Out g = k.run(in, fmt, h);
        ++R.checks;
        if (w != g) R.fail(key(hn[h]), "model: " + w.str() + " scanned: " + g.str());
    }
    if (k.wide) {
        Out g = k.wide(*txt::to_wide(in), *txt::to_wide(fmt));
        if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
        ++R.checks;
        if (w != g) R.fail(key("wide"), "model: " + w.str() + " scanned: " + g.str());
    }
    else if (k.name == "string") {
        Out g = run_wide<std::string>(*txt::to_wide(in), *txt::to_wide(fmt));
        if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
        ++R.checks;
        if (w != g) R.fail(key("wide"), "model: " + w.str() + " scanned: " + g.str());
    }
}

struct Al {
    char align;
    bool given;
    char32_t fill;
};
static std::vector<Al> aligns(std::initializer_list<char32_t> fills)
{
    std::vector<Al> v = {{0, false, U' '}};
    for (char a : {'<', '>', '^'}) {
        v.push_back({a, false, U' '});
        for (auto c : fills) v.push_back({a, true, c});
    }
    return v;
}

// one code point against its columns
static void column(char32_t c)
{
    auto& R = Run::get();
    if (!R.take([&] { return "columns of U+" + std::to_string(unsigned(c)); })) return;
    std::string in = txt::enc8(c) + "bc";
    std::wstring wi = *txt::to_wide(in);
    int w = model::columns(c);
    size_t cl = txt::enc8(c).size();
    auto chk = [&](const char* fmt, bool ok, size_t bytes) {
        std::string wf(fmt);
        Out x;
        x.ok = ok;
        x.code = model::length_too_short;
        x.val = repr(in.substr(0, bytes)) + ",";
        x.consumed = ok ? long(bytes) : 0;
        Out g = scan_sv<std::string>(in, fmt);
        ++R.checks;
        if (x != g) R.fail("columns|" + std::to_string(unsigned(c)) + "|" + fmt, "model: " + x.str() + " scanned: " + g.str());
        g = scan_wsv<std::string>(wi, std::wstring(wf.begin(), wf.end()));
        if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
        ++R.checks;
        if (x != g) R.fail("columns|wide|" + std::to_string(unsigned(c)) + "|" + fmt, "model: " + x.str() + " scanned: " + g.str());
    };
    if (txt::is_space(c)) return;
    chk("{:.2c}", true, w == 2 ? cl : cl + 1);
    chk("{:.3}", true, w == 2 ? cl + 1 : cl + 2);
    chk("{:3.9}", true, cl + 2);
    chk("{:4}", w == 2, cl + 2);
    chk("{:.2}", true, w == 2 ? cl : cl + 1);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    auto ks = kinds();

    for (auto& k : ks) {
        if (!R.group("texts " + k.name + " " + k.type)) continue;
        std::vector<Al> al = aligns({U'*', U'1', U'\u4f60', U'\u00e4', U'a'});
        std::vector<int> ws = {0, 1, 2, 3, 4}, ps = {0, 1, 2, 3, 4};
        if (th) ws.push_back(5), ps.push_back(5), ws.push_back(6);
        for (auto& a : al) {
            Toks alpha = k.alpha;
            auto fs = txt::enc8(a.fill);
            if (std::find(alpha.begin(), alpha.end(), fs) == alpha.end()) alpha.push_back(fs);
            for (int w : ws)
                for (int p : ps) {
                    if (k.type == "c" && !p) continue;
                    Field f;
                    f.align = a.align;
                    f.fill = a.fill;
                    f.width = w;
                    f.precision = p;
                    mc::for_strings(alpha, 0, th ? 5 : 4, [&](const std::string& in) {
                        one(k, f, a.given, in, in.size() <= 5 ? 0x1f : 0x3);
                    });
                }
        }
    }
    // runs of fill, value, fill, tail with all limits around their lengths
    for (auto& k : ks) {
        if (!R.group("runs " + k.name + " " + k.type)) continue;
        const int N = th ? 5 : 3, W = th ? 13 : 10;
        for (auto& a : aligns({U'*', U'_', U'\u20ac', U'\u5b57', U'\U0001f600', U'-', U'0'})) {
            auto fs = txt::enc8(a.fill);
            for (int i = 0; i <= N; ++i)
                for (auto& v : k.name == "double" ? Toks{"12", "1.5e3"} : k.name == "bool" ? Toks{"1", "true", "false"} : k.name == "unsigned" ? Toks{"0x1f", "ff"} : k.name == "int" ? Toks{"-12", "3"} : k.type == "" && k.name != "char" && k.name != "char32_t" ? Toks{"ab\xe4\xbd\xa0", "\xc3\xa4"} : Toks{"aa", "a\xe4\xbd\xa0"})
                    for (int j = 0; j <= N; ++j)
                        for (const char* tail : {"", "z", " ", "\xe4\xbd\xa0"}) {
                            std::string in;
                            for (int q = 0; q < i; ++q) in += fs;
                            in += v;
                            for (int q = 0; q < j; ++q) in += fs;
                            in += tail;
                            for (int w = 0; w <= W; ++w)
                                for (int p = 0; p <= W; ++p) {
                                    if (k.type == "c" && !p) continue;
                                    Field f;
                                    f.align = a.align;
                                    f.fill = a.fill;
                                    f.width = w;
                                    f.precision = p;
                                    one(k, f, a.given, in, (w + p) % 4 == 0 ? 0x7 : 0x3);
                                }
                        }
        }
    }
    // every code point's columns, and every kind of code point as fill
    if (R.group("columns"))
        for (char32_t c = 1; c <= 0x10ffff; ++c) {
            if (c >= 0xd800 && c <= 0xdfff) continue;
            column(c);
        }
    if (R.group("fills")) {
        std::vector<char32_t> cps;
        for (char32_t c = 1; c < 0x180; ++c) cps.push_back(c);
        for (char32_t c : {0x7ff, 0x800, 0x85, 0x10ff, 0x1100, 0x115f, 0x1160, 0x200b, 0x2028, 0x2029, 0x202a, 0x2329, 0x3000, 0x303f, 0x4f60, 0xac00, 0xd7ff, 0xe000, 0xff01, 0xfffd, 0xffff, 0x10000, 0x1f300, 0x1f600, 0x1f64f, 0x1f650, 0x1f900, 0x20000, 0x2fffd, 0x30000, 0x10ffff})
            cps.push_back(c);
        for (auto c : cps)
            for (char a : {'<', '>', '^'})
                for (int w : {0, 3, 6})
                    for (int p : {0, 3, 6})
                        for (int i = 0; i <= 3; ++i)
                            for (int j = 0; j <= 2; ++j)
                                for (const char* tail : {"", "a"}) {
                                    if (c == '{' || c == '}' || c == '[') continue;
                                    if (c == '7' || c == '-' || c == '+') continue;
                                    std::string in, fs = txt::enc8(c);
                                    for (int q = 0; q < i; ++q) in += fs;
                                    in += "7";
                                    for (int q = 0; q < j; ++q) in += fs;
                                    in += tail;
                                    Field f;
                                    f.align = a;
                                    f.fill = c;
                                    f.width = w;
                                    f.precision = p;
                                    one(ks[0], f, true, in, 0x7);
                                    one(ks[3], f, true, in, 0x7);
                                }
    }
    // large numbers
    if (R.group("large"))
        for (int n : {7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257})
            for (int dw = -2; dw <= 2; ++dw)
                for (int dp = -2; dp <= 2; ++dp)
                    for (auto& k : ks)
                        for (auto& a : aligns({U'*', U'\u4f60'}))
                            for (int shape = 0; shape < 4; ++shape) {
                                if (k.name == "double" || k.name == "int" || k.name == "unsigned" || k.name == "bool")
                                    if (shape >= 2) continue;
                                std::string in, fs = txt::enc8(a.fill);
                                const char* val = k.alpha[0].c_str();
                                auto rep = [&](const std::string& s, int m) { for (int q = 0; q < m; ++q) in += s; };
                                if (shape == 0) rep(fs, n), in += val, rep(fs, 3);
                                else if (shape == 1) in += val, rep(fs, n), in += val;
                                else if (shape == 2) rep(val, n), rep(fs, 2);
                                else rep("\xe4\xbd\xa0", n / 2), rep(val, n - n / 2);
                                Field f;
                                f.align = a.align;
                                f.fill = a.fill;
                                f.width = n + dw;
                                f.precision = n + dp;
                                one(k, f, a.given, in, 0x3);
                                f.width = 0;
                                one(k, f, a.given, in, 0x3);
                                f.width = n + dw;
                                f.precision = 0;
                                if (k.type != "c") one(k, f, a.given, in, 0x3);
                            }
    return R.finish();
}
