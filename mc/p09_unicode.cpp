// P09: every Unicode scalar value and every ill-formed sequence, in every
// position where the library decodes or classifies text.
#include "model/fields.h"
#include "sources.h"
using namespace src;
using mc::Run;
using S = std::string;
using SV = std::string_view;
using W = std::wstring;
using WV = std::wstring_view;

static std::string cur;
static void cmp(const char* what, const S& text, const S& fmt, const Out& w, const Out& g)
{
    auto& R = Run::get();
    ++R.checks;
    if (R.outcomes.size() < 200000) R.outcome(g.str());
    if (w != g)
        R.fail(std::string(what) + "|" + mc::esc(fmt) + "|" + mc::esc(text), "model: " + w.str() + " scanned: " + g.str());
}
static S u8(WV w) { return txt::narrow(w); }
static Out err(int code)
{
    Out o;
    o.code = code;
    return o;
}
static Out good(S val, long n)
{
    Out o;
    o.ok = true;
    o.val = std::move(val) + ",";
    o.consumed = n;
    return o;
}

// ---- models of a whole scan with one field, on narrow and on wide text ------
template <typename C>
static Out m_word(std::basic_string_view<C> s)
{
    auto m = model::read_word<C>(s);
    if (m.code != model::OK) return err(m.code);
    return good(repr(std::basic_string<C>(s.substr(m.begin, m.end - m.begin))), long(m.end));
}
template <typename C>
static Out m_int(std::basic_string_view<C> s)
{
    size_t i = 0;
    for (auto& c : model::split(s)) {
        if (c.bad || !txt::is_space(c.cp)) break;
        i = c.pos + c.len;
    }
    if (i == s.size()) return err(model::end_of_input);
    auto m = model::read_int<C>(s.substr(i), 10, true, 0x7fffffff);
    if (m.code != model::OK) return err(m.code);
    return good(model::int_repr<int>(m), long(i + m.consumed));
}
template <typename C>
static Out m_cp(std::basic_string_view<C> s)
{
    auto v = model::split(s);
    if (v.empty()) return err(model::end_of_input);
    if (v[0].bad) return err(model::invalid_scanned_value);
    return good(repr(v[0].cp), long(v[0].len));
}
template <typename C>
static Out m_set(std::basic_string_view<C> s, const model::Set& st)
{
    auto m = model::read_set<C>(s, st);
    if (m.code != model::OK) return err(m.code);
    return good(repr(std::basic_string<C>(s.substr(0, m.end))), long(m.end));
}
// format: one literal character between 'x' and 'y'
static Out m_lit(SV s, char32_t c)
{
    auto v = model::split(s);
    size_t k = 0;
    if (k == v.size() || v[k].bad || v[k].cp != U'x') return err(model::invalid_literal);
    ++k;
    if (txt::is_space(c))
        while (k < v.size() && !v[k].bad && txt::is_space(v[k].cp)) ++k;
    else {
        if (k == v.size() || v[k].bad || v[k].cp != c) return err(model::invalid_literal);
        ++k;
    }
    if (k == v.size() || v[k].bad || v[k].cp != U'y') return err(model::invalid_literal);
    Out o = good("", long(v[k].pos + v[k].len));
    o.val = "";
    return o;
}
static Out narrow_to_wide(Out o, SV s)
{
    // the same result in wide text: positions in code points
    if (o.ok) o.consumed = long(txt::dec(s.substr(0, size_t(o.consumed)))->size());
    return o;
}
static S esc_lit(const S& e) { return e == "{" ? "{{" : e == "}" ? "}}" : e; }

template <typename... T>
static Out sv(const S& t, const S& f)
{
    Exact<char> e(t);
    return scan_sv<T...>(e.view(), f);
}
template <typename... T>
static Out wsv(const W& t, const W& f)
{
    Exact<wchar_t> e(t);
    return scan_wsv<T...>(e.view(), f);
}

static const S letters = "abcdefghijklmnopqrstuvwxyz";

static void words(const S& mid, int k, int m)
{
    S t = letters.substr(0, size_t(k)) + mid + letters.substr(10, size_t(m));
    cmp("string", t, "{}", m_word<char>(t), sv<S>(t, "{}"));
}
static void spaces(const S& mid, int k, int m)
{
    S t = S(size_t(k), ' ') + mid + S(size_t(m), ' ') + "7";
    cmp("int", t, "{}", m_int<char>(t), sv<int>(t, "{}"));
}

static void scalar(char32_t c, bool th)
{
    const S e = txt::enc8(c);
    const W w(1, wchar_t(c));
    const bool sp = txt::is_space(c);
    // as a value
    S t = e + "x";
    W wt = w + L"x";
    Out m = m_cp<char>(t);
    cmp("char32_t", t, "{}", m, sv<char32_t>(t, "{}"));
    cmp("char32_t alone", e, "{}", m_cp<char>(e), sv<char32_t>(e, "{}"));
    cmp("wide char32_t", t, "{}", m_cp<wchar_t>(wt), wsv<char32_t>(wt, L"{}"));
    cmp("wchar_t", t, "{}", good(repr(wchar_t(c)), long(e.size())), sv<wchar_t>(t, "{}"));
    cmp("wide wchar_t", t, "{}", good(repr(wchar_t(c)), 1), wsv<wchar_t>(wt, L"{}"));
    // in and around words
    for (int k = 0; k <= 8; k += th ? 1 : (k < 2 ? 1 : 3)) words(e, k, 1);
    t = "abc" + e + "de";
    wt = L"abc" + w + L"de";
    m = m_word<char>(t);
    cmp("list string", t, "{}", m, scan_list<S>(t, "{}"));
    cmp("wide wstring", t, "{}", m_word<wchar_t>(wt), wsv<W>(wt, L"{}"));
    {
        // transcoded
        Out a = m, b = m_word<wchar_t>(wt);
        if (m.ok) {
            a.val = repr(W(wt.substr(0, size_t(b.consumed)))) + ",";
            b.val = m.val;
        }
        cmp("wstring", t, "{}", a, sv<W>(t, "{}"));
        cmp("wide string", t, "{}", b, wsv<S>(wt, L"{}"));
    }
    // as whitespace before a field
    for (int k = 0; k <= 8; k += th ? 1 : 4) spaces(e, k, 0);
    wt = L" " + w + L"7";
    cmp("wide int", e, "{}", m_int<wchar_t>(wt), wsv<int>(wt, L"{}"));
    t = " " + e + "7";
    cmp("list int", t, "{}", m_int<char>(t), scan_list<int>(t, "{}"));
    // as a literal, against itself and its neighbours
    const S f = "x" + esc_lit(e) + "y";
    const W wf = *txt::to_wide(f);
    auto lit = [&](char32_t d) {
        if (d > 0x10ffff || (d >= 0xd800 && d <= 0xdfff)) return;
        S s = "x" + txt::enc8(d) + "y";
        auto ml = m_lit(s, c);
        cmp("literal", s, f, ml, sv<>(s, f));
        W ws = *txt::to_wide(s);
        cmp("wide literal", s, f, narrow_to_wide(ml, s), wsv<>(ws, wf));
    };
    lit(c);
    lit(c ^ 1);
    lit(c ^ 0x40);
    if (th) lit(c ^ 0x1000), lit(c ^ 0x20), lit(c ^ 0x10000), lit(c & 0xff), lit(c & 0x7f), lit(c & 0xffff);
    // in a set
    if (!(c < 128 && std::strchr("^]-\\:{}", int(c)) && c)) {
        model::Set st;
        st.ranges.push_back({c, c});
        t = e + e + txt::enc8(c == U'!' ? U'?' : U'!');
        cmp("set", t, "{:[" + e + "]}", m_set<char>(t, st), sv<S>(t, "{:[" + e + "]}"));
        wt = *txt::to_wide(t);
        cmp("wide set", t, "{:[" + e + "]}", m_set<wchar_t>(wt, st), wsv<W>(wt, L"{:[" + w + L"]}"));
        st.inverted = true;
        t = txt::enc8(c == U'!' ? U'?' : U'!') + "\xe4\xbd\xa1" + e;
        if (c != 0x4f61) cmp("inverted set", t, "{:[^" + e + "]}", m_set<char>(t, st), sv<S>(t, "{:[^" + e + "]}"));
        // the range that ends just here
        char32_t lo = c >= 3 ? c - 3 : 0, hi = c + 1;
        auto okc = [](char32_t d) { return d <= 0x10ffff && !(d >= 0xd800 && d <= 0xdfff); };
        if (okc(lo) && okc(hi) && !(lo < 128 && std::strchr("^]-\\:{}", int(lo)) && lo)) {
            model::Set r;
            r.ranges.push_back({lo, c});
            t = e + txt::enc8(lo) + txt::enc8(hi);
            S g = "{:[" + txt::enc8(lo) + "-" + e + "]}";
            cmp("range set", t, g, m_set<char>(t, r), sv<S>(t, g));
            wt = *txt::to_wide(t);
            cmp("wide range set", t, g, m_set<wchar_t>(wt, r), wsv<W>(wt, *txt::to_wide(g)));
        }
    }
    // as fill
    if (!(c < 128 && std::strchr("0123456789+-{}[!", int(c)) && c)) {
        t = "7" + e + e + "!";
        cmp("fill after", t, "{:" + e + "<}", good("7", long(1 + 2 * e.size())), sv<int>(t, "{:" + e + "<}"));
        t = e + e + "7!";
        cmp("fill before", t, "{:" + e + ">}", good("7", long(1 + 2 * e.size())), sv<int>(t, "{:" + e + ">}"));
        wt = w + w + L"7!";
        cmp("wide fill", t, "{:" + e + ">}", good("7", 3), wsv<int>(wt, L"{:" + w + L">}"));
    }
    // counted characters
    for (int n = 1; n <= 3; ++n) {
        t = e + "a" + e;
        auto d = *txt::dec(t);
        auto in = model::within(d, n);
        if (in.empty()) continue;
        S v;
        for (auto q : in) v += txt::enc8(q);
        S g = "{:." + std::to_string(n) + "c}";
        cmp("characters", t, g, good(repr(v), long(v.size())), sv<S>(t, g));
    }
    // its columns
    if (!sp) {
        t = "b" + e + "cde";
        auto d = *txt::dec(t);
        for (int p = 1; p <= 3; ++p) {
            auto in = model::within(d, p);
            S v;
            for (auto q : in) v += txt::enc8(q);
            S g = "{:." + std::to_string(p) + "}";
            cmp("columns", t, g, good(repr(v), long(v.size())), sv<S>(t, g));
            if (p == 2) {
                wt = *txt::to_wide(t);
                cmp("wide columns", t, g, good(repr(*txt::to_wide(v)), long(in.size())), wsv<W>(wt, L"{:.2}"));
            }
        }
    }
}

// a sequence of bytes, well-formed or not
static void bytes(const S& q, bool full)
{
    model::Set inv;
    inv.inverted = true;
    inv.ranges.push_back({U'!', U'!'});
    S t = q;
    cmp("char32_t", t, "{}", m_cp<char>(t), sv<char32_t>(t, "{}"));
    t = q + "z";
    cmp("char32_t", t, "{}", m_cp<char>(t), sv<char32_t>(t, "{}"));
    t = "a" + q + " b";
    cmp("string", t, "{}", m_word<char>(t), sv<S>(t, "{}"));
    t = " " + q + "7";
    cmp("int", t, "{}", m_int<char>(t), sv<int>(t, "{}"));
    if (!full) return;
    t = q;
    cmp("string", t, "{}", m_word<char>(t), sv<S>(t, "{}"));
    cmp("set", t, "{:[^!]}", m_set<char>(t, inv), sv<S>(t, "{:[^!]}"));
    cmp("list char32_t", t, "{}", m_cp<char>(t), scan_list<char32_t>(t, "{}"));
    cmp("list string", t, "{}", m_word<char>(t), scan_list<S>(t, "{}"));
    cmp("string_view", t, "{}", m_word<char>(t), sv<SV>(t, "{}"));
    {
        Out a = m_word<char>(t);
        if (a.ok) {
            auto m = model::read_word<char>(t);
            a.val = repr(*txt::to_wide(SV(t).substr(m.begin, m.end - m.begin))) + ",";
        }
        cmp("wstring", t, "{}", a, sv<W>(t, "{}"));
        Out b = m_cp<char>(t);
        if (b.ok) {
            char32_t c;
            txt::dec8(t, c);
            b.val = repr(wchar_t(c)) + ",";
        }
        cmp("wchar_t", t, "{}", b, sv<wchar_t>(t, "{}"));
    }
    t = q + " 7";
    cmp("list int", t, "{}", m_int<char>(t), scan_list<int>(t, "{}"));
    // whitespace and literals in the format, against it
    t = q + "y";
    {
        size_t i = 0;
        for (auto& c : model::split(SV(t))) {
            if (c.bad || !txt::is_space(c.cp)) break;
            i = c.pos + c.len;
        }
        Out o = good("", long(i + 1));
        o.val = "";
        if (t.substr(i, 1) != "y") o = err(model::invalid_literal);
        cmp("space and literal", t, " y", o, sv<>(t, " y"));
    }
    for (const char* l : {"\xe4\xbd\xa0", "\xc3\xa4", "\xf0\x9f\x98\x80"}) {
        S li = l;
        Out o = good("", long(li.size()));
        o.val = "";
        if (t.substr(0, li.size()) != li) o = err(model::invalid_literal);
        cmp("literal", t, li, o, sv<>(t, li));
    }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    std::vector<char32_t> special;
    for (char32_t c = 0; c < 0x110; ++c) special.push_back(c);
    for (char32_t c : {0x370, 0x7ff, 0x800, 0x1680, 0x180e, 0x2000, 0x200b, 0x200d, 0x200e, 0x200f, 0x2010, 0x2027, 0x2028, 0x2029, 0x202a,
                       0x202f, 0x205f, 0x2060, 0x2085, 0x20a0, 0x3000, 0x4f60, 0xa085, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x12028, 0x1f600, 0x20085,
                       0x8285, 0xa8a8, 0x9085, 0x28e2, 0xe280, 0x10ffff})
        special.push_back(c);
    if (R.group("all scalar values"))
        for (char32_t c = 0; c <= 0x10ffff; ++c) {
            if (c >= 0xd800 && c <= 0xdfff) continue;
            if (!R.take([&] { return "U+" + std::to_string(unsigned(c)); })) continue;
            scalar(c, true);
        }
    // every offset, every distance to the end of the text
    if (R.group("offsets"))
        for (char32_t c : special)
            for (int k = 0; k <= (th ? 26 : 17); ++k)
                for (int m = 0; m <= (th ? 16 : 9); ++m) {
                    if (!R.take([&] { return "U+" + std::to_string(unsigned(c)) + " at " + std::to_string(k) + " before " + std::to_string(m); })) continue;
                    const S e = txt::enc8(c);
                    words(e, k, m);
                    spaces(e, k, m);
                    S t = letters.substr(0, size_t(k)) + e + letters.substr(10, size_t(m));
                    auto w = m_word<char>(t);
                    cmp("file", t, "{}", w, scan_file<S>(t, "{}", ~0ull));
                    if (k < 60) cmp("file cut", t, "{}", w, scan_file<S>(t, "{}", 1ull << k));
                    cmp("file cut after", t, "{}", w, scan_file<S>(t, "{}", 2ull << k));
                    S t2 = S(size_t(k), '\n') + e + S(size_t(m), '\t') + "7";
                    cmp("file int", t2, "{}", m_int<char>(t2), scan_file<int>(t2, "{}", 1ull << k));
                    // two of them
                    for (char32_t d : {U'\n', U'\x2028', U'\x85', U'\xe4', U'\x1f600', U'a'}) {
                        S t3 = letters.substr(0, size_t(k)) + e + letters.substr(10, size_t(m)) + txt::enc8(d) + "q";
                        cmp("string", t3, "{}", m_word<char>(t3), sv<S>(t3, "{}"));
                        S t4 = S(size_t(k), ' ') + e + S(size_t(m), ' ') + txt::enc8(d) + "7";
                        cmp("int", t4, "{}", m_int<char>(t4), sv<int>(t4, "{}"));
                    }
                }
    if (R.group("one byte at every offset"))
        for (int b = 0; b < 256; ++b)
            for (int k = 0; k <= 17; ++k)
                for (int m = 0; m <= 9; ++m) {
                    if (!R.take([&] { return "byte " + std::to_string(b) + " at " + std::to_string(k) + " before " + std::to_string(m); })) continue;
                    words(S(1, char(b)), k, m);
                    spaces(S(1, char(b)), k, m);
                }
    if (R.group("one and two bytes"))
        for (int a = 0; a < 256; ++a) {
            if (R.take([&] { return "byte " + std::to_string(a); })) bytes(S(1, char(a)), true);
            for (int b = 0; b < 256; ++b)
                if (R.take([&] { return "bytes " + std::to_string(a) + " " + std::to_string(b); })) {
                    char q[] = {char(a), char(b)};
                    bytes(S(q, 2), true);
                }
        }
    const std::vector<int> rep = {0x00, 0x20, 0x31, 0x61, 0x7f, 0x80, 0x85, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xbf, 0xc0, 0xc2, 0xe0, 0xe2, 0xed, 0xf0, 0xf4, 0xff};
    std::vector<int> all;
    for (int i = 0; i < 256; ++i) all.push_back(i);
    if (R.group("three bytes"))
        for (int a = th ? 0 : 0xc0; a < 256; ++a)
            for (int b : all)
                for (int c : all)
                    if (R.take([&] { return "bytes " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c); })) {
                        char q[] = {char(a), char(b), char(c)};
                        bytes(S(q, 3), std::find(rep.begin(), rep.end(), c) != rep.end());
                    }
    if (R.group("four bytes"))
        for (int a = 0xe0; a < 256; ++a)
            for (int b : all)
                for (int c : th ? all : rep)
                    for (int d : rep) {
                        if (a < 0xf0 && !th) continue;
                        if (R.take([&] { return "bytes " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + std::to_string(d); })) {
                            char q[] = {char(a), char(b), char(c), char(d)};
                            bytes(S(q, 4), th && c % 5 == 0);
                        }
                    }
    // wide text that is no text
    if (R.group("wide ill-formed")) {
        std::vector<uint32_t> bad;
        for (uint32_t c = 0xd800; c <= 0xdfff; ++c) bad.push_back(c);
        for (uint32_t c : {0x110000u, 0x110001u, 0x11ffffu, 0x120028u, 0x200000u, 0x7fffffffu, 0x80000000u, 0x80000020u, 0x80000061u, 0xffffffffu, 0xffffff85u, 0x1000020u, 0x112028u}) bad.push_back(c);
        for (uint32_t c : bad)
            for (int k = 0; k <= 3; ++k)
                for (int m = 0; m <= 2; ++m) {
                    if (!R.take([&] { return "wide " + std::to_string(c) + " at " + std::to_string(k); })) continue;
                    W t = W(L"abc").substr(0, size_t(k)) + W(1, wchar_t(c)) + W(L"de").substr(0, size_t(m));
                    S show = std::to_string(c) + " at " + std::to_string(k) + "," + std::to_string(m);
                    cmp("wide wstring", show, "{}", m_word<wchar_t>(t), wsv<W>(t, L"{}"));
                    cmp("wide wstring_view", show, "{}", m_word<wchar_t>(t), wsv<WV>(t, L"{}"));
                    Out o = m_word<wchar_t>(t);
                    if (o.ok) o.val = "?";
                    cmp("wide string", show, "{}", o, wsv<S>(t, L"{}"));
                    if (k == 0) {
                        cmp("wide char32_t", show, "{}", m_cp<wchar_t>(t), wsv<char32_t>(t, L"{}"));
                    }
                    W u = W(size_t(k), L' ') + W(1, wchar_t(c)) + L"7";
                    cmp("wide int", show, "{}", m_int<wchar_t>(u), wsv<int>(u, L"{}"));
                    model::Set inv;
                    inv.inverted = true;
                    inv.ranges.push_back({U'!', U'!'});
                    cmp("wide set", show, "{:[^!]}", m_set<wchar_t>(t, inv), wsv<W>(t, L"{:[^!]}"));
                    cmp("wide literal", show, "abc!", err(model::invalid_literal), wsv<>(t, L"abc!"));
                }
    }
    return R.finish();
}
