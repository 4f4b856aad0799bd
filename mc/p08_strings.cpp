// P08: string conversions against a character-level model.
#include "model/strings.h"
#include "sources.h"
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

static std::string wide_of(std::string_view s)
{
    auto w = txt::to_wide(s);
    return w ? repr(*w) : "?";
}

template <typename T, typename CharT>
Out run(std::basic_string_view<CharT> in, std::basic_string_view<CharT> fmt, const CharT*& data)
{
    Out o;
    auto r = scn::scan<T>(in, scn::runtime_format(fmt));
    ++Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        bool inside = rg.end() == in.end() && rg.size() <= in.size();
        o.consumed = inside ? long(in.size() - rg.size()) : -1;
        if constexpr (std::is_same_v<T, std::basic_string_view<CharT>>) data = r->value().data();
    }
    else
        o.code = r.error().code();
    return o;
}

static void cmp(const std::string& key, const Out& w, const Out& g)
{
    ++Run::get().checks;
    if (w != g) Run::get().fail(key, "model: " + w.str() + " scanned: " + g.str());
}

// all targets and sources for one narrow text; m gives the expected outcome for
// a narrow and for a wide text
template <typename M, typename MW>
void targets(std::string_view in, const std::string& fmt, M&& m, MW&& mw)
{
    auto& R = Run::get();
    auto key = [&](const char* w) { return std::string(w) + "|" + mc::esc(fmt) + "|" + mc::esc(in); };
    if (!R.take([&] { return key("strings"); })) return;
    Exact<char> ex(in);
    auto sv = ex.view();
    model::StrRes sr = m(sv);
    Out w;
    w.ok = sr.code == model::OK;
    w.code = sr.code;
    std::string value;
    if (w.ok) {
        value = std::string(in.substr(sr.begin, sr.end - sr.begin));
        w.consumed = long(sr.end);
    }
    w.val = repr(value) + ",";
    R.outcome(w.str());
    const char* data{};
    cmp(key("string"), w, run<std::string, char>(sv, fmt, data));
    Out g = run<std::string_view, char>(sv, fmt, data);
    cmp(key("string_view"), w, g);
    ++R.checks;
    if (g.ok && w.ok && data != sv.data() + sr.begin)
        R.fail(key("string_view aliasing"), "the view does not refer to the source");
    Out ww = w;
    ww.val = wide_of(value) + ",";
    cmp(key("wstring"), ww, run<std::wstring, char>(sv, fmt, data));
    cmp(key("string from list"), w, scan_list<std::string>(in, fmt));
    if (in.size() < 40) {
        cmp(key("wstring from list"), ww, scan_list<std::wstring>(in, fmt));
        for (uint64_t cuts : {uint64_t(0), uint64_t(0x55555555), uint64_t(0x11111111)}) {
            Out f = scan_file<std::string>(in, fmt, cuts);
            if (!w.ok) f.consumed = 0;
            cmp(key("string from FILE"), w, f);
        }
    }
    auto wi = txt::to_wide(in), wf = txt::to_wide(fmt);
    if (!wi || !wf) return;
    Exact<wchar_t> wex(*wi);
    auto wsv = wex.view();
    sr = mw(wsv);
    Out x;
    x.ok = sr.code == model::OK;
    x.code = sr.code;
    std::wstring wvalue;
    if (x.ok) {
        wvalue = wi->substr(sr.begin, sr.end - sr.begin);
        x.consumed = long(sr.end);
    }
    x.val = repr(wvalue) + ",";
    const wchar_t* wdata{};
    cmp(key("wide wstring"), x, run<std::wstring, wchar_t>(wsv, *wf, wdata));
    g = run<std::wstring_view, wchar_t>(wsv, *wf, wdata);
    cmp(key("wide wstring_view"), x, g);
    ++R.checks;
    if (g.ok && x.ok && wdata != wsv.data() + sr.begin)
        R.fail(key("wstring_view aliasing"), "the view does not refer to the source");
    x.val = repr(txt::narrow(wvalue)) + ",";
    cmp(key("wide string"), x, run<std::string, wchar_t>(wsv, *wf, wdata));
}
static void wide_only(std::wstring_view in, const std::wstring& fmt, model::StrRes sr)
{
    auto& R = Run::get();
    auto key = [&](const char* w) { return std::string(w) + "|" + mc::esc(std::wstring_view(fmt)) + "|" + mc::esc(in); };
    if (!R.take([&] { return key("wide"); })) return;
    Exact<wchar_t> wex(in);
    Out x;
    x.ok = sr.code == model::OK;
    x.code = sr.code;
    std::wstring wvalue;
    if (x.ok) {
        wvalue = std::wstring(in.substr(sr.begin, sr.end - sr.begin));
        x.consumed = long(sr.end);
    }
    x.val = repr(wvalue) + ",";
    const wchar_t* wdata{};
    cmp(key("wide wstring"), x, run<std::wstring, wchar_t>(wex.view(), fmt, wdata));
    cmp(key("wide wstring_view"), x, run<std::wstring_view, wchar_t>(wex.view(), fmt, wdata));
    x.val = repr(txt::narrow(wvalue)) + ",";
    cmp(key("wide string"), x, run<std::string, wchar_t>(wex.view(), fmt, wdata));
}

static void word(const std::string& in, const std::string& fmt)
{
    targets(in, fmt, [](std::string_view s) { return model::read_word<char>(s); },
            [](std::wstring_view s) { return model::read_word<wchar_t>(s); });
}
static void set(const std::string& in, const std::string& fmt, const model::Set& st)
{
    if (!st.valid) {
        auto bad = [](auto) {
            model::StrRes r;
            r.code = model::invalid_format_string;
            return r;
        };
        targets(in, fmt, bad, bad);
        return;
    }
    targets(in, fmt, [&](std::string_view s) { return model::read_set<char>(s, st); },
            [&](std::wstring_view s) { return model::read_set<wchar_t>(s, st); });
}
// {:.Nc}: the first N characters (all of width 1 here), or what there is
template <typename CharT>
static model::StrRes take_n(std::basic_string_view<CharT> s, size_t n)
{
    model::StrRes r;
    auto v = model::split(s);
    for (size_t k = 0; k < n && k < v.size(); ++k) {
        r.end = v[k].pos + v[k].len;
        if (v[k].bad) r.code = model::invalid_scanned_value;
    }
    return r;
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;

    if (R.group("words"))
        for (const char* f : {"{}", "{:s}"})
            mc::for_strings({"a", "Z", " ", "\n", "\xc2\x85", "\xe2\x80\xa8", "\xc3\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xc2\xa0", "\xe3\x80\x80", "\xe2", "\x80", "\xff"},
                            0, th ? 5 : 4, [&](const std::string& in) { word(in, f); });
    if (R.group("word bytes"))
        for (int len : {1, 2, 7, 8, 9, 15, 16, 17, 24})
            for (int pos = 0; pos < len; ++pos)
                for (int b = 0; b < 256; ++b) {
                    std::string s(size_t(len), 'a');
                    s[size_t(pos)] = char(b);
                    word(s, "{}");
                    if (pos + 1 < len) {
                        s[size_t(pos + 1)] = '\x85';
                        word(s, "{}");
                        s[size_t(pos + 1)] = ' ';
                        word(s, "{}");
                    }
                }
    if (R.group("long words"))
        for (const char* fill : {"a", "\xc3\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", " ", "\xe2\x80\xa8"})
            for (int n = 0; n <= (th ? 80 : 36); ++n)
                for (const char* tail : {"", " ", "b", "\xc2\x85", "\xe2\x80\xa9z", "\xe2\x80\xaa", "\xc2\xa0 ", "\xe2\x80", "\xff ", "\t\t", "xyz \xc3\xa4"})
                    for (const char* head : {"", " ", "\n\n\n", "b"}) {
                        std::string s = head;
                        for (int k = 0; k < n; ++k) s += fill;
                        word(s + tail, "{}");
                    }
    // all set expressions up to a size, all short texts over their characters
    auto sets = [&](const Toks& sa, int sl, const Toks& ta, int tl) {
        mc::for_strings(sa, 1, sl, [&](const std::string& e) {
            bool closes;
            auto st = model::parse_set(e + "]", closes);
            if (!closes) return;
            if (!st.valid) {
                set("a", "{:[" + e + "]}", st);
                return;
            }
            mc::for_strings(ta, 0, tl, [&](const std::string& in) { set(in, "{:[" + e + "]}", st); });
        });
    };
    if (R.group("sets ascii"))
        sets({"a", "b", "d", "-", "^", "]", " "}, th ? 5 : 4, {"a", "c", "d", "-", "]", "^", " "}, 2);
    if (R.group("sets unicode"))
        sets({"a", "~", "-", "^", "\xc3\xa4", "\xc3\xa9", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80"}, th ? 5 : 4,
             {"a", "\x7f", "\xc3\xa5", "\xc3\xa4", "\xe4\xbd\xa0", "\xf0\x9f\x98\x80", "\xc3"}, 2);
    if (R.group("set literals"))
        for (const char* e : {"}", "{", "a}", "^}", ":alpha:", "a-z0-9_", "^a-z", "\\d", "^ \n", "^,", "/", ".", "\"", "*", "a-zA-Z\xc3\xa4-\xc3\xbc", "\xc3\xa4-\xe4\xbd\xa0", "^\xc3\xa4", "\t-~", "!--", "+--", "--/", "--\xc3\xa4", "a-\xc3\xa4"}) {
            bool closes;
            auto st = model::parse_set(std::string(e) + "]", closes);
            if (!closes) continue;
            mc::for_strings({"a", "z", "0", "_", ":", "}", "{", " ", "\n", ",", "\\", "d", "-", "\xc3\xa4", "\xe4\xbd\xa0", "\x7f", "\xff"},
                            0, th ? 4 : 3, [&](const std::string& in) { set(in, "{:[" + std::string(e) + "]}", st); });
        }
    // every ASCII character as a member, every character tested
    if (R.group("set members"))
        for (int m = 1; m < 128; ++m) {
            if (m == '^' || m == ']' || m == '-') continue;
            for (const char* inv : {"", "^"}) {
                std::string e = inv + std::string(1, char(m));
                bool closes;
                auto st = model::parse_set(e + "]", closes);
                for (int c = 1; c < 128; ++c) {
                    set(std::string(1, char(c)) + "\xc3\xa4", "{:[" + e + "]}", st);
                    if (c < m && c != ']' && c != '-' && c != '^') {
                        std::string rg = inv + std::string(1, char(c)) + "-" + char(m);
                        auto rs = model::parse_set(rg + "]", closes);
                        for (int t : {c - 1, c, c + 1, m - 1, m, m + 1})
                            if (t > 0 && t < 128) set(std::string(2, char(t)), "{:[" + rg + "]}", rs);
                    }
                }
            }
        }
    // sets of neighbouring code points: every expression over five consecutive
    // ones (order, gaps, overlaps, touching ranges), every one of them tested
    if (R.group("dense sets"))
        for (char32_t base : {char32_t(0x7d), char32_t(0xe3), char32_t(0x7fe), char32_t(0x4f60), char32_t(0xfffe), char32_t(0x1f600)}) {
            Toks sa = {"-", "^"}, ta;
            for (char32_t k = 0; k < 5; ++k) {
                ta.push_back(txt::enc8(base + k));
                sa.push_back(txt::enc8(base + k));
            }
            mc::for_strings(sa, 1, th ? 6 : 5, [&](const std::string& e) {
                bool closes;
                auto st = model::parse_set(e + "]", closes);
                if (!closes) return;
                if (!st.valid || (base == 0x7d && e[0] == '}')) return;
                for (auto& t : ta) set(t + t, "{:[" + e + "]}", st);
            });
        }
    // ranges of non-ASCII code points, boundaries tested
    if (R.group("set ranges")) {
        std::vector<char32_t> cps = {0x41, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x7ff, 0x800, 0x801, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10001, 0x10ffff};
        for (auto a : cps)
            for (auto b : cps) {
                if (b < a) continue;
                for (auto c : cps)
                    for (const char* inv : {"", "^"}) {
                        bool closes;
                        std::string e = inv + txt::enc8(a) + "-" + txt::enc8(b);
                        for (auto& ee : {e, e + "x", std::string(inv) + txt::enc8(c) + e.substr(*inv ? 1 : 0)}) {
                            auto st = model::parse_set(ee + "]", closes);
                            if (!closes) continue;
                            for (auto t : cps) {
                                if (!th && t != c && t != a && t != b && t != a + 1) continue;
                                set(txt::enc8(t) + txt::enc8(c), "{:[" + ee + "]}", st);
                            }
                        }
                    }
            }
    }
    if (R.group("set offsets"))
        for (const char* e : {"^ ", "a", "a\xc3\xa4", "^\xc3\xa4", "^b", "a-z"})
            for (const char* fill : {"a", "\xc3\xa4", "ab"})
                for (int n = 0; n <= 24; ++n)
                    for (const char* t : {"", "b", " ", "\xc3\xa4", "\xc3", "\xe4\xbd\xa0 c"}) {
                        bool closes;
                        auto st = model::parse_set(std::string(e) + "]", closes);
                        std::string s;
                        for (int k = 0; k < n; ++k) s += fill;
                        set(s + t, "{:[" + std::string(e) + "]}", st);
                    }
    if (R.group("characters"))
        for (int n = 1; n <= 6; ++n)
            mc::for_strings({"a", " ", "\n", "\xc3\xa4", "\xc2\x85", "\xc4\xb1"}, 0, th ? 7 : 6, [&](const std::string& in) {
                targets(in, "{:." + std::to_string(n) + "c}",
                        [&](std::string_view s) { return take_n<char>(s, size_t(n)); },
                        [&](std::wstring_view s) { return take_n<wchar_t>(s, size_t(n)); });
            });
    if (R.group("many characters"))
        for (int n = 1; n <= 40; ++n)
            for (int len = 0; len <= 44; ++len)
                for (const char* fill : {"a", "\xc3\xa4", " "}) {
                    std::string in;
                    for (int k = 0; k < len; ++k) in += fill;
                    targets(in, "{:." + std::to_string(n) + "c}",
                            [&](std::string_view s) { return take_n<char>(s, size_t(n)); },
                            [&](std::wstring_view s) { return take_n<wchar_t>(s, size_t(n)); });
                }
    // wide text with values that are no characters
    if (R.group("wide ill-formed"))
        mc::for_seqs(std::vector<int>(9), 0, th ? 5 : 4, [&](const std::vector<int>& ix) {
            static const wchar_t tab[] = {L'a', L' ', L'\x85', wchar_t(0xd800), wchar_t(0xdfff), wchar_t(0x110000), wchar_t(-1), L'\x4f60', wchar_t(0x10ffff)};
            std::wstring s;
            for (int i : ix) s += tab[i];
            wide_only(s, L"{}", model::read_word<wchar_t>(s));
            bool closes;
            static const auto s1 = model::parse_set("^a]", closes);
            static const auto s2 = model::parse_set("a\xe4\xbd\xa0]", closes);
            static const auto s3 = model::parse_set("^\xe4\xbd\xa0]", closes);
            wide_only(s, L"{:[^a]}", model::read_set<wchar_t>(s, s1));
            wide_only(s, L"{:[a\x4f60]}", model::read_set<wchar_t>(s, s2));
            wide_only(s, L"{:[^\x4f60]}", model::read_set<wchar_t>(s, s3));
        });
    return R.finish();
}
