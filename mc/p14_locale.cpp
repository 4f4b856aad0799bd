// P14: locales. Without L nothing depends on them; with L the punctuation and
// names are those of the locale given (or of the global one).
#include "model/floats.h"
#include <scn/chrono.h>
#include <scn/ranges.h>
#include "sources.h"
#include <clocale>
#include <cstring>
#include <iomanip>
#include <locale.h>
#include <locale>
#include <sstream>
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

// ---- values without help of the C library's locale ------------------------
template <typename T>
static std::string lrepr(const T& v)
{
    if constexpr (std::is_floating_point_v<T>) {
        if (std::isnan(v)) return std::signbit(v) ? "-nan" : "nan";
        unsigned char b[sizeof(T)];
        std::memcpy(b, &v, sizeof v);
        std::string s = "f";
        for (size_t i = 0; i < (sizeof(T) == 16 ? 10 : sizeof(T)); ++i) s += "0123456789abcdef"[b[i] >> 4], s += "0123456789abcdef"[b[i] & 15];
        return s;
    }
    else if constexpr (std::is_same_v<T, std::vector<double>>) {
        std::string s = "[";
        for (double d : v) s += lrepr(d) + " ";
        return s + "]";
    }
    else if constexpr (std::is_same_v<T, std::tm>) {
        std::string s;
        for (int x : {v.tm_sec, v.tm_min, v.tm_hour, v.tm_mday, v.tm_mon, v.tm_year, v.tm_wday, v.tm_yday}) s += std::to_string(x) + ".";
        return s;
    }
    else
        return repr(v);
}
template <typename R>
static Out outcome_of(R&& r, long n, long rest)
{
    Out o;
    ++Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = lrepr(r->value());
        o.consumed = n - rest;
    }
    else
        o.code = int(r.error().code());
    return o;
}
template <typename T, typename C>
static Out go_sv(const std::locale* l, std::basic_string_view<C> in, std::basic_string_view<C> fmt)
{
    if (l) {
        auto r = scn::scan<T>(*l, in, scn::runtime_format(fmt));
        return outcome_of(r, long(in.size()), r ? long(r->range().size()) : 0);
    }
    auto r = scn::scan<T>(in, scn::runtime_format(fmt));
    return outcome_of(r, long(in.size()), r ? long(r->range().size()) : 0);
}
template <typename T, typename C>
static Out go_deque(const std::locale* l, std::basic_string_view<C> in, std::basic_string_view<C> fmt)
{
    std::deque<C> d(in.begin(), in.end());
    if (l) {
        auto r = scn::scan<T>(*l, d, scn::runtime_format(fmt));
        return outcome_of(r, long(in.size()), r ? long(std::distance(r->begin(), d.end())) : 0);
    }
    auto r = scn::scan<T>(d, scn::runtime_format(fmt));
    return outcome_of(r, long(in.size()), r ? long(std::distance(r->begin(), d.end())) : 0);
}
template <typename T>
static Out go_file(const std::locale* l, std::string_view in, std::string_view fmt)
{
    CookieFile f(in, 0x5555, 0);
    Out o;
    if (l) {
        auto r = scn::scan<T>(*l, f.f, scn::runtime_format(fmt));
        o = outcome_of(r, 0, 0);
    }
    else {
        auto r = scn::scan<T>(f.f, scn::runtime_format(fmt));
        o = outcome_of(r, 0, 0);
    }
    if (o.ok) o.consumed = long(in.size() - f.rest().size());
    return o;
}

// ---- environments ---------------------------------------------------------
template <typename C>
struct Punct : std::numpunct<C> {
    C s, p;
    std::string g;
    std::basic_string<C> t, f;
    Punct(C s_, C p_, std::string g_, std::basic_string<C> t_, std::basic_string<C> f_) : s(s_), p(p_), g(g_), t(t_), f(f_) {}
    C do_thousands_sep() const override { return s; }
    C do_decimal_point() const override { return p; }
    std::string do_grouping() const override { return g; }
    std::basic_string<C> do_truename() const override { return t; }
    std::basic_string<C> do_falsename() const override { return f; }
};
template <typename C>
static std::basic_string<C> conv(const std::string& s)
{
    if constexpr (sizeof(C) == 1) return s;
    else return *txt::to_wide(s);
}
struct Loc {
    std::string name;
    char32_t sep, point, other;  // other: classic punctuation without meaning here
    bool grouping;
    std::string t, f;
    std::locale loc;
};
static Loc mk(char32_t s, char32_t p, char32_t o, const char* g, std::string t, std::string f)
{
    std::locale l(std::locale::classic(), new Punct<wchar_t>(wchar_t(s), wchar_t(p), g, conv<wchar_t>(t), conv<wchar_t>(f)));
    l = std::locale(l, new Punct<char>(s < 128 ? char(s) : '\'', p < 128 ? char(p) : ';', g, t, f));
    std::string n = mc::esc(txt::enc8(s)) + " " + mc::esc(txt::enc8(p)) + " g" + std::to_string(std::strlen(g)) + " " + t + "/" + f;
    return {n, s, p, o, *g != 0, t, f, l};
}
struct Env {
    std::string name;
    std::string c;             // setlocale
    std::optional<std::locale> cpp;  // global
    std::string thread;        // uselocale
};
static locale_t tl_loc;
static void enter(const Env& e)
{
    std::locale::global(std::locale::classic());
    if (e.cpp) std::locale::global(*e.cpp);
    if (!e.c.empty()) std::setlocale(LC_ALL, e.c.c_str());
    else if (!e.cpp) std::setlocale(LC_ALL, "C");
    uselocale(LC_GLOBAL_LOCALE);
    if (!e.thread.empty()) {
        static std::map<std::string, locale_t> made;
        auto& l = made[e.thread];
        if (!l) l = newlocale(LC_ALL_MASK, e.thread.c_str(), nullptr);
        uselocale(l);
        tl_loc = l;
    }
}
static std::string state()
{
    std::string s = std::setlocale(LC_ALL, nullptr);
    s += "|" + std::locale().name() + "|" + std::to_string(reinterpret_cast<uintptr_t>(uselocale(nullptr)));
    return s;
}

// ---- without L ------------------------------------------------------------
static std::vector<Env> envs;
static std::vector<std::locale> passed;  // also given as an argument
static std::unordered_map<uint64_t, uint64_t> base_of;
static size_t cur_env;
static std::locale before_global;
static std::string before_state;

static void unaffected(const std::string& what, uint64_t key, const std::function<std::string(const std::locale*)>& f)
{
    auto& R = Run::get();
    if (!R.take([&] { return envs[cur_env].name + ": " + what; })) return;
    auto h = [](const std::string& s) { return uint64_t(std::hash<std::string>{}(s)); };
    uint64_t want;
    std::string wanted;
    auto it = base_of.find(key);
    if (cur_env == 0 || it == base_of.end()) {
        if (cur_env) enter(envs[0]);
        wanted = f(nullptr);
        if (cur_env) enter(envs[cur_env]), before_state = state();
        want = base_of[key] = h(wanted);
    }
    else
        want = it->second;
    R.outcome(want);
    for (int k = -1; k < int(passed.size()); ++k) {
        if (k >= 0 && cur_env > 1 && key % 4) continue;
        std::string got = f(k < 0 ? nullptr : &passed[size_t(k)]);
        ++R.checks;
        if (h(got) != want)
            R.fail("no L|" + envs[cur_env].name + "|" + std::to_string(k) + "|" + what, "here: " + got + " classic: " + wanted);
        if (state() != before_state || std::locale() != before_global)
            R.fail("state|" + envs[cur_env].name + "|" + what, "the scan left another locale: " + state());
    }
}
template <typename T>
static void no_l(const std::string& in, const std::string& fmt)
{
    uint64_t key = std::hash<std::string>{}(in + "\x01" + fmt + "\x01" + typeid(T).name());
    unaffected(std::string(typeid(T).name()) + "|" + mc::esc(fmt) + "|" + mc::esc(in), key, [&](const std::locale* l) {
        Exact<char> e(in);
        std::string s = go_sv<T, char>(l, e.view(), fmt).str();
        s += ";" + go_deque<T, char>(l, in, fmt).str();
        if (key % 3 == 0) s += ";" + go_file<T>(l, in, fmt).str();
        if constexpr (!std::is_same_v<T, char> && !std::is_same_v<T, std::vector<double>>) {
            if (auto w = txt::to_wide(in)) s += ";" + go_sv<T, wchar_t>(l, *w, conv<wchar_t>(fmt)).str();
        }
        return s;
    });
}

// ---- with L ---------------------------------------------------------------
// Canonical texts: ',' is the separator, '.' the point, '\x01' other
// punctuation.
template <typename C>
static std::basic_string<C> real(const Loc& l, const std::string& canon)
{
    std::basic_string<C> s;
    for (char c : canon) {
        char32_t u = c == ',' ? l.sep : c == '.' ? l.point : c == '\x01' ? l.other : char32_t((unsigned char)c);
        if (sizeof(C) == 1 && u >= 128) u = c == ',' ? U'\'' : U';';
        s += C(u);
    }
    return s;
}
template <typename T>
static Out want_int(std::string in, char pres, bool grouping)
{
    Out o;
    if (!grouping)
        for (char& c : in)
            if (c == ',') c = '\x01';
    size_t ws = model::skip_ws(in);
    std::string_view s = std::string_view(in).substr(ws);
    int base = pres == 'x' ? 16 : pres == 'o' ? 8 : pres == 'i' ? 0 : 10;
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    std::string sign(s.substr(0, i));
    auto dig = [&](size_t k, int b) { return k < s.size() && model::digit_of((unsigned char)s[k]) < b; };
    size_t pre = 0;
    if (s.size() > i + 1 && s[i] == '0') {
        char c = s[i + 1] | 32;
        if ((base == 16 || base == 0) && c == 'x' && dig(i + 2, 16)) pre = 2, base = 16;
        else if ((base == 8 || base == 0) && c == 'o' && dig(i + 2, 8)) pre = 2, base = 8;
        else if (base == 0 && c == 'b' && dig(i + 2, 2)) pre = 2, base = 2;
    }
    if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
    size_t j = i + pre;
    std::string d;
    while (j < s.size() && (s[j] == ',' || dig(j, base))) {
        if (s[j] != ',') d += s[j];
        ++j;
    }
    const bool neg_ok = std::is_signed_v<T> && pres != 'u';
    std::string plain = sign + d;
    if (s.empty()) {
        o.code = model::end_of_input;
        return o;
    }
    auto m = model::read_int<char>(plain.empty() ? std::string_view("?") : std::string_view(plain), base, neg_ok, (unsigned long long)std::numeric_limits<T>::max(), false);
    o.code = m.code;
    o.ok = m.code == model::OK;
    if (o.ok) o.val = model::int_repr<T>(m), o.consumed = long(ws + j);
    return o;
}
template <typename T>
static Out want_float(std::string in, char pres, bool grouping)
{
    Out o;
    if (!grouping)
        for (char& c : in)
            if (c == ',') c = '\x01';
    size_t ws = model::skip_ws(in);
    std::string_view s = std::string_view(in).substr(ws);
    const int opt = model::fopt(pres);
    size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    auto attempt = [&](size_t pre, int base) {
        // separators are taken out of the integer part
        size_t j = i + pre;
        std::string d(s.substr(0, j));
        size_t seps = 0;
        while (j < s.size() && (s[j] == ',' || model::digit_of((unsigned char)s[j]) < base)) {
            if (s[j] == ',') ++seps;
            else d += s[j];
            ++j;
        }
        if (d.size() == i + pre && seps && (j == s.size() || s[j] != '.')) d += '?';  // separators only
        if (!pre && j < s.size() && (s[j] | 32) == 'x') d += '?';  // no prefix
        std::string t = d + std::string(s.substr(j));
        auto m = model::read_float(t, opt);
        if (m.code == model::OK && m.kind == model::FloatRes::number) m.consumed += seps;
        return m;
    };
    model::FloatRes m;
    if (s.empty()) m.code = model::end_of_input;
    else if (model::ieq(s, i, "inf") || model::ieq(s, i, "nan")) m = model::read_float(s, opt);
    else {
        bool hex = false;
        if ((opt & model::F_HEX) && model::ieq(s, i, "0x")) {
            m = attempt(2, 16);
            hex = m.code == model::OK && m.hex;
        }
        if (!hex) m = attempt(0, opt == model::F_HEX ? 16 : 10);
    }
    T v{};
    o.code = model::float_value<T>(m, v);
    o.ok = o.code == model::OK;
    if (o.ok) o.val = lrepr(v), o.consumed = long(ws + m.consumed);
    return o;
}
static std::vector<Loc> locs;
template <typename T, typename C>
static void l_num(const Loc& l, const std::string& canon, char pres, int how, const Out& w)
{
    auto& R = Run::get();
    std::string f = "{:L";
    if (pres != '0') f += pres;
    f += "}";
    auto fmt = conv<C>(f);
    auto text = real<C>(l, canon);
    Exact<C> e(text);
    Out g;
    if (how & 1) {
        // by way of the global locale
        std::locale old = std::locale::global(l.loc);
        g = how & 2 ? go_deque<T, C>(nullptr, e.view(), fmt) : go_sv<T, C>(nullptr, e.view(), fmt);
        std::locale::global(old);
    }
    else
        g = how & 2 ? go_deque<T, C>(&l.loc, e.view(), fmt) : go_sv<T, C>(&l.loc, e.view(), fmt);
    ++R.checks;
    if (w != g)
        R.fail("L|" + l.name + "|" + typeid(T).name() + "|" + std::to_string(sizeof(C)) + "|" + f + "|" + std::to_string(how) + "|" + mc::esc(canon), "model: " + w.str() + " scanned: " + g.str());
}
template <typename T>
static void l_one(const Loc& l, const std::string& canon, char pres)
{
    auto& R = Run::get();
    // an octal 0 in front of a separator: prefix or digit, not judged
    if ((pres == 'o' || pres == 'i') && canon.find("0,") != canon.npos) return;
    if (std::is_floating_point_v<T> && canon.find("0x,") != canon.npos) return;
    // a separator that is whitespace, where whitespace is skipped
    if (l.sep == U' ' && canon.find(' ') != canon.npos) return;
    if (txt::is_space(l.sep) && canon.find_first_not_of(' ') != canon.npos && canon[canon.find_first_not_of(' ')] == ',') return;
    if (!R.take([&] { return l.name + "|" + typeid(T).name() + "|" + pres + "|" + mc::esc(canon); })) return;
    Out w;
    if constexpr (std::is_floating_point_v<T>) w = want_float<T>(canon, pres, l.grouping);
    else w = want_int<T>(canon, pres, l.grouping);
    R.outcome(w.str());
    for (int how : {0, 1, 2, 3}) {
        if (how == 3 && canon.size() > 3) continue;
        if (l.sep < 128 && l.point < 128) l_num<T, char>(l, canon, pres, how, w);
        l_num<T, wchar_t>(l, canon, pres, how, w);
    }
    if (l.sep < 128 && l.point < 128 && canon.size() < 4) {
        std::string f = pres == '0' ? "{:L}" : std::string("{:L") + pres + "}";
        auto text = real<char>(l, canon);
        Out g = go_file<T>(&l.loc, text, f);
        ++R.checks;
        if (w != g) R.fail("L file|" + l.name + "|" + typeid(T).name() + "|" + f + "|" + mc::esc(canon), "model: " + w.str() + " scanned: " + g.str());
    }
}
template <typename C>
static void l_bool(const Loc& l, const std::string& text, const std::string& fmt)
{
    auto& R = Run::get();
    if (!R.take([&] { return l.name + "|bool|" + fmt + "|" + mc::esc(text) + std::to_string(sizeof(C)); })) return;
    Out w;
    size_t ws = model::skip_ws(text);
    std::string_view s = std::string_view(text).substr(ws);
    auto pfx = [&](const std::string& n) { return s.substr(0, n.size()) == n; };
    const bool num = fmt != "{:Ls}", names = fmt != "{:Ld}";
    size_t len = 0;
    bool v = false;
    if (s.empty()) w.code = model::end_of_input;
    else {
        if (num && (s[0] == '0' || s[0] == '1')) len = 1, v = s[0] == '1';
        else if (names) {
            if (pfx(l.t)) len = l.t.size(), v = true;
            if (pfx(l.f) && l.f.size() > len) len = l.f.size(), v = false;
        }
        if (!len) w.code = model::invalid_scanned_value;
    }
    if (len) w.ok = true, w.val = repr(v), w.consumed = long(ws + len);
    R.outcome(w.str());
    auto t = conv<C>(text);
    if (sizeof(C) > 1 && w.ok) w.consumed = long(conv<C>(text.substr(0, size_t(w.consumed))).size());
    for (int how = 0; how < 4; ++how) {
        Exact<C> e(t);
        Out g;
        std::locale old = std::locale();
        const std::locale* p = &l.loc;
        if (how & 1) std::locale::global(l.loc), p = nullptr;
        g = how & 2 ? go_deque<bool, C>(p, e.view(), conv<C>(fmt)) : go_sv<bool, C>(p, e.view(), conv<C>(fmt));
        std::locale::global(old);
        ++R.checks;
        if (w != g) R.fail("L bool|" + l.name + "|" + fmt + "|" + std::to_string(how) + "|" + mc::esc(text), "model: " + w.str() + " scanned: " + g.str());
    }
}

// the locale reaches nested values
struct Wrap {
    double v;
};
template <>
struct scn::scanner<Wrap> : scn::scanner<double> {
    template <typename Ctx>
    auto scan(Wrap& w, Ctx& ctx) const
    {
        return scn::scanner<double>::scan(w.v, ctx);
    }
};

struct Sees {  // reads with the locale of its context
    double v;
};
template <>
struct scn::scanner<Sees> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
    template <typename Ctx>
    auto scan(Sees& w, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        auto r = scn::scan<double>(ctx.locale().template get<std::locale>(), ctx.range(), scn::runtime_format("{:L}"));
        if (!r) return scn::unexpected(r.error());
        w.v = r->value();
        return r->begin();
    }
};

static void nested(const Loc& l, const std::string& canon)
{
    auto& R = Run::get();
    if (l.sep == U' ' && canon[0] == ',') return;
    if (!R.take([&] { return l.name + "|nested|" + mc::esc(canon); })) return;
    Out w = want_float<double>(canon, '0', l.grouping);
    if (!w.ok) return;
    auto t = real<char>(l, canon);
    {
        auto r = scn::scan<Wrap>(l.loc, std::string_view(t), scn::runtime_format("{:L}"));
        ++R.calls, ++R.checks;
        Out g;
        g.ok = r.has_value();
        if (r) g.val = lrepr(r->value().v), g.consumed = long(t.size() - r->range().size());
        else g.code = int(r.error().code());
        if (g != w) R.fail("L custom|" + l.name + "|" + mc::esc(canon), "model: " + w.str() + " scanned: " + g.str());
    }
    auto sees = [&](const char* what, auto r) {
        ++R.calls, ++R.checks;
        Out g;
        g.ok = r.has_value();
        if (r) g.val = lrepr(r->value().v), g.consumed = w.consumed;
        else g.code = int(r.error().code());
        if (g != w) R.fail(std::string("L context|") + what + "|" + l.name + "|" + mc::esc(canon), "model: " + w.str() + " scanned: " + g.str());
    };
    sees("{}", scn::scan<Sees>(l.loc, std::string_view(t), scn::runtime_format("{}")));
    sees("{:}", scn::scan<Sees>(l.loc, std::string_view(t), scn::runtime_format("{:}")));
    std::deque<char> td(t.begin(), t.end());
    sees("deque {}", scn::scan<Sees>(l.loc, td, scn::runtime_format("{}")));
    sees("deque {0:}", scn::scan<Sees>(l.loc, td, scn::runtime_format("{0:}")));
    std::string tl = "~" + t;
    std::deque<char> tld(tl.begin(), tl.end());
    sees("~{}", scn::scan<Sees>(l.loc, std::string_view(tl), scn::runtime_format("~{}")));
    sees("~{:}", scn::scan<Sees>(l.loc, std::string_view(tl), scn::runtime_format("~{:}")));
    sees("deque ~{}", scn::scan<Sees>(l.loc, tld, scn::runtime_format("~{}")));
    sees("deque ~{:}", scn::scan<Sees>(l.loc, tld, scn::runtime_format("~{:}")));
    sees("default {}", scn::scan<Sees>(l.loc, std::string_view(t), scn::runtime_format("{}"), {Sees{}}));
    if (size_t(w.consumed) == canon.size() && canon.back() != ',' && l.sep != ',' && l.point != ',') {
        std::string v = "[" + t + ", " + t + "]";
        Out g = go_sv<std::vector<double>, char>(&l.loc, v, "{:L}");
        ++R.checks;
        if (!g.ok || g.val != "[" + w.val + " " + w.val + " ]" || g.consumed != long(v.size()))
            R.fail("L vector|" + l.name + "|" + mc::esc(canon), "model: twice " + w.str() + " scanned: " + g.str());
    }
    // second of two fields, and a default value
    {
        std::string v = "7 " + t;
        auto r = scn::scan<int, double>(l.loc, std::string_view(v), scn::runtime_format("{:d} {:L}"));
        ++R.calls, ++R.checks;
        if (!r || lrepr(std::get<1>(r->values())) != w.val || long(v.size() - r->range().size()) != w.consumed + 2)
            R.fail("L second|" + l.name + "|" + mc::esc(canon), "model: " + w.str());
        auto q = scn::scan<double>(l.loc, std::string_view(t), scn::runtime_format("{:L}"), {3.0});
        ++R.calls, ++R.checks;
        if (!q || lrepr(q->value()) != w.val) R.fail("L default|" + l.name + "|" + mc::esc(canon), "model: " + w.str());
    }
}

// dates in named locales: what std::get_time reads
static void dates(const std::string& name, const std::locale& loc)
{
    auto& R = Run::get();
    const char* specs[] = {"%a", "%A", "%b", "%B", "%x", "%X", "%c", "%d %b %Y", "%Ex", "%EX"};
    for (const char* sp : specs)
        for (int day = 0; day < 365; day += (R.thorough ? 1 : 9)) {
            std::tm t{};
            t.tm_year = 124, t.tm_mday = 1 + day, t.tm_hour = day % 24, t.tm_min = day % 60, t.tm_sec = (day * 7) % 60;
            t.tm_isdst = 0;
            std::time_t tt = timegm(&t);
            gmtime_r(&tt, &t);
            std::ostringstream os;
            os.imbue(loc);
            os << std::put_time(&t, sp);
            for (int cut = 0; cut < 2; ++cut) {
                std::string text = os.str() + (cut ? " ." : "");
                if (!R.take([&] { return name + "|" + sp + "|" + mc::esc(text); })) continue;
                std::istringstream is(text);
                is.imbue(loc);
                std::tm w{};
                is >> std::get_time(&w, sp);
                if (is.fail()) continue;  // the C++ library itself cannot read it
                if (is.tellg() == std::istringstream::pos_type(0)) continue;
                is.clear();
                const long wc = long(is.tellg());
                std::string fmt = "{:L" + std::string(sp) + "}";
                auto r = scn::scan<std::tm>(loc, std::string_view(text), scn::runtime_format(fmt));
                ++R.calls, ++R.checks;
                if (!r) {
                    R.fail("L date|" + name + "|" + sp + "|" + mc::esc(text), std::string("gives ") + code_name(int(r.error().code())));
                    continue;
                }
                auto& g = r->value();
                std::string s = sp;
                bool ok = true;
                if (s == "%c") ok = g.tm_mday == w.tm_mday && g.tm_mon == w.tm_mon && g.tm_year == w.tm_year && g.tm_hour == w.tm_hour && g.tm_min == w.tm_min && g.tm_sec == w.tm_sec;
                if (long(text.size() - r->range().size()) != wc) ok = false;
                if (s == "%a" || s == "%A") ok = g.tm_wday == w.tm_wday;
                else if (s == "%b" || s == "%B") ok = g.tm_mon == w.tm_mon;
                else if (s == "%x" || s == "%Ex" || s == "%d %b %Y") ok = g.tm_mday == w.tm_mday && g.tm_mon == w.tm_mon && g.tm_year == w.tm_year;
                else if (s == "%X" || s == "%EX") ok = g.tm_hour == w.tm_hour && g.tm_min == w.tm_min && g.tm_sec == w.tm_sec;
                if (!ok) R.fail("L date|" + name + "|" + sp + "|" + mc::esc(text), "std::get_time: " + lrepr(w) + " scanned: " + lrepr(g));
            }
        }
}

// one alternative (E, O) or composite specifier over all short texts: what
// std::get_time reads in the same locale
template <typename C>
static void alt_date(const std::string& name, const std::locale& loc, const std::string& sp, const std::string& text)
{
    auto& R = Run::get();
    auto t = conv<C>(text);
    std::basic_istringstream<C> is(t);
    is.imbue(loc);
    std::tm w{};
    auto csp = conv<C>(sp);
    is >> std::get_time(&w, csp.c_str());
    bool wok = !is.fail();
    is.clear();
    long wc = wok ? long(is.tellg()) : 0;
    if (wok && wc == 0 && !text.empty()) return;  // the C++ library did nothing
    if (sp == "%Oy" && wc > 2) return;  // libstdc++ takes up to four digits
    auto fmt = conv<C>("{:L" + sp + "}");
    for (int dq = 0; dq < 2; ++dq) {
        std::tm g{};
        bool ok;
        int code = -1;
        long c = 0;
        if (dq) {
            std::deque<C> d(t.begin(), t.end());
            auto r = scn::scan<std::tm>(loc, d, scn::runtime_format(std::basic_string_view<C>(fmt)));
            ok = r.has_value();
            if (r) g = r->value(), c = long(r->begin() - d.begin());
            else code = int(r.error().code());
        }
        else {
            Exact<C> ex(t);
            auto r = scn::scan<std::tm>(loc, ex.view(), scn::runtime_format(std::basic_string_view<C>(fmt)));
            ok = r.has_value();
            if (r) g = r->value(), c = long(t.size() - r->range().size());
            else code = int(r.error().code());
        }
        ++R.calls, ++R.checks;
        auto key = [&] { return "L alt|" + name + "|" + sp + (sizeof(C) > 1 ? "|wide" : "") + (dq ? "|deque|" : "|") + mc::esc(text); };
        if (ok != wok) {
            R.fail(key(), wok ? "std::get_time reads it, scan: " + std::string(code_name(code)) : "std::get_time fails, scan: " + lrepr(g));
            continue;
        }
        if (!ok) continue;
        const char f = sp.back();
        bool same = c == wc;
        if (f == 'Y' || f == 'y' || f == 'C') same = same && g.tm_year == w.tm_year;
        else if (f == 'm' || f == 'b' || f == 'B' || f == 'h') same = same && g.tm_mon == w.tm_mon;
        else if (f == 'd' || f == 'e') same = same && g.tm_mday == w.tm_mday;
        else if (f == 'w' || f == 'u' || f == 'a' || f == 'A') same = same && g.tm_wday == w.tm_wday;
        else if (f == 'H') same = same && g.tm_hour == w.tm_hour;
        else if (f == 'M') same = same && g.tm_min == w.tm_min;
        else if (f == 'S') same = same && g.tm_sec == w.tm_sec;
        else if (f == 'r' || f == 'X') same = same && g.tm_hour == w.tm_hour && g.tm_min == w.tm_min && g.tm_sec == w.tm_sec;
        if (!same) R.fail(key(), "std::get_time: " + lrepr(w) + "@" + std::to_string(wc) + " scanned: " + lrepr(g) + "@" + std::to_string(c));
    }
}
static void alt_dates(const std::string& name, const std::locale& loc)
{
    auto& R = Run::get();
    auto both = [&](const std::string& sp, const std::string& text) {
        if (!R.take([&] { return name + " alt " + sp + " \"" + mc::esc(text) + "\""; })) return;
        alt_date<char>(name, loc, sp, text);
        alt_date<wchar_t>(name, loc, sp, text);
    };
    for (const char* sp : {"%Od", "%Oe", "%Om", "%OH", "%OI", "%OM", "%OS", "%Ow", "%Oy", "%EY", "%EC"})
        mc::for_strings({"0", "1", "2", "3", "5", "6", "9", "a", " "}, 0, std::string(sp) == "%EY" ? 5 : 3, [&](const std::string& s) { both(sp, s); });
    // libstdc++ has no %u: 1 (Monday) to 7 (Sunday)
    for (char d : std::string("0123456789a"))
        for (int dq = 0; dq < 2; ++dq) {
            if (!R.take([&] { return name + " alt %Ou " + d; })) continue;
            std::string t(1, d);
            std::deque<char> q(t.begin(), t.end());
            auto get = [&](auto r) { return r ? r->value().tm_wday : -1; };
            int g = dq ? get(scn::scan<std::tm>(loc, q, scn::runtime_format("{:L%Ou}"))) : get(scn::scan<std::tm>(loc, std::string_view(t), scn::runtime_format("{:L%Ou}")));
            int w = d >= '1' && d <= '7' ? (d - '0') % 7 : -1;
            ++R.calls, ++R.checks;
            if (g != w) R.fail(std::string("L alt|%Ou|") + d, "weekday " + std::to_string(w) + " expected, scanned: " + std::to_string(g));
        }
    for (int h = 0; h < 24; ++h)
        for (int m : {0, 1, 30, 59, 60})
            for (int s : {0, 7, 59, 60, 61})
                for (const char* tail : {"", " AM", " PM", "x"}) {
                    char b[40];
                    std::snprintf(b, sizeof b, "%02d:%02d:%02d%s", h, m, s, tail);
                    both("%r", b);
                    both("%X", b);
                    both("%EX", b);
                }
}

// seconds with a fraction: the point of the locale with O, '.' without
template <typename C>
static void subsecond_one(const Loc& l, const std::string& canon, bool alt)
{
    auto& R = Run::get();
    auto t = real<C>(l, canon);
    auto plain = real<char32_t>(l, canon);
    size_t i = 0;
    auto digit = [&] { return i < plain.size() && plain[i] >= U'0' && plain[i] <= U'9'; };
    int sec = 0;
    size_t d = 0;
    for (; d < 2 && digit(); ++d, ++i) sec = sec * 10 + int(plain[i] - U'0');
    bool ok = d > 0 && sec <= 60 && i < plain.size() && plain[i] == (alt ? l.point : U'.');
    std::string frac = "0.";
    if (ok) {
        for (++i; digit(); ++i) frac += char(plain[i]);
        ok = frac.size() > 2;
    }
    double want = std::strtod(frac.c_str(), nullptr);
    std::basic_string<C> fmt;
    for (char c : std::string(alt ? "{:L%.OS}" : "{:L%.S}")) fmt += C(c);
    auto judge = [&](const char* src, auto r, auto left) {
        ++R.calls, ++R.checks;
        std::string key = std::string("L subsecond|") + (sizeof(C) == 1 ? "narrow|" : "wide|") + src + "|" + l.name + "|" + (alt ? "%.OS|" : "%.S|") + mc::esc(canon);
        if (r.has_value() != ok) return R.fail(key, ok ? "should be read" : "should be an error");
        if (!ok) return;
        auto& v = r->value();
        if (v.sec != sec || v.subsec != want || left(r) != plain.size() - i) R.fail(key, "wrong value or rest");
    };
    judge("view", scn::scan<scn::datetime_components>(l.loc, std::basic_string_view<C>(t), scn::runtime_format(std::basic_string_view<C>(fmt))),
          [](auto& r) { return size_t(r->range().size()); });
    std::deque<C> q(t.begin(), t.end());
    judge("deque", scn::scan<scn::datetime_components>(l.loc, q, scn::runtime_format(std::basic_string_view<C>(fmt))),
          [](auto& r) { return size_t(std::distance(r->range().begin(), r->range().end())); });
}
static void subsecond(const Loc& l, const std::string& canon)
{
    for (bool alt : {false, true}) {
        if (!Run::get().take([&] { return l.name + "|subsecond|" + (alt ? "O|" : "|") + mc::esc(canon); })) continue;
        if (l.point < 128 && l.sep < 128) subsecond_one<char>(l, canon, alt);
        subsecond_one<wchar_t>(l, canon, alt);
    }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    auto named = [](const char* n) -> std::optional<std::locale> {
        try {
            return std::locale(n);
        }
        catch (const std::exception&) {
            return {};
        }
    };
    // with L
    locs = {mk(U',', U'.', U'\'', "\3", "true", "false"), mk(U'.', U',', U';', "\3", "ja", "nein"),
            mk(U'\'', U',', U'.', "\1\2", "ja", "jamais"), mk(U' ', U',', U'.', "\3", "vraiment", "vrai"),
            mk(U'_', U';', U'.', "\3\177", "0n", "0ff"), mk(U',', U'.', U'\'', "", "yes", "no"),
            mk(U',', U';', U'.', "", "\xc3\xa4", "\xc3\xb6"), mk(U'\0', U'.', U',', "", "t", "f"),
            mk(U'\u00a0', U'\u066b', U'.', "\3", "t", "tf"), mk(U'\u202f', U',', U'.', "\3", "no", "yes")};
    if (R.group("L integers"))
        for (auto& l : locs) {
            mc::for_strings({"1", "0", "7", ",", ".", "\x01", "-", " ", "x", "f"}, 0, th ? 6 : 5, [&](const std::string& s) {
                l_one<int>(l, s, '0');
                if (s.size() < 5 || th) {
                    l_one<unsigned>(l, s, 'd');
                    l_one<long long>(l, s, 'x');
                    l_one<signed char>(l, s, 'i');
                    l_one<short>(l, s, 'u');
                    l_one<unsigned long long>(l, s, 'o');
                }
            });
            // limits
            for (auto* lim : {"2147483647", "2147483648", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"})
                for (const char* sg : {"", "-", "+"})
                    for (int mask = 0; mask < 64; ++mask) {
                        std::string d = lim, s = sg;
                        for (size_t k = 0; k < d.size(); ++k) {
                            s += d[k];
                            if (k < 6 && (mask >> k) & 1) s += ",";
                            if (k == 9 && mask % 3 == 0) s += ",,";
                        }
                        l_one<int>(l, s, '0'), l_one<signed char>(l, s, 'd'), l_one<unsigned char>(l, s, '0'), l_one<short>(l, s, 'i'), l_one<unsigned short>(l, s, 'u');
                        l_one<unsigned>(l, s, '0'), l_one<long>(l, s, '0'), l_one<unsigned long>(l, s, '0'), l_one<long long>(l, s, 'd'), l_one<unsigned long long>(l, s, '0');
                    }
        }
    if (R.group("L floats"))
        for (auto& l : locs) {
            mc::for_strings({"1", "0", "5", ",", ".", "\x01", "-", " ", "e", "x"}, 0, th ? 7 : 5, [&](const std::string& s) {
                l_one<double>(l, s, '0');
                if (s.size() < 5 || th) {
                    l_one<float>(l, s, 'f');
                    l_one<double>(l, s, 'a');
                    l_one<long double>(l, s, 'g');
                    l_one<double>(l, s, 'e');
                }
            });
            mc::for_strings({"12", ",", ".", "345", "e5", "e-", "inf", "nan", "0x", "-", "a", "p"}, 0, th ? 5 : 4, [&](const std::string& s) {
                l_one<double>(l, s, '0');
                l_one<float>(l, s, '0');
                l_one<long double>(l, s, 'a');
            });
        }
    if (R.group("L bool"))
        for (auto& l : locs) {
            Toks tk = {"0", "1", " ", "x", "true", "false", l.t, l.f, l.t.substr(0, l.t.size() - 1), l.f.substr(0, 1)};
            mc::for_strings(tk, 0, 3, [&](const std::string& s) {
                for (const char* f : {"{:L}", "{:Ls}", "{:Ld}"}) {
                    if (!txt::valid(s)) continue;
                    l_bool<char>(l, s, f);
                    l_bool<wchar_t>(l, s, f);
                }
            });
        }
    if (R.group("L nested"))
        for (auto& l : locs)
            if (l.sep < 128 && l.point < 128 && l.sep)
                mc::for_strings({"1", "0", ",", ".", "23", "e2", "-"}, 1, th ? 6 : 5, [&](const std::string& s) { nested(l, s); });
    if (R.group("L subseconds"))
        for (auto& l : locs)
            mc::for_strings({"1", "0", "6", ".", ",", "\x01", "x"}, 1, th ? 6 : 5, [&](const std::string& s) {
                if (s[0] != ',' && s[0] != '.' && s[0] != '\x01') subsecond(l, s);
            });
    if (R.group("L dates"))
        for (const char* n : {"C", "en_US.utf8", "de_DE.utf8", "fi_FI.utf8", "fr_FR.utf8", "sv_SE.utf8", "pl_PL.utf8"})
            if (auto l = named(n)) {
                dates(n, *l);
                alt_dates(n, *l);
            }
    // without L
    envs.push_back({"classic", "", {}, ""});
    envs.push_back({"passed only", "", {}, ""});
    envs.push_back({"custom global", "", locs[1].loc, ""});
    envs.push_back({"custom global 2", "", locs[3].loc, ""});
    for (const char* n : {"de_DE.utf8", "tr_TR.utf8", "fr_FR", "ja_JP.eucjp", "zh_CN.gb18030", "cs_CZ.utf8"})
        if (auto l = named(n)) {
            envs.push_back({std::string("C ") + n, n, {}, ""});
            envs.push_back({std::string("global ") + n, "", *l, ""});
            envs.push_back({std::string("thread ") + n, "", {}, n});
            passed.push_back(*l);
        }
    passed.resize(std::min<size_t>(passed.size(), 2), std::locale::classic());
    passed.push_back(locs[1].loc);
    R.notes["environments"] = std::to_string(envs.size());
    if (R.group("no L"))
        for (cur_env = 0; cur_env < envs.size(); ++cur_env) {
            enter(envs[cur_env]);
            before_global = std::locale();
            before_state = state();
            mc::for_strings({"1", "23", "0x1f", ".", ",", "e5", "-", " ", "\xa0", "\xc2\xa0", "\xe4", "inf", "NaN", "INFINITY", "true", "FALSE", "i", "I", "\xc4\xb1", "\xe3\x80\x80"}, 0, th ? 4 : 3, [&](const std::string& s) {
                const bool small = s.size() < 5 || th;
                no_l<int>(s, "{}");
                no_l<double>(s, "{}");
                no_l<bool>(s, "{}");
                no_l<std::string>(s, "{}");
                if (!small) return;
                no_l<float>(s, "{:g}");
                no_l<long double>(s, "{:a}");
                no_l<unsigned>(s, "{:x}");
                no_l<long>(s, "{:i}");
                no_l<double>(s, "{:*>8.9f}");
                no_l<std::string>(s, "{:[a-zA-Z]}");
                no_l<std::wstring>(s, "{:.3c}");
                no_l<char>(s, "{}");
                no_l<char32_t>(s, "{}");
                no_l<void*>(s, "{}");
                no_l<std::vector<double>>("[" + s + "]", "{}");
            });
            for (const char* f : {"{:%a}", "{:%b %d}", "{:%Y-%m-%d}", "{:%c}", "{:%x}", "{:%X}", "{:%r}", "{:%p %I}", "{:%d.%m.%y}", "{:%S}"})
                for (const char* t : {"Mon", "monday", "MONDAY", "Montag", "Mo", "Fri", "FRI", "Jan 5", "JAN 5", "January 05", "Januar 5", "2024-02-29", "Thu Feb 29 12:34:56 2024", "Do 29 Feb 2024 12:34:56", "02/29/24", "29.02.2024", "12:34:56", "12.34.56", "12:34:56 PM", "pm 5", "AM 7", "59", "5,5", "5.5", "59.25"})
                    no_l<std::tm>(t, f);
        }
    enter(envs[0]);
    return R.finish();
}
