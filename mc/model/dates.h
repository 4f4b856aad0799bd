// Independent model of date and time formats (no scnlib code in here).
#pragma once
#include "../text.h"
#include <cctype>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace dates {

enum Code { ok = -1, eof = 0, badfmt = 1, badval = 2, badlit = 3 };

// the fields a type has / must be given
enum Field { F_sub, F_sec, F_min, F_hour, F_mday, F_mon, F_year, F_wday, F_yday, F_tzoff, F_tzname, nfields };
struct Type {
    const char* name;
    unsigned can, must;
};
constexpr unsigned bit(Field f) { return 1u << f; }
constexpr unsigned all_fields = (1u << nfields) - 1;

// One element of a format after the optional L: '%' specifier (with modifier
// 0, 'E' or 'O'), white space, or a literal code point
struct Item {
    char kind;  // '%', ' ', 'l', '!' (malformed)
    std::string spec;
    std::string lit;
};

inline std::vector<Item> split(std::string_view f)
{
    std::vector<Item> v;
    size_t i = 0;
    while (i < f.size()) {
        if (f[i] == '%') {
            if (i + 1 >= f.size()) {
                v.push_back({'!', "", ""});
                break;
            }
            std::string s(1, f[i + 1]);
            size_t n = 2;
            if (s == "E" || s == "O") {
                if (i + 2 >= f.size()) {
                    v.push_back({'!', "", ""});
                    break;
                }
                s += f[i + 2];
                n = 3;
            }
            else if (s == ".") {
                size_t k = i + 2;
                std::string m = ".";
                if (k < f.size() && (f[k] == 'E' || f[k] == 'O')) m += f[k++];
                if (k >= f.size() || f[k] != 'S') {
                    v.push_back({'!', "", ""});
                    break;
                }
                s = m + "S";
                n = k - i + 1;
            }
            if (s == "%") v.push_back({'l', "", "%"});
            else if (s == "n" || s == "t") v.push_back({' ', "", ""});
            else v.push_back({'%', s, ""});
            i += n;
            continue;
        }
        char32_t c{};
        int n = txt::dec8(f.substr(i), c);
        if (n == 0) {
            v.push_back({'!', "", ""});
            break;
        }
        if (txt::is_space(c)) v.push_back({' ', "", ""});
        else v.push_back({'l', "", std::string(f.substr(i, size_t(n)))});
        i += size_t(n);
    }
    return v;
}

// what a specifier sets; empty: not available
inline std::vector<std::string> sets_of(const std::string& s)
{
    static const std::map<std::string, std::vector<std::string>> m = {
        {"Y", {"Y"}}, {"EY", {"Y"}}, {"y", {"y"}}, {"Oy", {"y"}}, {"C", {"C"}}, {"EC", {"C"}},
        {"b", {"m"}}, {"B", {"m"}}, {"h", {"m"}}, {"m", {"m"}}, {"Om", {"m"}},
        {"j", {"j"}}, {"d", {"d"}}, {"e", {"d"}}, {"Od", {"d"}}, {"Oe", {"d"}},
        {"a", {"w"}}, {"A", {"w"}}, {"w", {"w"}}, {"u", {"w"}}, {"Ow", {"w"}}, {"Ou", {"w"}},
        {"H", {"H"}}, {"k", {"H"}}, {"OH", {"H"}}, {"Ok", {"H"}}, {"I", {"I"}}, {"l", {"I"}}, {"OI", {"I"}}, {"Ol", {"I"}},
        {"M", {"M"}}, {"OM", {"M"}}, {"S", {"S"}}, {"OS", {"S"}},
        {".S", {"S", "."}}, {".ES", {"S", "."}}, {".OS", {"S", "."}},
        {"z", {"z"}}, {"Ez", {"z"}}, {"Oz", {"z"}}, {"Z", {"Z"}},
        {"c", {"Y", "m", "d", "H", "M", "S"}}, {"Ec", {"Y", "m", "d", "H", "M", "S"}},
        {"x", {"Y", "m", "d"}}, {"Ex", {"Y", "m", "d"}}, {"X", {"H", "M", "S"}}, {"EX", {"H", "M", "S"}},
        {"D", {"m", "d", "y"}}, {"F", {"Y", "m", "d"}}, {"r", {"I", "M", "S", "p"}},
        {"R", {"H", "M"}}, {"T", {"H", "M", "S"}}, {"p", {"p"}}, {"P", {"p"}},
    };
    auto it = m.find(s);
    return it == m.end() ? std::vector<std::string>{} : it->second;
}
inline Field field_of(char c)
{
    switch (c) {
        case '.': return F_sub;
        case 'S': return F_sec;
        case 'M': return F_min;
        case 'H': case 'I': case 'p': return F_hour;
        case 'd': return F_mday;
        case 'm': return F_mon;
        case 'Y': case 'y': case 'C': return F_year;
        case 'w': return F_wday;
        case 'j': return F_yday;
        case 'z': return F_tzoff;
        default: return F_tzname;
    }
}

// is the format valid for the type?
inline bool valid(std::string_view f, const Type& t)
{
    if (!f.empty() && f[0] == 'L') f.remove_prefix(1);
    if (f.empty() || f[0] != '%') return false;
    std::map<char, int> n;
    for (auto& it : split(f)) {
        if (it.kind == '!') return false;
        if (it.kind != '%') continue;
        auto s = sets_of(it.spec);
        if (s.empty()) return false;
        for (auto& x : s) {
            ++n[x[0]];
            if (!(t.can & bit(field_of(x[0])))) return false;
        }
    }
    unsigned got = 0;
    for (auto& [c, k] : n) {
        if (k > 1) return false;
        if (c != 'p') got |= bit(field_of(c));
    }
    auto has = [&](char c) { return n.count(c) != 0; };
    if ((t.must & got) != t.must) return false;
    if (has('H') && (has('I') || has('p'))) return false;
    if (has('p') && !has('I')) return false;
    if (has('Y') && (has('C') || has('y'))) return false;
    if (has('z') && has('Z')) return false;
    if (int(has('w')) + int(has('d')) + int(has('j')) > 1) return false;
    return true;
}

struct Value {
    std::optional<std::string> sub;  // digits behind the point
    std::optional<int> sec, min, hour, mday, mon, year, wday, yday, tzoff;
    std::optional<std::string> tzname;
};
struct Res {
    int code = ok;
    Value v;
    size_t end = 0;
};

class Reader {
    std::string_view s;
    size_t p;
    Value v;
    int code = ok;
    std::optional<int> cent, sy;
    bool h12 = false;
    std::optional<bool> pm;

    bool bad(int c)
    {
        code = c;
        return false;
    }
    void ws()
    {
        for (;;) {
            char32_t c{};
            int n = txt::dec8(s.substr(p), c);
            if (!n || !txt::is_space(c)) return;
            p += size_t(n);
        }
    }
    bool num(int lo, int hi, int& out)
    {
        out = 0;
        int k = 0;
        while (k < hi && p < s.size() && s[p] >= '0' && s[p] <= '9') {
            out = out * 10 + (s[p++] - '0');
            ++k;
        }
        return k < lo ? bad(badval) : true;
    }
    bool ranged(int lo, int hi, int min, int max, std::optional<int>& f, int add = 0)
    {
        int x;
        if (!num(lo, hi, x)) return false;
        if (x < min || x > max) return bad(badval);
        f = x + add;
        return true;
    }
    bool lit(std::string_view l)
    {
        for (char c : l) {
            if (p == s.size()) return bad(eof);
            if (s[p] != c) return bad(badlit);
            ++p;
        }
        return true;
    }
    static bool same(char a, char b)
    {
        auto lo = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
        return lo(a) == lo(b);
    }
    int one_of(const std::vector<std::string>& o)
    {
        int best = -1;
        for (size_t i = 0; i < o.size(); ++i) {
            if (s.size() - p < o[i].size()) continue;
            bool m = true;
            for (size_t k = 0; k < o[i].size(); ++k) m = m && same(s[p + k], o[i][k]);
            if (m && (best < 0 || o[size_t(best)].size() < o[i].size())) best = int(i);
        }
        if (best >= 0) p += o[size_t(best)].size();
        return best;
    }
    bool weekday(std::optional<int>& f)
    {
        static const std::vector<std::string> n = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday",
                                                   "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
        int i = one_of(n);
        if (i < 0) return bad(badval);
        f = i % 7;
        return true;
    }
    bool monthname()
    {
        static const std::vector<std::string> n = {
            "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December",
            "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
        int i = one_of(n);
        if (i < 0) return bad(badval);
        v.mon = i % 12 + 1;
        return true;
    }
    bool digit() const { return p < s.size() && s[p] >= '0' && s[p] <= '9'; }
    bool tz(bool alt)
    {
        if (p == s.size()) return bad(eof);
        int sg = 1;
        if (s[p] == '+' || s[p] == '-') sg = s[p++] == '-' ? -1 : 1;
        if (p == s.size()) return bad(eof);
        int h = 0, m = 0;
        if (!num(alt ? 1 : 2, 2, h)) return false;
        if (p < s.size() && s[p] == ':') {
            ++p;
            if (!digit()) --p;
            else if (!num(2, 2, m)) return false;
        }
        else if (!alt && digit() && !num(2, 2, m))
            return false;
        if (h > 23 || m > 59) return bad(badval);
        v.tzoff = sg * (h * 60 + m);
        return true;
    }
    bool one(const std::string& sp)
    {
        char c = sp.back();
        if (sp[0] == '.') {
            if (!ranged(1, 2, 0, 60, v.sec)) return false;
            if (p == s.size() || s[p] != '.') return bad(badval);
            ++p;
            size_t b = p;
            while (digit()) ++p;
            if (b == p) return bad(badval);
            v.sub = std::string(s.substr(b, p - b));
            return true;
        }
        switch (c) {
            case 'Y': return ranged(4, 4, 0, 9999, v.year);
            case 'y': return ranged(2, 2, 0, 99, sy);
            case 'C': return ranged(2, 2, 0, 99, cent);
            case 'b': case 'B': case 'h': return monthname();
            case 'm': return ranged(1, 2, 1, 12, v.mon);
            case 'j': return ranged(1, 3, 1, 366, v.yday, -1);
            case 'd': case 'e': return ranged(1, 2, 1, 31, v.mday);
            case 'a': case 'A': return weekday(v.wday);
            case 'w': return ranged(1, 1, 0, 6, v.wday);
            case 'u':
                if (!ranged(1, 1, 1, 7, v.wday)) return false;
                v.wday = *v.wday % 7;
                return true;
            case 'H': case 'k': return ranged(1, 2, 0, 23, v.hour);
            case 'I': case 'l': h12 = true; return ranged(1, 2, 1, 12, v.hour);
            case 'M': return ranged(1, 2, 0, 59, v.min);
            case 'S': return ranged(1, 2, 0, 60, v.sec);
            case 'z': return tz(sp.size() > 1);
            case 'Z': {
                size_t b = p;
                while (p < s.size() && (isalnum((unsigned char)s[p]) && (unsigned char)s[p] < 128 || (s[p] && strchr("-+_/", s[p])))) ++p;
                if (b == p) return bad(badval);
                v.tzname = std::string(s.substr(b, p - b));
                return true;
            }
            case 'c': {
                std::optional<int> dummy;
                if (!weekday(dummy)) return false;
                ws();
                if (!monthname()) return false;
                ws();
                if (!one("d")) return false;
                ws();
                if (!one("T")) return false;
                ws();
                return one("Y");
            }
            case 'x': return one("m") && lit("/") && one("d") && lit("/") && one("Y");
            case 'D': return one("m") && lit("/") && one("d") && lit("/") && one("y");
            case 'F': return one("Y") && lit("-") && one("m") && lit("-") && one("d");
            case 'R': return one("H") && lit(":") && one("M");
            case 'X': case 'T': return one("H") && lit(":") && one("M") && lit(":") && one("S");
            case 'r':
                if (!(one("I") && lit(":") && one("M") && lit(":") && one("S"))) return false;
                ws();
                return one("p");
            case 'p': case 'P': {
                int i = one_of({"am", "a.m.", "pm", "p.m."});
                if (i < 0) return bad(badval);
                pm = i >= 2;
                return true;
            }
            default: return bad(badfmt);
        }
    }

public:
    Res run(std::string_view text, std::string_view fmt)
    {
        s = text;
        p = 0;
        ws();
        if (p == s.size()) return {eof, {}, 0};
        for (auto& it : split(fmt)) {
            bool g = true;
            if (it.kind == ' ') ws();
            else if (it.kind == 'l') g = lit(it.lit);
            else g = one(it.spec);
            if (!g) return {code, {}, 0};
        }
        if (h12 && pm) v.hour = *v.hour % 12 + (*pm ? 12 : 0);
        if (cent && sy) v.year = *cent * 100 + *sy;
        else if (sy) v.year = *sy + (*sy >= 69 ? 1900 : 2000);
        else if (cent) v.year = *cent * 100;
        return {ok, v, p};
    }
};

inline Res read(std::string_view text, std::string_view fmt, const Type& t)
{
    if (!valid(fmt, t)) return {badfmt, {}, 0};
    return Reader{}.run(text, fmt);
}

}  // namespace dates
