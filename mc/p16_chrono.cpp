// P16: dates and times are validated field by field.
#include "sources.h"
#include "text.h"
#include "model/dates.h"
#include <scn/chrono.h>
#include <locale>
#include <sstream>
using mc::Run;
using src::CookieFile;
using Toks = std::vector<std::string>;
using namespace dates;

static const Type ty_tm = {"tm", all_fields & ~bit(F_sub) & ~bit(F_tzname), 0};
static const Type ty_tz = {"tm_with_tz", all_fields & ~bit(F_sub), 0};
static const Type ty_dt = {"datetime", all_fields, 0};
static const Type ty_wd = {"weekday", bit(F_wday), bit(F_wday)};
static const Type ty_d = {"day", bit(F_mday), bit(F_mday)};
static const Type ty_m = {"month", bit(F_mon), bit(F_mon)};
static const Type ty_y = {"year", bit(F_year), bit(F_year)};
static const Type ty_md = {"month_day", bit(F_mon) | bit(F_mday), bit(F_mon) | bit(F_mday)};
static const Type ty_ym = {"year_month", bit(F_mon) | bit(F_year), bit(F_mon) | bit(F_year)};
static const Type ty_ymd = {"year_month_day", bit(F_mon) | bit(F_year) | bit(F_mday), bit(F_mon) | bit(F_year) | bit(F_mday)};

static double subval(const std::string& digits)
{
    // correctly rounded by libc, and kept below one
    return std::min(std::strtod(("0." + digits).c_str(), nullptr), std::nextafter(1.0, 0.0));
}
static std::string S(long v) { return std::to_string(v); }
static std::string tmstr(long sec, long min, long hour, long mday, long mon, long year, long wday, long yday, long off)
{
    return S(year) + "-" + S(mon) + "-" + S(mday) + " " + S(hour) + ":" + S(min) + ":" + S(sec) + " w" + S(wday) + " y" + S(yday) + " z" + S(off);
}
static std::string tmstr(const std::tm& t)
{
    return tmstr(t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_gmtoff);
}
static std::string tmstr(const Value& v)
{
    return tmstr(v.sec.value_or(0), v.min.value_or(0), v.hour.value_or(0), v.mday.value_or(0), v.mon ? *v.mon - 1 : 0,
                 v.year ? *v.year - 1900 : 0, v.wday.value_or(0), v.yday.value_or(0), v.tzoff.value_or(0) * 60);
}
template <typename O>
static std::string ostr(const O& o)
{
    return o ? S(long(*o)) : "-";
}
static std::string dbl(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

// as text: what the library gave, and what the model says
static std::string got(const std::tm& t) { return tmstr(t); }
static std::string want(const Value& v, const std::tm*) { return tmstr(v); }
static std::string got(const scn::tm_with_tz& t)
{
    return tmstr(t) + " " + (t.tz_offset ? S(t.tz_offset->count()) : "-") + " " + (t.tz_name ? *t.tz_name : "-");
}
static std::string want(const Value& v, const scn::tm_with_tz*)
{
    return tmstr(v) + " " + ostr(v.tzoff) + " " + (v.tzname ? *v.tzname : "-");
}
static std::string got(const scn::datetime_components& t)
{
    return (t.subsec ? dbl(*t.subsec) : "-") + " " + ostr(t.sec) + " " + ostr(t.min) + " " + ostr(t.hour) + " " + ostr(t.mday) + " " +
           (t.mon ? S(long(unsigned(*t.mon))) : "-") + " " + ostr(t.year) + " " + (t.wday ? S(long(t.wday->c_encoding())) : "-") + " " +
           ostr(t.yday) + " " + (t.tz_offset ? S(t.tz_offset->count()) : "-") + " " + (t.tz_name ? *t.tz_name : "-");
}
static std::string want(const Value& v, const scn::datetime_components*)
{
    return (v.sub ? dbl(subval(*v.sub)) : "-") + " " + ostr(v.sec) + " " + ostr(v.min) + " " + ostr(v.hour) + " " + ostr(v.mday) + " " +
           ostr(v.mon) + " " + ostr(v.year) + " " + ostr(v.wday) + " " + ostr(v.yday) + " " + ostr(v.tzoff) + " " + (v.tzname ? *v.tzname : "-");
}
static std::string got(const scn::weekday& t) { return S(long(t.c_encoding())); }
static std::string want(const Value& v, const scn::weekday*) { return ostr(v.wday); }
static std::string got(const scn::day& t) { return S(long(unsigned(t))); }
static std::string want(const Value& v, const scn::day*) { return ostr(v.mday); }
static std::string got(const scn::month& t) { return S(long(unsigned(t))); }
static std::string want(const Value& v, const scn::month*) { return ostr(v.mon); }
static std::string got(const scn::year& t) { return S(long(int(t))); }
static std::string want(const Value& v, const scn::year*) { return ostr(v.year); }
static std::string got(const scn::month_day& t) { return got(t.month()) + " " + got(t.day()); }
static std::string want(const Value& v, const scn::month_day*) { return ostr(v.mon) + " " + ostr(v.mday); }
static std::string got(const scn::year_month& t) { return got(t.year()) + " " + got(t.month()); }
static std::string want(const Value& v, const scn::year_month*) { return ostr(v.year) + " " + ostr(v.mon); }
static std::string got(const scn::year_month_day& t) { return got(t.year()) + " " + got(t.month()) + " " + got(t.day()); }
static std::string want(const Value& v, const scn::year_month_day*) { return ostr(v.year) + " " + ostr(v.mon) + " " + ostr(v.mday); }

template <typename R>
static std::string outcome(const R& r, long consumed)
{
    if (!r) return std::string("err:") + src::code_name(r.error().code());
    return "ok " + got(r->value()) + " @" + S(consumed);
}

// one case: a format and a text for one type, on the sources asked for
template <typename T>
static void one(const Type& t, const std::string& spec, const std::string& in, bool more)
{
    auto& R = Run::get();
    auto mk = [&] { return std::string(t.name) + "|" + mc::esc(spec) + "|" + mc::esc(in); };
    if (!R.take(mk)) return;
    auto m = dates::read(in, spec, t);
    std::string w = m.code == ok ? "ok " + want(m.v, static_cast<const T*>(nullptr)) + " @" : std::string("err:") + src::code_name(m.code);
    auto cmp = [&](const char* kind, const std::string& g, long end) {
        ++R.calls;
        ++R.checks;
        std::string e = m.code == ok ? w + S(end) : w;
        if (g != e) R.fail(std::string(kind) + "|" + mk(), "got " + g + ", expected " + e);
    };
    std::string fmt = "{:" + spec + "}";
    {
        auto r = scn::scan<T>(std::string_view(in), scn::runtime_format(fmt));
        auto g = outcome(r, r ? long(in.size() - r->range().size()) : 0);
        cmp("string_view", g, long(m.end));
        R.outcome(g);
    }
    if (!more) return;
    {
        std::list<char> l(in.begin(), in.end());
        auto r = scn::scan<T>(l, scn::runtime_format(fmt));
        cmp("list", outcome(r, r ? long(std::distance(l.begin(), r->range().begin())) : 0), long(m.end));
    }
    for (uint64_t cuts : {uint64_t(0), ~uint64_t(0)}) {
        CookieFile cf(in, cuts);
        auto r = scn::scan<T>(cf.f, scn::runtime_format(fmt));
        auto rest = cf.rest();
        cmp("FILE", outcome(r, long(in.size() - rest.size())), long(m.end));
        if (!r && rest != in) R.fail("FILE|" + mk(), "a failed scan consumed text");
    }
    auto wi = txt::to_wide(in), wf = txt::to_wide(fmt);
    if (wi && wf) {
        auto r = scn::scan<T>(std::wstring_view(*wi), scn::runtime_format(std::wstring_view(*wf)));
        cmp("wide", outcome(r, r ? long(wi->size() - r->range().size()) : 0), long(txt::dec(in.substr(0, m.end)) ? txt::dec(in.substr(0, m.end))->size() : 0));
    }
}
static void main3(const std::string& spec, const std::string& in, bool more = false)
{
    one<std::tm>(ty_tm, spec, in, more);
    one<scn::datetime_components>(ty_dt, spec, in, more);
}
static void all_types(const std::string& spec, const std::string& in, bool more = false)
{
    one<std::tm>(ty_tm, spec, in, more);
    one<scn::tm_with_tz>(ty_tz, spec, in, more);
    one<scn::datetime_components>(ty_dt, spec, in, more);
    one<scn::weekday>(ty_wd, spec, in, more);
    one<scn::day>(ty_d, spec, in, more);
    one<scn::month>(ty_m, spec, in, more);
    one<scn::year>(ty_y, spec, in, more);
    one<scn::month_day>(ty_md, spec, in, more);
    one<scn::year_month>(ty_ym, spec, in, more);
    one<scn::year_month_day>(ty_ymd, spec, in, more);
}

static const Toks specs = {"%Y", "%EY", "%y", "%Oy", "%C", "%EC", "%G", "%g", "%Ey", "%b", "%B", "%h", "%m", "%Om", "%U", "%OU", "%W", "%OW", "%V",
                           "%j", "%d", "%e", "%Od", "%Oe", "%a", "%A", "%w", "%u", "%Ow", "%Ou", "%H", "%k", "%OH", "%Ok", "%I", "%l", "%OI", "%Ol", "%M",
                           "%OM", "%S", "%OS", "%.S", "%.ES", "%.OS", "%z", "%Ez", "%Oz", "%Z", "%c", "%Ec", "%x", "%Ex", "%X", "%EX", "%D", "%F", "%r",
                           "%R", "%T", "%p", "%P", "%s", "%Q", "%q", "%n", "%t", "%%", "%", "%E", "%O", "%.", "%Ed", "%OY", "%f", "%N"};
// a text that a specifier reads, for building texts from formats
static std::string sample(const std::string& sp, int variant)
{
    if (sp.size() < 2) return "7";
    static const std::map<char, Toks> m = {
        {'Y', {"2024", "0001"}}, {'y', {"68", "69"}}, {'C', {"19", "00"}}, {'G', {"2024", "1"}}, {'g', {"24", "1"}}, {'b', {"jan", "May"}},
        {'B', {"August", "sept"}}, {'h', {"Dec", "june"}}, {'m', {"12", "1"}}, {'j', {"366", "1"}}, {'d', {"31", "1"}}, {'e', {"09", "9"}},
        {'a', {"Sat", "sunday"}}, {'A', {"Wednesday", "thu"}}, {'w', {"6", "0"}}, {'u', {"7", "1"}}, {'H', {"23", "0"}}, {'k', {"08", "7"}},
        {'I', {"12", "1"}}, {'l', {"11", "01"}}, {'M', {"59", "0"}}, {'S', {"60", "1"}}, {'z', {"+0530", "-12:00"}}, {'Z', {"Europe/Berlin", "UTC"}},
        {'c', {"Mon Jan 1 01:02:03 2024", "Sun  Feb 29 23:59:60 2000"}}, {'x', {"12/31/1999", "1/2/2003"}}, {'X', {"01:02:03", "1:2:3"}},
        {'D', {"12/31/99", "1/2/03"}}, {'F', {"2024-02-30", "0000-1-1"}}, {'r', {"12:01:02 AM", "1:2:3 p.m."}}, {'R', {"23:59", "0:0"}},
        {'T', {"12:30:59", "1:1:1"}}, {'p', {"PM", "a.m."}}, {'P', {"am", "p.m."}}, {'n', {" ", ""}}, {'t', {"\t\n", " "}}, {'%', {"%", "%"}}};
    if (sp[1] == '.') return variant ? "59.999" : "0.5";
    if (sp == "%Ez" || sp == "%Oz") return variant ? "+5" : "-5:30";
    auto it = m.find(sp.back());
    if (it == m.end()) return "1";
    return it->second[size_t(variant)];
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    ::setenv("TZ", "UTC", 1);

    if (R.group("single specifier, all short texts")) {
        const Toks al = {"0", "1", "2", "3", "5", "6", "9", "+", "-", ":", "/", ".", " ", "x", "\xc3\xa4"};
        for (auto& sp : specs)
            mc::for_strings(al, 0, th ? 5 : 4, [&](const std::string& in) { main3(sp, in); });
        for (auto& sp : specs)
            mc::for_strings(al, 0, 2, [&](const std::string& in) { all_types(sp, in, true); });
    }
    if (R.group("all numbers")) {
        for (auto& sp : specs)
            for (int n = 0; n < 10000; ++n)
                for (int wdt = 1; wdt <= 5; ++wdt) {
                    char b[16];
                    snprintf(b, sizeof b, "%0*d", wdt, n);
                    if (int(strlen(b)) > wdt) continue;
                    for (auto* tail : {"", "a"}) {
                        if (wdt < 4 || n % 7 == 0) one<scn::datetime_components>(ty_dt, sp, std::string(b) + tail, false);
                        one<std::tm>(ty_tm, sp, std::string(b) + tail, false);
                    }
                }
        for (int n = 0; n < 10000; ++n) {
            char b[16];
            snprintf(b, sizeof b, "%04d", n);
            for (auto* f : {"%C%y", "%y%C", "%H%M", "%M%S", "%m%d", "%I%M"}) all_types(f, b);
            for (auto* f : {"%z", "%Ez"})
                for (auto* sg : {"+", "-", ""}) {
                    std::string z = sg + std::string(b);
                    one<scn::tm_with_tz>(ty_tz, f, z, false);
                    one<scn::tm_with_tz>(ty_tz, f, z.substr(0, z.size() - 2) + ":" + z.substr(z.size() - 2), false);
                    one<std::tm>(ty_tm, f, z, false);
                    one<scn::datetime_components>(ty_dt, f, z.substr(0, z.size() - 2) + ":" + z.substr(z.size() - 2), false);
                }
        }
    }
    if (R.group("names")) {
        const Toks names = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "January", "February", "March", "April", "May", "June",
                            "July", "August", "September", "October", "November", "December", "am", "pm", "a.m.", "p.m."};
        const Toks nsp = {"%a", "%A", "%b", "%B", "%h", "%I:%M %p", "%I%P", "%p %I"};
        for (auto& sp : nsp)
            for (auto& nm : names) {
                auto put = [&](const std::string& x, bool more = false) {
                    std::string in = sp == "%I:%M %p" ? "12:30 " + x : sp == "%I%P" ? "1" + x : sp == "%p %I" ? x + " 12" : x;
                    main3(sp, in, more);
                    one<scn::weekday>(ty_wd, sp, in, more);
                    one<scn::month>(ty_m, sp, in, more);
                };
                for (size_t k = 0; k <= nm.size(); ++k)
                    for (auto* tail : {"", " ", "x", ".", "day", "1"}) put(nm.substr(0, k) + tail, true);
                for (unsigned mask = 0; mask < (1u << nm.size()); ++mask) {
                    std::string x = nm;
                    for (size_t k = 0; k < nm.size(); ++k)
                        if (isalpha((unsigned char)x[k])) x[k] = (mask >> k) & 1 ? char(x[k] | 32) : char(x[k] & ~32);
                    put(x);
                }
                for (size_t k = 0; k < nm.size(); ++k)
                    for (int b = 0; b < 256; ++b) {
                        std::string x = nm;
                        x[k] = char(b);
                        put(x);
                    }
            }
    }
    if (R.group("composites: every single change")) {
        const Toks base = {"%T|12:30:59", "%R|09:05", "%D|12/31/99", "%F|2024-02-29", "%r|12:00:60 PM", "%r|1:2:3a.m.", "%c|Mon Jan 02 03:04:05 2006",
                           "%c|saturday  december 31 23:59:60 1999", "%x|12/31/1999", "%X|23:59:60", "%Y-%m-%dT%H:%M:%S%z|2024-12-31T23:59:60+01:30",
                           "%Y-%m-%d %H:%M:%.S|2024-12-31 23:59:59.125", "%d.%m.%y %Z|31.12.69 CET", "%A, %I %p|Tuesday, 11 pm", "%j/%C%y|366/2000",
                           "%Ex%t%EX|1/1/2001 1:1:1", "%Ec|Mon Jan 2 3:4:5 2006", "%H\xc3\xa4%M\xe2\x80\xa8%S|1\xc3\xa4" "2 3", "%H  %M|1\xc2\x85\t2", "%%%Y%n%m|%2024\n12"};
        const Toks sub = {"", "0", "1", "2", "3", "4", "5", "6", "7", "9", ":", "/", "-", "+", ".", " ", "a", "P", "\xc3\xa4", "\xff", "\xe2\x80\xa8"};
        for (auto& b : base) {
            auto bar = b.find('|');
            auto f = b.substr(0, bar), t = b.substr(bar + 1);
            for (auto& ff : {f, "L" + f}) {
                if (ff[0] == 'L') continue;
                // a character with the same low byte in place of each character
                for (size_t i = 0; i < t.size(); ++i)
                    for (char32_t page : {0x100, 0x2000, 0xff00, 0x10000})
                        if ((unsigned char)t[i] < 128) {
                            main3(ff, t.substr(0, i) + txt::alike(t[i], page) + t.substr(i + 1), true);
                            main3(ff, t.substr(0, i) + txt::alike(t[i], page), true);
                        }
                for (size_t i = 0; i <= t.size(); ++i)
                    for (auto& s : sub) {
                        main3(ff, t.substr(0, i) + s + t.substr(i), i % 3 == 0);                                        // insert
                        one<scn::tm_with_tz>(ty_tz, ff, t.substr(0, i) + s + t.substr(i), false);
                        if (i < t.size()) main3(ff, t.substr(0, i) + s + t.substr(i + 1), i % 3 == 0);                  // replace
                        if (i < t.size()) main3(ff, t.substr(0, i) + s, i % 3 == 0);                                    // cut
                        if (i < t.size()) one<scn::year_month_day>(ty_ymd, ff, t.substr(0, i) + s + t.substr(i + 1), false);
                        for (size_t j = i + 1; j < t.size() && th; ++j)
                            for (auto& s2 : sub) main3(ff, t.substr(0, i) + s + t.substr(i + 1, j - i - 1) + s2 + t.substr(j + 1));
                    }
            }
        }
    }
    if (R.group("every character")) {
        // in and behind a text, for every specifier; every ASCII character and
        // many others in a time zone name and as a part of the format
        for (auto& sp : specs) {
            std::string x = sample(sp, 0);
            for (int b = 0; b < 256; ++b)
                for (auto& in : {x + char(b), std::string(1, char(b)) + x, x.substr(0, x.size() / 2) + char(b) + x.substr(x.size() / 2), std::string(1, char(b))}) {
                    main3(sp, in, b < 128);
                    one<scn::tm_with_tz>(ty_tz, sp, in, b < 128);
                }
        }
        Toks chars;
        for (int b = 0; b < 256; ++b) chars.push_back(std::string(1, char(b)));
        for (char32_t c = 0x80; c < 0x3100; ++c) chars.push_back(txt::enc8(c));
        for (char32_t c : {0xfeff, 0xff0d, 0xff1a, 0x10000, 0x10ffff}) chars.push_back(txt::enc8(c));
        for (auto& c : chars) {
            for (auto& in : {"A" + c + "B", c, "AB" + c}) {
                one<scn::tm_with_tz>(ty_tz, "%Z", in, c.size() < 3);
                one<scn::datetime_components>(ty_dt, "%Z", in, c.size() < 3);
            }
            if (c == "%" || c == "{" || c == "}") continue;
            for (auto& f : {"%H" + c + "%M", "%H" + c, "%H%%" + c + "%M"})
                for (auto& mid : {c, std::string(" "), std::string("\r\n\v\f"), std::string(), std::string("\xe2\x80\xa8 "), c + c, std::string("%") + c})
                    for (auto* tail : {"02", "", " 02"}) main3(f, "1" + mid + tail, c.size() < 2);
        }
    }
    if (R.group("ill-formed wide characters")) {
        for (unsigned long c : {0xd800ul, 0xdbfful, 0xdc00ul, 0xdffful, 0x110000ul, 0x110020ul, 0x1ffffful, 0x7ffffffful})
            for (auto* f : {L"%H@%M", L"%H@", L"%H%%@%M", L"%@", L"%E@", L"%.@", L"@%H"})
                for (auto* in : {L"1@2", L"1 2", L"12", L"@1", L"1%@2"}) {
                    std::wstring wf = std::wstring(L"{:") + f + L"}", wi = in;
                    for (auto& x : wf) if (x == L'@') x = wchar_t(c);
                    for (auto& x : wi) if (x == L'@') x = wchar_t(c);
                    auto key = [&] { return "wide|" + S(long(c)) + "|" + std::string(wf.size(), 'x') + S(long(f[1])) + "|" + S(long(wi.size())); };
                    if (!R.take(key)) continue;
                    auto r = scn::scan<scn::datetime_components>(std::wstring_view(wi), scn::runtime_format(std::wstring_view(wf)));
                    auto q = scn::scan<std::tm>(std::wstring_view(wi), scn::runtime_format(std::wstring_view(wf)));
                    R.calls += 2;
                    ++R.checks;
                    if (r || q || int(r.error().code()) != badfmt || int(q.error().code()) != badfmt) R.fail(key(), "an ill-formed format was accepted");
                }
        // in the text: ends a time zone name, and is no literal
        for (unsigned long c : {0xd800ul, 0xdffful, 0x110000ul, 0x110041ul, 0x7ffffffful, 0xffffff41ul}) {
            auto key = [&] { return "wide text|" + S(long(c)); };
            if (!R.take(key)) continue;
            std::wstring in = L"AB";
            in += wchar_t(c);
            auto r = scn::scan<scn::tm_with_tz>(std::wstring_view(in), scn::runtime_format(std::wstring_view(L"{:%Z}")));
            ++R.calls;
            ++R.checks;
            if (r && (r->value().tz_name != "AB" || r->range().size() != 1)) R.fail(key(), "took an ill-formed character");
        }
    }
    if (R.group("field limits in combination")) {
        auto nums = [](std::initializer_list<int> l) { return std::vector<int>(l); };
        for (int h : nums({0, 1, 9, 11, 12, 13, 23, 24, 25}))
            for (int m : nums({0, 1, 9, 59, 60}))
                for (int s : nums({0, 5, 59, 60, 61}))
                    for (int pad = 0; pad < 8; ++pad) {
                        char b[40];
                        snprintf(b, sizeof b, "%0*d:%0*d:%0*d", pad & 1 ? 2 : 1, h, pad & 2 ? 2 : 1, m, pad & 4 ? 2 : 1, s);
                        for (auto* f : {"%T", "%X", "%H:%M:%S", "%k:%OM:%S"}) main3(f, b);
                        for (auto* ap : {"am", "PM", " a.m.", " P.m.", "", "x"})
                            for (auto* f : {"%r", "%I:%M:%S %p"}) main3(f, std::string(b) + ap);
                        for (auto* fr : {".0", ".5", ".999", ".", "", ".25x", ".-1", "..5"}) main3("%H:%M:%.S", std::string(b) + fr);
                    }
        for (int y : nums({0, 1, 99, 1582, 1899, 1900, 1969, 1970, 2024, 2038, 9999}))
            for (int m = 0; m <= 13; ++m)
                for (int d = 0; d <= 32; ++d) {
                    char b[40];
                    snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
                    all_types("%F", b);
                    all_types("%Y-%m-%d", b);
                    snprintf(b, sizeof b, "%d/%d/%02d", m, d, y % 100);
                    all_types("%D", b);
                    snprintf(b, sizeof b, "%d/%d/%04d", m, d, y);
                    all_types("%x", b);
                }
    }
    if (R.group("all formats of up to three parts")) {
        Toks parts = specs;
        for (auto* l : {"-", " ", "a", "\xc3\xa4", "\xe2\x80\xa8", "\xff", "L", "0"}) parts.push_back(l);
        mc::for_seqs(parts, 0, 3, [&](const std::vector<int>& ix) {
            std::string f, t0, t1;
            for (int i : ix) {
                auto& p = parts[size_t(i)];
                f += p;
                t0 += p[0] == '%' ? sample(p, 0) : p;
                t1 += p[0] == '%' ? sample(p, 1) : p;
            }
            if (!f.empty() && f[0] == 'L') return;
            if (ix.size() <= 2) {
                all_types(f, t0, true);
                all_types(f, t1, false);
                all_types(f, "", false);
            }
            else {
                all_types(f, t0, false);
                if (th) all_types(f, t1, false);
            }
        });
    }
    if (R.group("subseconds")) {
        Toks d = {"0", "1", "5", "9"};
        mc::for_strings(d, 1, 8, [&](const std::string& s) { one<scn::datetime_components>(ty_dt, "%.S", "7." + s, false); });
        for (int n = 1; n < 40; ++n)
            for (auto* c : {"0", "1", "4", "9"}) {
                std::string s;
                for (int k = 0; k < n; ++k) s += c;
                for (auto* tail : {"", "1", "5", " ", "e3"}) one<scn::datetime_components>(ty_dt, "%.S", "60." + s + tail, true);
            }
    }
    if (R.group("time points")) {
        auto tp = [&](const std::string& f, const std::string& in, std::optional<long long> ns) {
            if (!R.take([&] { return "time_point|" + f + "|" + in; })) return;
            using namespace std::chrono;
            auto cmp = [&](auto unit, const char* n) {
                using D = decltype(unit);
                auto r = scn::scan<time_point<system_clock, D>>(in, scn::runtime_format("{:" + f + "}"));
                ++R.calls;
                ++R.checks;
                bool okv = bool(r) == ns.has_value();
                if (okv && r) okv = r->value().time_since_epoch() == duration_cast<D>(nanoseconds{*ns}) && r->range().empty();
                if (!okv)
                    R.fail(std::string("time_point ") + n + "|" + f + "|" + in, r ? "got " + S(long(r->value().time_since_epoch().count())) : std::string("got error ") + src::code_name(r.error().code()));
            };
            cmp(seconds{}, "s");
            cmp(milliseconds{}, "ms");
            cmp(microseconds{}, "us");
            cmp(nanoseconds{}, "ns");
            cmp(minutes{}, "min");
        };
        for (int y : {1970, 1971, 1999, 2000, 2023, 2024, 2100})
            for (int m = 1; m <= 12; ++m)
                for (int d : {1, 15, 28})
                    for (int h : {0, 1, 12, 23}) {
                        char b[64];
                        std::tm t{};
                        t.tm_year = y - 1900, t.tm_mon = m - 1, t.tm_mday = d, t.tm_hour = h, t.tm_min = 59, t.tm_sec = 7;
                        long long s = timegm(&t);
                        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:59:07", y, m, d, h);
                        tp("%F %T", b, s * 1000000000LL);
                        tp("%Y-%m-%d %H:%M:%S", b, s * 1000000000LL);
                        tp("%Y-%m-%d %H:%M:%.S", std::string(b) + ".125", s * 1000000000LL + 125000000);
                    }
        for (int f = 0; f < 1000; ++f) {
            char b[64];
            snprintf(b, sizeof b, "2024-01-01 00:00:00.%03d", f);
            tp("%Y-%m-%d %H:%M:%.S", b, 1704067200LL * 1000000000LL + f * 1000000LL);
        }
        for (int f = 0; f < 1000000; f += th ? 1 : 37) {
            char b[64];
            snprintf(b, sizeof b, "2024-01-01 00:00:00.%06d", f);
            tp("%Y-%m-%d %H:%M:%.S", b, 1704067200LL * 1000000000LL + f * 1000LL);
        }
        // all nine digits: within a double's precision of the fraction
        for (long long f = 0; f < 1000; ++f)
            for (long long g : {0LL, 1LL, 499LL, 500LL, 501LL, 999LL}) {
                for (long long x : {f * 1000000 + g, g * 1000000 + f, f * 1000 + g * 1000000 + 7}) {
                    char b[64];
                    snprintf(b, sizeof b, "2024-01-01 00:00:00.%09lld", x);
                    tp("%Y-%m-%d %H:%M:%.S", b, 1704067200LL * 1000000000LL + x);
                }
            }
        // what doesn't read as the fields doesn't read as a time point, for the same reason
        auto tpe = [&](const std::string& f, const std::string& in) {
            auto key = [&] { return "time_point errors|" + f + "|" + mc::esc(in); };
            if (!R.take(key)) return;
            using TP = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
            auto fm = "{:" + f + "}";
            auto cmp = [&](const char* s, const auto& d, const auto& r, long dc, long rc) {
                ++R.calls;
                ++R.checks;
                bool same = bool(d) == bool(r) && dc == rc;
                if (d && r) {
                    std::tm t = d->value().to_tm();
                    same = same && r->value().time_since_epoch().count() == timegm(&t);
                }
                else if (!d && !r) same = same && d.error().code() == r.error().code();
                if (!same) R.fail(std::string(s) + "|" + key(), r ? "read as a time point" : std::string("time point gives ") + src::code_name(r.error().code()));
            };
            {
                auto d = scn::scan<scn::datetime_components>(in, scn::runtime_format(fm));
                auto r = scn::scan<TP>(in, scn::runtime_format(fm));
                cmp("view", d, r, d ? long(in.end() - d->begin()) : 0, r ? long(in.end() - r->begin()) : 0);
            }
            {
                CookieFile cf(in, ~uint64_t(0)), cg(in, ~uint64_t(0));
                auto d = scn::scan<scn::datetime_components>(cf.f, scn::runtime_format(fm));
                auto r = scn::scan<TP>(cg.f, scn::runtime_format(fm));
                cmp("FILE", d, r, long(cf.rest().size()), long(cg.rest().size()));
            }
        };
        for (std::string b : {"%F %T|2024-02-29 23:59:59", "%Y-%m-%d %H:%M:%S|1999-12-31 01:02:03", "%c|Mon Jan 02 03:04:05 2006", "%D %R|12/31/99 09:05", "%x %r|1/2/2003 12:00:01 PM"}) {
            auto bar = b.find('|');
            auto f = b.substr(0, bar), t = b.substr(bar + 1);
            tpe(f, t);
            for (size_t i = 0; i <= t.size(); ++i) {
                tpe(f, t.substr(0, i));
                for (auto* s : {"", "0", "1", "9", ":", "-", " ", "x", "\xff", "\xc3\xa4"}) {
                    tpe(f, t.substr(0, i) + s + t.substr(i));
                    if (i < t.size()) tpe(f, t.substr(0, i) + s + t.substr(i + 1));
                }
            }
        }
        tp("%F %z", "2024-01-01 +0100", {});
        tp("%F %Z", "2024-01-01 UTC", {});
        tp("%Y %j", "2024 1", {});
        tp("%Y %a", "2024 Mon", {});
    }
    if (R.group("to_tm")) {
        // every subset of set fields of datetime_components
        for (unsigned mask = 0; mask < (1u << nfields); ++mask) {
            if (!R.take([&] { return "to_tm|" + S(long(mask)); })) continue;
            scn::datetime_components c;
            Value v;
            if (mask & bit(F_sub)) c.subsec = 0.5;
            if (mask & bit(F_sec)) c.sec = 60, v.sec = 60;
            if (mask & bit(F_min)) c.min = 59, v.min = 59;
            if (mask & bit(F_hour)) c.hour = 23, v.hour = 23;
            if (mask & bit(F_mday)) c.mday = 31, v.mday = 31;
            if (mask & bit(F_mon)) c.mon = scn::December, v.mon = 12;
            if (mask & bit(F_year)) c.year = 2024, v.year = 2024;
            if (mask & bit(F_wday)) c.wday = scn::Saturday, v.wday = 6;
            if (mask & bit(F_yday)) c.yday = 365, v.yday = 365;
            if (mask & bit(F_tzoff)) c.tz_offset = std::chrono::minutes{-90}, v.tzoff = -90;
            if (mask & bit(F_tzname)) c.tz_name = "UTC";
            auto t = c.to_tm();
            ++R.calls;
            ++R.checks;
            if (tmstr(t) != tmstr(v) || t.tm_isdst != -1) R.fail("to_tm|" + S(long(mask)), tmstr(t));
        }
    }
    if (R.group("localized")) {
        // the names and orders of a locale: std::time_get on the rest of the text is the oracle
        for (auto* ln : {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "fi_FI.UTF-8", "en_GB.UTF-8"}) {
            std::locale loc(ln);
            auto& put = std::use_facet<std::time_put<char>>(loc);
            struct F { const char* fmt; const char* pre; char sp; const char* post; };
            for (F f : {F{"%b", "", 'b', ""}, F{"%B", "", 'b', ""}, F{"%a", "", 'a', ""}, F{"%A", "", 'a', ""}, F{"%x", "", 'x', ""}, F{"%X", "", 'X', ""},
                        F{"%Y-%b", "2024-", 'b', ""}, F{"%d %b %Y", "17 ", 'b', " 2024"}, F{"%Y %a", "2024 ", 'a', ""}, F{"%b-%d", "", 'b', "-17"}, F{"%H/%x", "12/", 'x', ""}})
                for (int k = 0; k < 24; ++k)
                    for (auto* tail : {"", "|", " x"}) {
                        auto key = [&] { return std::string("L|") + ln + "|" + f.fmt + "|" + S(k) + tail; };
                        if (!R.take(key)) continue;
                        std::tm t{};
                        t.tm_year = 100 + k, t.tm_mon = k % 12, t.tm_mday = 1 + k, t.tm_wday = k % 7, t.tm_hour = k, t.tm_min = 30, t.tm_sec = 5;
                        std::ostringstream os;
                        os.imbue(loc);
                        put.put(std::ostreambuf_iterator<char>(os), os, ' ', &t, (k & 1) && f.sp < 'c' && f.sp > 'a' ? 'B' : f.sp);
                        std::string in = f.pre + os.str() + f.post + tail;
                        // oracle
                        std::istringstream is(os.str() + f.post + tail);
                        is.imbue(loc);
                        std::tm o{};
                        std::ios_base::iostate err{};
                        const char pat[3] = {'%', f.sp, 0};
                        auto it = std::use_facet<std::time_get<char>>(loc).get(std::istreambuf_iterator<char>(is), {}, is, err, &o, pat, pat + 2);
                        bool good = !(err & std::ios::failbit);
                        long used = long(std::string(f.pre).size() + (os.str() + f.post + tail).size() - size_t(std::distance(it, std::istreambuf_iterator<char>())));
                        std::string rest = in.substr(size_t(used)), post = f.post;
                        bool cont = good && rest.substr(0, post.size()) == post;
                        auto r = scn::scan<scn::datetime_components>(loc, in, scn::runtime_format("{:L" + std::string(f.fmt) + "}"));
                        ++R.calls;
                        ++R.checks;
                        if (!cont) {
                            if (r) R.fail(key(), "read " + mc::esc(in) + ", std::time_get does not");
                            continue;
                        }
                        if (!r) {
                            R.fail(key(), std::string("error ") + src::code_name(r.error().code()) + " on " + mc::esc(in));
                            continue;
                        }
                        auto& c = r->value();
                        bool same = true;
                        if (f.sp == 'b') same = c.mon && int(unsigned(*c.mon)) == o.tm_mon + 1;
                        if (f.sp == 'a') same = c.wday && int(c.wday->c_encoding()) == o.tm_wday;
                        if (f.sp == 'x') same = c.mon && int(unsigned(*c.mon)) == o.tm_mon + 1 && c.mday == o.tm_mday && c.year == o.tm_year + 1900;
                        if (f.sp == 'X') same = c.hour == o.tm_hour && c.min == o.tm_min && c.sec == o.tm_sec;
                        if (std::string(f.fmt).find("%Y") != std::string::npos) same = same && c.year == 2024;
                        if (std::string(f.fmt).find("%d") != std::string::npos) same = same && c.mday == 17;
                        if (std::string(f.fmt).find("%H") != std::string::npos) same = same && c.hour == 12;
                        if (!same || long(in.size() - r->range().size()) != used + long(post.size()))
                            R.fail(key(), "got " + got(c) + " rest " + S(long(r->range().size())) + " on " + mc::esc(in) + " used " + S(used));
                        // without L the locale is not used
                        auto q = scn::scan<scn::datetime_components>(loc, in, scn::runtime_format("{:" + std::string(f.fmt) + "}"));
                        auto m = dates::read(in, f.fmt, ty_dt);
                        ++R.calls;
                        ++R.checks;
                        if (bool(q) != (m.code == ok) || (q && got(q->value()) != want(m.v, static_cast<scn::datetime_components*>(nullptr))))
                            R.fail("noL " + key(), "the locale was used");
                    }
        }
    }
    return R.finish();
}
