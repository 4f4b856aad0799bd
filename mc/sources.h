// Running one scan over each kind of source, with a uniform outcome record.
#pragma once
#include "mc.h"
#include <scn/scan.h>
#include <scn/xchar.h>
#include <cmath>
#include <cstdio>
#include <deque>
#include <list>
#include <memory>
#include <optional>

namespace src {

inline const char* code_name(int c)
{
    static const char* n[] = {"end_of_input",
                              "invalid_format_string",
                              "invalid_scanned_value",
                              "invalid_literal",
                              "invalid_fill",
                              "length_too_short",
                              "invalid_source_state",
                              "value_positive_overflow",
                              "value_negative_overflow",
                              "value_positive_underflow",
                              "value_negative_underflow"};
    if (c < 0 || c > 10) return "?";
    return n[c];
}

// repr: canonical text of a scanned value
inline std::string repr(bool v) { return v ? "true" : "false"; }
template <typename T>
std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, std::string>
repr(T v)
{
    return std::to_string(v);
}
inline std::string repr(char32_t v) { return std::to_string(uint32_t(v)); }
inline std::string repr(wchar_t v) { return std::to_string(int32_t(v)); }
template <typename T>
std::enable_if_t<std::is_floating_point_v<T>, std::string> repr(T v)
{
    if (std::isnan(v)) return std::signbit(v) ? "-nan" : "nan";
    char b[64];
    std::snprintf(b, sizeof b, "%La", static_cast<long double>(v));
    return b;
}
inline std::string repr(const std::string& s) { return "\"" + mc::esc(s) + "\""; }
inline std::string repr(std::string_view s) { return "\"" + mc::esc(s) + "\""; }
inline std::string repr(const std::wstring& s)
{
    return "L\"" + mc::esc(std::wstring_view(s)) + "\"";
}
inline std::string repr(std::wstring_view s) { return "L\"" + mc::esc(s) + "\""; }
inline std::string repr(void* p)
{
    char b[32];
    std::snprintf(b, sizeof b, "%p", p);
    return b;
}
inline std::string repr(const void* p) { return repr(const_cast<void*>(p)); }

// containers and tuples (declared first, so that they nest)
template <typename A, typename B>
std::string repr(const std::pair<A, B>& p);
template <typename... T>
std::string repr(const std::tuple<T...>& t);
template <typename C>
std::string repr_seq(const C& c);
template <typename T>
std::string repr(const std::vector<T>& c)
{
    return repr_seq(c);
}
template <typename T>
std::string repr(const std::deque<T>& c)
{
    return repr_seq(c);
}
template <typename T>
std::string repr(const std::list<T>& c)
{
    return repr_seq(c);
}
template <typename T>
std::string repr(const std::set<T>& c)
{
    return repr_seq(c);
}
template <typename K, typename V>
std::string repr(const std::map<K, V>& c)
{
    return repr_seq(c);
}
template <typename T>
std::string repr(const std::multiset<T>& c)
{
    return repr_seq(c);
}
template <typename K, typename V>
std::string repr(const std::multimap<K, V>& c)
{
    return repr_seq(c);
}
template <typename T>
std::string repr(const std::unordered_set<T>& c)
{
    return repr_seq(std::set<T>(c.begin(), c.end()));
}
template <typename K, typename V>
std::string repr(const std::unordered_map<K, V>& c)
{
    return repr_seq(std::map<K, V>(c.begin(), c.end()));
}
template <typename A, typename B>
std::string repr(const std::pair<A, B>& p)
{
    return "(" + repr(p.first) + "," + repr(p.second) + ")";
}
template <typename... T>
std::string repr(const std::tuple<T...>& t)
{
    std::string s = "(";
    std::apply([&](const auto&... v) { ((s += repr(v) + ","), ...); }, t);
    return s + ")";
}
template <typename C>
std::string repr_seq(const C& c)
{
    std::string s = "[";
    for (const auto& e : c) s += repr(e) + " ";
    return s + "]";
}

struct Out {
    bool ok = false;
    int code = -1;
    std::string val;
    long consumed = 0;  // code units taken from the source (-1: inconsistent)
    std::string str(bool with_val = true) const
    {
        std::string s = ok ? "ok " : std::string("err:") + code_name(code) + " ";
        if (ok && with_val) s += val;
        s += " @" + std::to_string(consumed);
        return s;
    }
    friend bool operator==(const Out& a, const Out& b)
    {
        return a.ok == b.ok && (a.ok ? a.val == b.val : a.code == b.code) &&
               a.consumed == b.consumed;
    }
    friend bool operator!=(const Out& a, const Out& b) { return !(a == b); }
};

template <typename... T>
std::string repr_all(const std::tuple<T...>& t)
{
    std::string s;
    std::apply([&](const auto&... v) { ((s += repr(v) + ","), ...); }, t);
    return s;
}

// Contiguous source, placed in an exact-size heap block so that ASan sees any
// over-read.
template <typename CharT>
struct Exact {
    std::unique_ptr<CharT[]> p;
    size_t n;
    explicit Exact(std::basic_string_view<CharT> s)
        : p(new CharT[s.size() ? s.size() : 1]), n(s.size())
    {
        std::copy(s.begin(), s.end(), p.get());
    }
    std::basic_string_view<CharT> view() const { return {p.get(), n}; }
};

template <typename... T>
Out scan_sv(std::string_view in, std::string_view fmt)
{
    Out o;
    auto r = scn::scan<T...>(in, scn::runtime_format(fmt));
    ++mc::Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        bool inside = rg.end() == in.end() && rg.size() <= in.size();
        o.consumed = inside ? long(in.size() - rg.size()) : -1;
    }
    else
        o.code = r.error().code();
    return o;
}
template <typename... T>
Out scan_wsv(std::wstring_view in, std::wstring_view fmt)
{
    Out o;
    auto r = scn::scan<T...>(in, scn::runtime_format(fmt));
    ++mc::Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        bool inside = rg.end() == in.end() && rg.size() <= in.size();
        o.consumed = inside ? long(in.size() - rg.size()) : -1;
    }
    else
        o.code = r.error().code();
    return o;
}
template <typename Cont, typename Fmt, typename... T>
Out scan_cont(const Cont& c, Fmt fmt)
{
    Out o;
    auto r = scn::scan<T...>(c, scn::runtime_format(fmt));
    ++mc::Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        o.consumed = long(std::distance(c.begin(), rg.begin()));
        if (rg.end() != c.end()) o.consumed = -1;
    }
    else
        o.code = r.error().code();
    return o;
}
template <typename... T>
Out scan_list(std::string_view in, std::string_view fmt)
{
    std::list<char> l(in.begin(), in.end());
    return scan_cont<std::list<char>, std::string_view, T...>(l, fmt);
}
template <typename... T>
Out scan_deque(std::string_view in, std::string_view fmt)
{
    std::deque<char> l(in.begin(), in.end());
    return scan_cont<std::deque<char>, std::string_view, T...>(l, fmt);
}
template <typename... T>
Out scan_wdeque(std::wstring_view in, std::wstring_view fmt)
{
    std::deque<wchar_t> l(in.begin(), in.end());
    return scan_cont<std::deque<wchar_t>, std::wstring_view, T...>(l, fmt);
}

// A FILE whose read(2) answers are chosen by the harness: cuts is a bit mask,
// bit i set means that a read stops after byte i+1.
struct CookieFile {
    std::string data;
    uint64_t cuts = 0;
    size_t pos = 0;
    long fail_at = -1;  // read() at this position fails with EIO
    std::vector<char> buf;
    FILE* f = nullptr;
    static ssize_t rd(void* c, char* b, size_t n)
    {
        auto& s = *static_cast<CookieFile*>(c);
        if (s.fail_at >= 0 && long(s.pos) >= s.fail_at) {
            errno = EIO;
            return -1;
        }
        size_t k = 0;
        while (k < n && s.pos < s.data.size()) {
            if (s.fail_at >= 0 && long(s.pos) >= s.fail_at) break;
            b[k++] = s.data[s.pos++];
            if (s.pos <= 64 && ((s.cuts >> (s.pos - 1)) & 1)) break;
        }
        return ssize_t(k);
    }
    explicit CookieFile(std::string_view d, uint64_t c, int mode = 0,
                        long failat = -1)
        : data(d), cuts(c), fail_at(failat)
    {
        cookie_io_functions_t io{};
        io.read = rd;
        f = fopencookie(this, "r", io);
        if (!f) std::abort();
        if (mode == 1) std::setvbuf(f, nullptr, _IONBF, 0);
        else if (mode >= 2) {
            buf.resize(size_t(mode));
            std::setvbuf(f, buf.data(), _IOFBF, buf.size());
        }
    }
    CookieFile(const CookieFile&) = delete;
    ~CookieFile()
    {
        if (f) std::fclose(f);
    }
    // what a user reading on would see
    std::string rest()
    {
        std::string s;
        int c;
        while ((c = std::fgetc(f)) != EOF) s += char(c);
        return s;
    }
};

template <typename... T>
Out scan_file(std::string_view in, std::string_view fmt, uint64_t cuts,
              int mode = 0)
{
    Out o;
    CookieFile cf(in, cuts, mode);
    auto r = scn::scan<T...>(cf.f, scn::runtime_format(fmt));
    ++mc::Run::get().calls;
    o.ok = r.has_value();
    if (r) {
        o.val = repr_all(r->values());
        if (r->file() != cf.f) o.val += "FILE?";
    }
    else
        o.code = r.error().code();
    auto rest = cf.rest();
    if (rest.size() <= in.size() &&
        in.substr(in.size() - rest.size()) == rest)
        o.consumed = long(in.size() - rest.size());
    else
        o.consumed = -1;
    return o;
}

}  // namespace src
