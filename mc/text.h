// Independent UTF-8 / text helpers used by oracles (no scnlib code in here).
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace txt {

inline std::string enc8(char32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) {
        s += char(0xc0 | (c >> 6));
        s += char(0x80 | (c & 63));
    }
    else if (c < 0x10000) {
        s += char(0xe0 | (c >> 12));
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    }
    else {
        s += char(0xf0 | (c >> 18));
        s += char(0x80 | ((c >> 12) & 63));
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    }
    return s;
}

// a character above U+00FF with the same low byte as c
inline std::string alike(char c, char32_t page = 0x100) { return enc8(page + (unsigned char)c); }

// Length of the well-formed sequence at the start of s (Unicode table 3-7), 0
// if ill-formed; cp receives the code point.
inline int dec8(std::string_view s, char32_t& cp)
{
    auto b = [&](size_t i) { return (unsigned char)s[i]; };
    if (s.empty()) return 0;
    unsigned char c = b(0);
    if (c < 0x80) {
        cp = c;
        return 1;
    }
    auto tr = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xbf) {
        return i < s.size() && b(i) >= lo && b(i) <= hi;
    };
    if (c >= 0xc2 && c <= 0xdf) {
        if (!tr(1)) return 0;
        cp = char32_t((c & 31) << 6 | (b(1) & 63));
        return 2;
    }
    if (c >= 0xe0 && c <= 0xef) {
        unsigned lo = c == 0xe0 ? 0xa0 : 0x80, hi = c == 0xed ? 0x9f : 0xbf;
        if (!tr(1, lo, hi) || !tr(2)) return 0;
        cp = char32_t((c & 15) << 12 | (b(1) & 63) << 6 | (b(2) & 63));
        return 3;
    }
    if (c >= 0xf0 && c <= 0xf4) {
        unsigned lo = c == 0xf0 ? 0x90 : 0x80, hi = c == 0xf4 ? 0x8f : 0xbf;
        if (!tr(1, lo, hi) || !tr(2) || !tr(3)) return 0;
        cp = char32_t((c & 7) << 18 | (b(1) & 63) << 12 | (b(2) & 63) << 6 |
                      (b(3) & 63));
        return 4;
    }
    return 0;
}

inline std::optional<std::u32string> dec(std::string_view s)
{
    std::u32string o;
    while (!s.empty()) {
        char32_t c{};
        int n = dec8(s, c);
        if (!n) return {};
        o += c;
        s.remove_prefix(size_t(n));
    }
    return o;
}
inline bool valid(std::string_view s) { return dec(s).has_value(); }
inline std::wstring widen(const std::u32string& s)
{
    return std::wstring(s.begin(), s.end());
}
inline std::optional<std::wstring> to_wide(std::string_view s)
{
    auto d = dec(s);
    if (!d) return {};
    return widen(*d);
}
inline std::string narrow(std::wstring_view w)
{
    std::string o;
    for (wchar_t c : w) o += enc8(char32_t(c));
    return o;
}
// number of bytes of the first n code points
inline long bytes_of(std::string_view s, long cps)
{
    size_t i = 0;
    while (cps-- > 0 && i < s.size()) {
        char32_t c;
        int n = dec8(s.substr(i), c);
        i += size_t(n ? n : 1);
    }
    return long(i);
}

// Pattern_White_Space as documented by scnlib
inline bool is_space(char32_t c)
{
    switch (c) {
        case 0x09: case 0x0a: case 0x0b: case 0x0c: case 0x0d: case 0x20:
        case 0x85: case 0x200e: case 0x200f: case 0x2028: case 0x2029:
            return true;
        default:
            return false;
    }
}

}  // namespace txt
