// Executable model of width, precision, fill and alignment around a value.
#pragma once
#include "floats.h"
#include "strings.h"
#include <functional>

namespace model {

// Columns of a character: the table of {fmt} that the documentation refers to.
inline int columns(char32_t c)
{
    auto in = [&](char32_t a, char32_t b) { return c >= a && c <= b; };
    if (in(0x1100, 0x115f) || c == 0x2329 || c == 0x232a) return 2;
    if (in(0x2e80, 0xa4cf)) return c == 0x303f ? 1 : 2;
    if (in(0xac00, 0xd7a3) || in(0xf900, 0xfaff) || in(0xfe10, 0xfe19) || in(0xfe30, 0xfe6f) ||
        in(0xff00, 0xff60) || in(0xffe0, 0xffe6) || in(0x20000, 0x2fffd) || in(0x30000, 0x3fffd) ||
        in(0x1f300, 0x1f64f) || in(0x1f900, 0x1f9ff))
        return 2;
    return 1;
}
inline int columns(std::u32string_view s)
{
    int n = 0;
    for (char32_t c : s) n += columns(c);
    return n;
}
// the longest beginning of s that takes at most n columns (n == 0: all of it)
inline std::u32string_view within(std::u32string_view s, int n)
{
    if (n == 0) return s;
    size_t k = 0;
    int w = 0;
    while (k < s.size() && w + columns(s[k]) <= n) w += columns(s[k++]);
    return s.substr(0, k);
}

struct Field {
    char align = 0;  // 0, '<', '>', '^'
    char32_t fill = U' ';
    int width = 0, precision = 0;
    bool skips_ws = true;
};
struct Val {
    int code = OK;
    std::string repr;
    size_t n = 0;  // code points taken
};
// reads a value at the very start of the text
using Value = std::function<Val(std::u32string_view)>;

inline Val read_field(std::u32string_view s, const Field& f, const Value& value)
{
    Val r;
    if (f.precision && f.width > f.precision) {
        r.code = invalid_format_string;
        return r;
    }
    auto lim = within(s, f.precision);
    size_t i = 0;
    if (f.align == '>' || f.align == '^')
        while (i < lim.size() && lim[i] == f.fill) ++i;
    else if (!f.align && f.skips_ws) {
        while (i < lim.size() && txt::is_space(lim[i])) ++i;
        if (i == lim.size()) {
            r.code = end_of_input;
            return r;
        }
    }
    int used = columns(s.substr(0, i));
    if (f.precision && used >= f.precision) {
        r.code = invalid_fill;
        return r;
    }
    auto rest = f.precision ? within(s.substr(i), f.precision - used) : s.substr(i);
    r = value(rest);
    if (r.code != OK) return r;
    used += columns(rest.substr(0, r.n));
    i += r.n;
    int room = f.precision ? f.precision - used : 1 << 30;
    auto take = [&](auto pred) {
        while (i < s.size() && pred(s[i]) && columns(s[i]) <= room) {
            used += columns(s[i]);
            room -= columns(s[i]);
            ++i;
        }
    };
    if (f.align == '<' || f.align == '^') take([&](char32_t c) { return c == f.fill; });
    else if (!f.align && !f.skips_ws &&
             ((f.width && used < f.width) || (f.precision && used < f.precision)))
        take([](char32_t c) { return txt::is_space(c); });
    if (used < f.width) {
        r.code = length_too_short;
        return r;
    }
    r.n = i;
    return r;
}

inline std::string u8(std::u32string_view s)
{
    std::string o;
    for (char32_t c : s) o += txt::enc8(c);
    return o;
}

}  // namespace model
