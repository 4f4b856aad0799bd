// Executable model of string conversions.
#pragma once
#include "ints.h"
#include <vector>

namespace model {

// A text as a list of characters: code point, or ill-formed unit(s).
struct Ch {
    char32_t cp;
    bool bad;
    size_t pos, len;  // code units
};
inline std::vector<Ch> split(std::string_view s)
{
    std::vector<Ch> v;
    for (size_t i = 0; i < s.size();) {
        char32_t c{};
        int n = txt::dec8(s.substr(i), c);
        if (n) v.push_back({c, false, i, size_t(n)}), i += size_t(n);
        else v.push_back({0xfffd, true, i, 1}), i += 1;
    }
    return v;
}
inline std::vector<Ch> split(std::wstring_view s)
{
    std::vector<Ch> v;
    for (size_t i = 0; i < s.size(); ++i) {
        auto c = char32_t(s[i]);
        bool bad = c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff);
        v.push_back({c, bad, i, 1});
    }
    return v;
}

// [set] expression between the brackets
struct Set {
    bool valid = true, inverted = false;
    std::vector<std::pair<char32_t, char32_t>> ranges;
    bool has(char32_t c) const
    {
        for (auto& r : ranges)
            if (c >= r.first && c <= r.second) return true;
        return false;
    }
};
// text: everything after "[" up to and including the closing "]"; returns
// invalid if it does not close exactly at the end
inline Set parse_set(std::string_view text, bool& closes)
{
    Set st;
    closes = false;
    auto d = txt::dec(text);
    if (!d) {
        st.valid = false;
        return st;
    }
    const std::u32string& s = *d;
    size_t i = 0;
    if (i < s.size() && s[i] == U'^') {
        st.inverted = true;
        ++i;
        if (i < s.size() && s[i] == U']') {
            st.ranges.push_back({U']', U']'});
            ++i;
        }
    }
    size_t members = 0;
    while (i < s.size()) {
        if (s[i] == U']') {
            closes = i + 1 == s.size();
            if (!members && st.ranges.empty() && !st.inverted) st.valid = false;
            return st;
        }
        char32_t a = s[i++];
        ++members;
        if (i + 1 < s.size() && s[i] == U'-' && s[i + 1] != U']') {
            char32_t b = s[i + 1];
            i += 2;
            if (b < a) {
                st.valid = false;
                closes = true;
                return st;
            }
            st.ranges.push_back({a, b});
        }
        else
            st.ranges.push_back({a, a});
    }
    st.valid = false;
    return st;
}

struct StrRes {
    int code = OK;
    size_t begin = 0, end = 0;  // code units of the value in the text
};

template <typename CharT>
StrRes read_word(std::basic_string_view<CharT> s)
{
    StrRes r;
    auto v = split(s);
    size_t k = 0;
    while (k < v.size() && !v[k].bad && txt::is_space(v[k].cp)) ++k;
    if (k == v.size()) {
        r.code = end_of_input;
        return r;
    }
    r.begin = v[k].pos;
    r.end = s.size();
    for (; k < v.size(); ++k) {
        if (v[k].bad) r.code = invalid_scanned_value;
        else if (txt::is_space(v[k].cp)) {
            r.end = v[k].pos;
            break;
        }
    }
    return r;
}

template <typename CharT>
StrRes read_set(std::basic_string_view<CharT> s, const Set& st)
{
    StrRes r;
    for (auto& c : split(s)) {
        bool in = !c.bad && st.has(c.cp);
        if (in == st.inverted) break;
        if (c.bad) r.code = invalid_scanned_value;
        r.end = c.pos + c.len;
    }
    if (r.end == 0) r.code = invalid_scanned_value;
    return r;
}

}  // namespace model
