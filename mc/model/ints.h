// Executable model of reading an integer (independent of the library).
#pragma once
#include "../text.h"
#include <limits>
#include <string>
#include <type_traits>

namespace model {

enum Err {
    end_of_input,
    invalid_format_string,
    invalid_scanned_value,
    invalid_literal,
    invalid_fill,
    length_too_short,
    invalid_source_state,
    value_positive_overflow,
    value_negative_overflow,
    value_positive_underflow,
    value_negative_underflow,
    OK = 100
};

// bytes of leading whitespace
inline size_t skip_ws(std::string_view s)
{
    size_t i = 0;
    while (i < s.size()) {
        char32_t c{};
        int n = txt::dec8(s.substr(i), c);
        if (!n || !txt::is_space(c)) break;
        i += size_t(n);
    }
    return i;
}
inline size_t skip_ws(std::wstring_view s)
{
    size_t i = 0;
    while (i < s.size() && txt::is_space(char32_t(s[i]))) ++i;
    return i;
}

inline int digit_of(char32_t c)
{
    if (c >= U'0' && c <= U'9') return int(c - U'0');
    if (c >= U'a' && c <= U'z') return int(c - U'a') + 10;
    if (c >= U'A' && c <= U'Z') return int(c - U'A') + 10;
    return 99;
}

struct Big {  // magnitude, saturated far above 2^64
    unsigned __int128 v = 0;
    void push(int base, int d)
    {
        const unsigned __int128 cap = (unsigned __int128)1 << 100;
        v = v * unsigned(base) + unsigned(d);
        if (v > cap) v = cap;
    }
};

struct IntRes {
    int code = OK;
    bool neg = false;
    unsigned __int128 mag = 0;
    size_t consumed = 0;
};

// The numeral at the very start of s.  base 0: detect from the prefix.
// allow_neg: false for unsigned types and the u presentation.
// umax: greatest magnitude of a positive value; negatives reach umax + 1.
template <typename CharT>
IntRes read_int(std::basic_string_view<CharT> s, int base, bool allow_neg,
                unsigned long long umax, bool prefixes = true)
{
    IntRes r;
    size_t i = 0;
    auto U = [&](size_t k) {
        return char32_t(std::make_unsigned_t<CharT>(s[k]));
    };
    auto dig = [&](size_t k, int b) {
        if (k >= s.size()) return false;
        return digit_of(U(k)) < b;
    };
    if (s.empty()) {
        r.code = end_of_input;
        return r;
    }
    if (U(0) == U'+' || U(0) == U'-') {
        r.neg = U(0) == U'-';
        ++i;
    }
    if (r.neg && !allow_neg) {
        r.code = invalid_scanned_value;
        return r;
    }
    auto pre = [&](char a) {
        return i + 1 < s.size() && U(i) == U'0' &&
               (U(i + 1) == char32_t(a) || U(i + 1) == char32_t(a - 32));
    };
    int b = base;
    if (prefixes) {
        size_t after = i;
        if ((base == 16 || base == 0) && pre('x')) b = 16, after = i + 2;
        else if ((base == 2 || base == 0) && pre('b')) b = 2, after = i + 2;
        else if ((base == 8 || base == 0) && pre('o')) b = 8, after = i + 2;
        else if (base == 0) b = i < s.size() && U(i) == U'0' ? 8 : 10;
        if (dig(after, b)) i = after;  // a prefix counts only before a digit
    }
    if (!dig(i, b)) {
        r.code = invalid_scanned_value;
        return r;
    }
    Big big;
    while (dig(i, b)) big.push(b, digit_of(U(i))), ++i;
    if (big.v > (unsigned __int128)umax + (r.neg ? 1 : 0)) {
        r.code = r.neg ? value_negative_overflow : value_positive_overflow;
        return r;
    }
    r.mag = big.v;
    r.consumed = i;
    return r;
}

template <typename T>
std::string int_repr(const IntRes& r)
{
    // T's value as decimal text
    unsigned __int128 m = r.mag;
    std::string s;
    do {
        s.insert(s.begin(), char('0' + int(m % 10)));
        m /= 10;
    } while (m);
    if (r.neg && s != "0") s.insert(s.begin(), '-');
    return s;
}

}  // namespace model
