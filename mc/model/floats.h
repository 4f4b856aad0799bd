// Executable model of reading a floating-point value (grammar written out by
// hand; rounding by the C library on the isolated numeral, cross-checked with
// std::from_chars, which is a different implementation).
#pragma once
#include "ints.h"
#include <cerrno>
#include <charconv>
#include <cmath>
#include <cstdlib>

namespace model {

struct FloatRes {
    int code = OK;
    bool neg = false;
    enum { number, inf, nan } kind = number;
    std::string numeral;  // without sign, "0x" added for hexadecimal ones
    bool hex = false;
    size_t consumed = 0;
};

enum FOpt { F_HEX = 1, F_SCI = 2, F_FIX = 4 };
inline int fopt(char pres)
{
    switch (pres) {
        case 'a': case 'A': return F_HEX;
        case 'e': case 'E': return F_SCI;
        case 'f': case 'F': return F_FIX;
        case 'g': case 'G': return F_SCI | F_FIX;
        default: return F_HEX | F_SCI | F_FIX;
    }
}

// length of [digits][.digits][exp] at s[i..]; 0 if no digits.
inline size_t num_len(std::string_view s, size_t i, int base, bool exp_ok, bool& has_exp,
                      char point = '.')
{
    size_t b = i;
    size_t nd = 0;
    has_exp = false;
    auto dg = [&](size_t k, int bs) {
        return k < s.size() && digit_of((unsigned char)s[k]) < bs;
    };
    while (dg(i, base)) ++i, ++nd;
    if (i < s.size() && s[i] == point) {
        size_t j = i + 1, fd = 0;
        while (dg(j, base)) ++j, ++fd;
        if (nd + fd > 0) i = j, nd += fd;
    }
    if (!nd) return 0;
    if (exp_ok && i < s.size()) {
        char e = s[i] | 32;
        if (e == (base == 16 ? 'p' : 'e')) {
            size_t j = i + 1;
            if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j;
            if (dg(j, 10)) {
                while (dg(j, 10)) ++j;
                i = j;
                has_exp = true;
            }
        }
    }
    return i - b;
}

inline bool ieq(std::string_view s, size_t i, std::string_view w)
{
    if (s.size() < i + w.size()) return false;
    for (size_t k = 0; k < w.size(); ++k) {
        char c = s[i + k];
        if (c >= 'A' && c <= 'Z') c = char(c + 32);
        if (c != w[k]) return false;
    }
    return true;
}

// the numeral at the very start of s
inline FloatRes read_float(std::string_view s, int opt)
{
    FloatRes r;
    if (s.empty()) {
        r.code = end_of_input;
        return r;
    }
    size_t i = 0;
    if (s[0] == '+' || s[0] == '-') r.neg = s[0] == '-', ++i;
    if (ieq(s, i, "inf")) {
        r.kind = FloatRes::inf;
        r.consumed = i + (ieq(s, i, "infinity") ? 8 : 3);
        return r;
    }
    if (ieq(s, i, "nan")) {
        r.kind = FloatRes::nan;
        r.consumed = i + 3;
        if (i + 3 < s.size() && s[i + 3] == '(') {
            size_t j = i + 4;
            while (j < s.size() && (digit_of((unsigned char)s[j]) < 99 || s[j] == '_')) ++j;
            if (j >= s.size() || s[j] != ')') r.code = invalid_scanned_value;
            r.consumed = j + 1;
        }
        return r;
    }
    bool he{};
    if (opt & F_HEX) {
        if (ieq(s, i, "0x")) {
            size_t n = num_len(s, i + 2, 16, true, he);
            if (n) {
                r.hex = true;
                r.numeral = std::string(s.substr(i, n + 2));
                r.consumed = i + 2 + n;
                return r;
            }
        }
        if (opt == F_HEX) {
            size_t n = num_len(s, i, 16, true, he);
            if (!n) {
                r.code = invalid_scanned_value;
                return r;
            }
            r.hex = true;
            r.numeral = "0x" + std::string(s.substr(i, n));
            r.consumed = i + n;
            return r;
        }
    }
    size_t n = num_len(s, i, 10, opt & F_SCI, he);
    if (!n || (!(opt & F_FIX) && !he)) {
        r.code = invalid_scanned_value;
        return r;
    }
    r.numeral = std::string(s.substr(i, n));
    r.consumed = i + n;
    return r;
}

// Round the numeral; returns OK or an overflow/underflow code
template <typename T>
int float_value(const FloatRes& r, T& v)
{
    if (r.code != OK) return r.code;
    if (r.kind == FloatRes::inf) {
        v = std::numeric_limits<T>::infinity();
    }
    else if (r.kind == FloatRes::nan) {
        v = std::numeric_limits<T>::quiet_NaN();
    }
    else {
        errno = 0;
        char* e{};
        if constexpr (std::is_same_v<T, float>) v = std::strtof(r.numeral.c_str(), &e);
        else if constexpr (std::is_same_v<T, double>) v = std::strtod(r.numeral.c_str(), &e);
        else v = std::strtold(r.numeral.c_str(), &e);
        if (e != r.numeral.c_str() + r.numeral.size()) return -2;  // model error
        if (std::isinf(v)) return r.neg ? value_negative_overflow : value_positive_overflow;
        if (v == 0) {
            // zero is only right if the numeral is zero
            bool nz = false;
            for (size_t k = r.hex ? 2 : 0; k < r.numeral.size(); ++k) {
                char c = r.numeral[k];
                if ((c | 32) == (r.hex ? 'p' : 'e')) break;
                if (c != '0' && c != '.') nz = true;
            }
            if (nz) return r.neg ? value_negative_underflow : value_positive_underflow;
        }
        if constexpr (!std::is_same_v<T, long double>) {
            T f{};
            std::string_view n = r.numeral;
            if (r.hex) n.remove_prefix(2);
            auto fc = std::from_chars(n.data(), n.data() + n.size(), f,
                                      r.hex ? std::chars_format::hex : std::chars_format::general);
            if (fc.ec == std::errc{} && f != v) return -3;  // back ends disagree
        }
    }
    v = std::copysign(v, r.neg ? T(-1) : T(1));
    return OK;
}

}  // namespace model
