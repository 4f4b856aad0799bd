// Executable model of the format string language: which strings are valid for
// which argument types.  Written from the documented grammar; all functions
// are constexpr-free plain C++ on byte strings.
#pragma once
#include "strings.h"
#include <cstring>

namespace model {

enum class Ty { INT, UINT, FLOAT, BOOL, CHAR, CP, STR, SV, PTR, RX };

struct Verdict {
    bool valid = true;
    // what a matching source looks like up to the first fault (or the end)
    std::string text;
    // false if a field in front of the fault may fail on that source for a
    // reason of its own
    bool solid = true;
    // the regex engine has a say in it, too
    bool engine = false;
};

struct FieldSpec {
    bool ok = true;
    bool plain = true;    // no width, precision or alignment
    char type = 0;        // presentation
    bool local = false;
    bool has_prec = false;
    long width = 0, prec = 0;
    bool has_set = false, has_rx = false;
    std::string sample;   // for sets and regular expressions
};

// The specification that starts at i (just after the colon); leaves i at the
// closing brace if ok.
inline FieldSpec parse_spec(std::string_view f, size_t& i)
{
    FieldSpec s;
    auto bad = [&] {
        s.ok = false;
        return s;
    };
    if (i >= f.size()) return bad();
    auto is_align = [](char c) { return c == '<' || c == '>' || c == '^'; };
    // fill and alignment
    if (f[i] != '}') {
        char32_t cp{};
        int n = txt::dec8(f.substr(i), cp);
        if (!n) return bad();
        size_t j = i + size_t(n);
        if (j < f.size() && is_align(f[j]) && f[i] != '[') {
            if (f[i] == '{') return bad();
            i = j + 1;
            s.plain = false;
        }
        else if (is_align(f[i])) {
            ++i;
            s.plain = false;
        }
    }
    auto number = [&](long& v) {
        v = 0;
        bool any = false;
        while (i < f.size() && f[i] >= '0' && f[i] <= '9') {
            v = v * 10 + (f[i] - '0');
            if (v > 0x7fffffff) return false;
            ++i;
            any = true;
        }
        return any;
    };
    if (i < f.size() && f[i] >= '0' && f[i] <= '9') {
        if (!number(s.width)) return bad();
        s.plain = false;
    }
    if (i < f.size() && f[i] == '.') {
        ++i;
        if (!number(s.prec)) return bad();
        s.has_prec = true;
        s.plain = false;
        if (s.width > s.prec) return bad();
    }
    if (i < f.size() && f[i] == 'L') {
        ++i;
        s.local = true;
    }
    if (i >= f.size()) return bad();
    if (f[i] == '}') return s;
    if (f[i] == '[') {
        // up to the closing bracket
        for (size_t e = i + 1; e < f.size(); ++e) {
            if (f[e] != ']') continue;
            bool closes = false;
            auto st = parse_set(f.substr(i + 1, e - i), closes);
            if (!closes) continue;
            if (!st.valid) return bad();
            s.has_set = true;
            if (!st.inverted) s.sample = txt::enc8(st.ranges[0].first);
            else {
                for (char32_t c : {U'~', U'q', U'Z', U'5', U' ', U'!', char32_t(0x4e00), char32_t(0x1f600)})
                    if (!st.has(c)) {
                        s.sample = txt::enc8(c);
                        break;
                    }
            }
            s.type = '[';
            i = e + 1;
            break;
        }
        if (!s.has_set) return bad();
    }
    else if (f[i] == '/') {
        size_t e = i + 1;
        while (e < f.size() && !(f[e] == '/' && f[e - 1] != '\\')) ++e;
        if (e >= f.size() || e == i + 1) return bad();
        s.has_rx = true;
        s.type = '/';
        s.sample = f.substr(i + 1, e - i - 1);
        std::string fl;
        for (++e; e < f.size() && f[e] != '}'; ++e) {
            if (!f[e] || !std::strchr("min", f[e]) || fl.find(f[e]) != fl.npos) return bad();
            fl += f[e];
        }
        i = e;
    }
    else {
        if (!f[i] || !std::strchr("bBdiuoxXaAeEfFgGscp", f[i])) return bad();
        s.type = f[i++];
    }
    if (i >= f.size() || f[i] != '}') return bad();
    return s;
}

inline bool spec_fits(const FieldSpec& s, Ty t)
{
    auto in = [&](const char* l) { return s.type == 0 || (std::strchr(l, s.type) != nullptr); };
    if (s.local && t != Ty::INT && t != Ty::UINT && t != Ty::FLOAT && t != Ty::BOOL) return false;
    switch (t) {
        case Ty::INT:
        case Ty::UINT:
            if (s.local && (s.type == 'b' || s.type == 'B')) return false;
            return in("bBdiuoxX");
        case Ty::FLOAT: return in("aAeEfFgG");
        case Ty::BOOL: return in("sbBdiuoxX");
        case Ty::CHAR: return in("bBdiuoxXc");
        case Ty::CP: return in("c");
        case Ty::STR:
        case Ty::SV:
            if (s.type == 'c') return s.has_prec && s.prec > 0;
            return in("s[/");
        case Ty::PTR: return in("p");
        case Ty::RX: return s.type == '/';
    }
    return false;
}
inline bool skips_ws(const FieldSpec& s, Ty t)
{
    if (t == Ty::CP || t == Ty::RX) return false;
    if (t == Ty::CHAR) return s.type != 0 && s.type != 'c';
    if (t == Ty::STR || t == Ty::SV) return s.type == 0 || s.type == 's';
    return true;
}
inline std::string sample(const FieldSpec& s, Ty t)
{
    if (s.type == '[' || s.type == '/') return s.sample;
    switch (t) {
        case Ty::BOOL: return s.type == 's' ? "true" : "1";
        case Ty::PTR: return "0x1";
        case Ty::STR:
        case Ty::SV:
            if (s.type == 'c') return std::string(size_t(s.prec > 300 ? 300 : s.prec), 'v');
            return "v";
        case Ty::CHAR: return s.type == 0 || s.type == 'c' ? "v" : "1";
        case Ty::CP: return "v";
        case Ty::FLOAT: return s.type == 'e' || s.type == 'E' ? "1e1" : "1";
        default: return "1";
    }
}

inline Verdict check_format(std::string_view f, const std::vector<Ty>& args, bool contiguous = true)
{
    Verdict v;
    std::vector<bool> used(args.size());
    size_t next = 0;
    int mode = 0;  // 1 automatic, 2 manual
    size_t i = 0;
    bool after_set = false;
    bool open_end = false;  // the last thing emitted can go on
    auto bad = [&] {
        v.valid = false;
        return v;
    };
    auto emit = [&](const std::string& s, bool skips, bool lit) {
        if (after_set) v.solid = false;
        after_set = false;
        if (open_end) {
            if (lit ? !txt::is_space(char32_t((unsigned char)s[0])) : !skips) v.solid = false;
            else if (!lit) v.text += " ";
        }
        v.text += s;
    };
    while (i < f.size()) {
        char c = f[i];
        if (c == '}' || (c == '{' && i + 1 < f.size() && f[i + 1] == '{')) {
            if (i + 1 >= f.size() || f[i + 1] != c) return bad();
            emit(std::string(1, c), false, true);
            open_end = false;
            i += 2;
            continue;
        }
        if (c != '{') {
            char32_t cp{};
            int n = txt::dec8(f.substr(i), cp);
            if (!n) return bad();
            emit(std::string(f.substr(i, size_t(n))), false, true);
            open_end = false;
            i += size_t(n);
            continue;
        }
        if (++i >= f.size()) return bad();
        size_t id = 0;
        if (f[i] >= '0' && f[i] <= '9') {
            size_t b = i;
            while (i < f.size() && f[i] >= '0' && f[i] <= '9') ++i;
            if (f[b] == '0' && i - b > 1) return bad();
            if (i - b > 9) return bad();
            id = size_t(std::stol(std::string(f.substr(b, i - b))));
            if (mode == 1) return bad();
            mode = 2;
        }
        else {
            if (f[i] != ':' && f[i] != '}') return bad();
            if (mode == 2) return bad();
            mode = 1;
            id = next++;
        }
        if (i >= f.size() || (f[i] != ':' && f[i] != '}')) return bad();
        if (id >= args.size() || used[id]) return bad();
        used[id] = true;
        Ty t = args[id];
        if ((t == Ty::SV || t == Ty::RX) && !contiguous) return bad();
        FieldSpec s;
        if (f[i] == ':') {
            ++i;
            s = parse_spec(f, i);
            if (!s.ok) return bad();
        }
        if (!spec_fits(s, t)) return bad();
        if (s.has_rx && !contiguous) return bad();
        ++i;
        emit(sample(s, t), skips_ws(s, t), false);
        if (!s.plain) v.solid = false;
        after_set = s.has_set;
        if (s.has_rx)
            for (char c : s.sample)
                if (!std::isalnum((unsigned char)c)) v.engine = true, v.solid = false;
        open_end = !(t == Ty::CP || (t == Ty::CHAR && !skips_ws(s, t)) || s.has_rx);
    }
    for (bool u : used)
        if (!u) return bad();
    return v;
}

}  // namespace model
