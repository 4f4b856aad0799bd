// P12: literal text and whitespace in the format, against a model.
#include "model/strings.h"
#include "sources.h"
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

enum Fk { F_INT, F_WORD, F_CHAR, F_CP, F_SET, F_BOOL };
static const char* fk_spec[] = {"{}", "{}", "{}", "{}", "{:[a7 ]}", "{}"};
static const char* fk_name[] = {"int", "string", "char", "char32_t", "set", "bool"};

// One step of the model on the text from i; false on error.
static bool field(int k, std::string_view s, size_t& i, std::string& val, int& code)
{
    auto r = s.substr(i);
    auto skip = [&] {
        size_t w = model::skip_ws(r);
        i += w;
        r = s.substr(i);
        if (r.empty()) code = model::end_of_input;
        return !r.empty();
    };
    switch (k) {
        case F_INT: {
            if (!skip()) return false;
            auto m = model::read_int<char>(r, 10, true, 0x7fffffff);
            code = m.code;
            if (code != model::OK) return false;
            val += model::int_repr<int>(m) + ",";
            i += m.consumed;
            return true;
        }
        case F_WORD: {
            if (!skip()) return false;
            auto m = model::read_word<char>(r);
            code = m.code;
            if (code != model::OK) return false;
            val += repr(std::string(r.substr(0, m.end))) + ",";
            i += m.end;
            return true;
        }
        case F_CHAR:
            if (r.empty()) {
                code = model::end_of_input;
                return false;
            }
            val += repr(r[0]) + ",";
            ++i;
            return true;
        case F_CP: {
            char32_t c{};
            int n = txt::dec8(r, c);
            if (!n) {
                code = r.empty() ? model::end_of_input : model::invalid_scanned_value;
                return false;
            }
            val += repr(c) + ",";
            i += size_t(n);
            return true;
        }
        case F_SET: {
            size_t n = 0;
            while (n < r.size() && (r[n] == 'a' || r[n] == '7' || r[n] == ' ')) ++n;
            if (!n) {
                code = model::invalid_scanned_value;
                return false;
            }
            val += repr(std::string(r.substr(0, n))) + ",";
            i += n;
            return true;
        }
        case F_BOOL: {
            if (!skip()) return false;
            if (r[0] == '0' || r[0] == '1') {
                val += r[0] == '1' ? "true," : "false,";
                ++i;
                return true;
            }
            for (const char* l : {"true", "false"})
                if (r.substr(0, std::strlen(l)) == l) {
                    val += std::string(l) + ",";
                    i += std::strlen(l);
                    return true;
                }
            code = model::invalid_scanned_value;
            return false;
        }
    }
    return false;
}

// elements of the format: "F" is a field, everything else stands for itself
static Out expect(const Toks& el, int kind, std::string_view s, bool trailing_eof_check = false)
{
    (void)trailing_eof_check;
    Out o;
    size_t i = 0;
    int code = model::OK;
    for (auto& e : el) {
        if (e == "F") {
            if (!field(kind, s, i, o.val, code)) break;
            continue;
        }
        auto lits = e == "{{" ? std::string("{") : e == "}}" ? std::string("}") : e;
        char32_t c{};
        txt::dec8(lits, c);
        if (txt::is_space(c)) {
            i += model::skip_ws(s.substr(i));
            continue;
        }
        if (s.substr(i, lits.size()) != lits) {
            code = model::invalid_literal;
            break;
        }
        i += lits.size();
    }
    o.ok = code == model::OK;
    o.code = code;
    o.consumed = o.ok ? long(i) : 0;
    return o;
}

template <typename T>
static Out run(int n, std::string_view in, const std::string& fmt, int how)
{
    auto go = [&](auto... t) -> Out {
        if (how == 0) {
            Exact<char> ex(in);
            return scan_sv<decltype(t)...>(ex.view(), fmt);
        }
        if (how == 1) return scan_list<decltype(t)...>(in, fmt);
        if (how == 2) {
            Out g = scan_file<decltype(t)...>(in, fmt, 0x5555555555555555);
            if (!g.ok) g.consumed = 0;
            return g;
        }
        if (how == 4) {
            Out g = scan_file<decltype(t)...>(in, fmt, ~0ull);
            if (!g.ok) g.consumed = 0;
            return g;
        }
        if constexpr (!std::is_same_v<T, char>) {
            auto wi = txt::to_wide(in), wf = txt::to_wide(fmt);
            if (!wi) return Out{true, 0, "skip", 0};
            Exact<wchar_t> ex(*wi);
            Out g = scan_wsv<decltype(t)...>(ex.view(), *wf);
            if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
            return g;
        }
        return Out{true, 0, "skip", 0};
    };
    switch (n) {
        case 0: return go();
        case 1: return go(T{});
        case 2: return go(T{}, T{});
        case 3: return go(T{}, T{}, T{});
        case 4: return go(T{}, T{}, T{}, T{});
        default: return go(T{}, T{}, T{}, T{}, T{});
    }
}
static Out run_kind(int k, int n, std::string_view in, const std::string& fmt, int how)
{
    switch (k) {
        case F_INT: return run<int>(n, in, fmt, how);
        case F_WORD: return run<std::string>(n, in, fmt, how);
        case F_CHAR: return run<char>(n, in, fmt, how);
        case F_CP: return run<char32_t>(n, in, fmt, how);
        case F_SET: return run<std::string>(n, in, fmt, how);
        default: return run<bool>(n, in, fmt, how);
    }
}

static void one(const Toks& el, int kind, const std::string& in, unsigned hows)
{
    auto& R = Run::get();
    std::string fmt;
    int n = 0;
    for (auto& e : el) {
        if (e == "F") fmt += fk_spec[kind], ++n;
        else fmt += e;
    }
    auto key = [&](const char* s) { return std::string(fk_name[kind]) + "|" + mc::esc(fmt) + "|" + s + "|" + mc::esc(in); };
    if (!R.take([&] { return key("-"); })) return;
    Out w = expect(el, kind, in);
    R.outcome(w.str() + fmt);
    static const char* hn[] = {"view", "list", "FILE", "wide", "FILE bytewise"};
    for (int h = 0; h < 5; ++h) {
        if (!((hows >> h) & 1)) continue;
        Out g = run_kind(kind, n, in, fmt, h);
        if (g.val == "skip") continue;
        ++R.checks;
        if (w != g) R.fail(key(hn[h]), "model: " + w.str() + " scanned: " + g.str());
    }
}

static void product(const Toks& fa, int fl, const Toks& ta, int tl, std::initializer_list<int> kinds)
{
    mc::for_seqs(fa, 0, fl, [&](const std::vector<int>& ix) {
        Toks el;
        int n = 0;
        for (int i : ix) el.push_back(fa[size_t(i)]), n += el.back() == "F";
        if (n > 5) return;
        for (int k : kinds) {
            if (!n && k != *kinds.begin()) continue;
            mc::for_strings(ta, 0, tl, [&](const std::string& in) { one(el, k, in, in.size() <= 4 ? 0x1f : 0xb); });
        }
    });
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    const auto all = {int(F_INT), int(F_WORD), int(F_CHAR), int(F_CP), int(F_SET), int(F_BOOL)};
    if (R.group("ascii"))
        product({"a", " ", "{{", "}}", "F"}, 4, {"a", "7", "{", "}", " "}, th ? 5 : 4, all);
    if (R.group("spaces"))
        product({"a", " ", "\n", "\t", "F"}, 4, {"a", "7", " ", "\n", "\x0b"}, th ? 5 : 4, all);
    if (R.group("unicode"))
        product({"\xc3\xa4", "\xe4\xbd\xa0", "\xe2\x80\xa8", " ", "F"}, th ? 4 : 3, {"\xc3\xa4", "\xe4\xbd\xa0", "\xc2\x85", " ", "7", "\xc3", "\xe2\x80\xa8"}, 4, all);
    if (R.group("near misses"))
        product({"\xc3\xa4", "\xc3\xa5", "\xf0\x9f\x98\x80", "a", "F"}, 3, {"\xc3\xa4", "\xc3\xa5", "\xc3", "\xa4", "\xf0\x9f\x98\x80", "\xf0\x9f\x98\x81", "a", "A", "7"}, 3, all);
    if (R.group("bool words"))
        product({"t", ",", " ", "F"}, 3, {"true", "false", "1", "t", ",", " "}, 4, {int(F_BOOL)});
    // every ASCII character as literal against every byte
    if (R.group("every literal"))
        for (int l = 0; l < 128; ++l)
            for (int c = 0; c < 256; ++c)
                for (int shape = 0; shape < 4; ++shape) {
                    std::string e = l == '{' ? "{{" : l == '}' ? "}}" : std::string(1, char(l));
                    std::string ch(1, char(c));
                    static const Toks none;
                    if (shape == 0) one({e}, F_INT, ch, 0x1f);
                    else if (shape == 1) one({"F", e, "F"}, F_INT, "1" + ch + "2", 0x1f);
                    else if (shape == 2) one({e, "F"}, F_CHAR, ch + "x", 0x1f);
                    else one({e, e}, F_INT, ch + ch, 0x1f);
                }
    // characters that agree in their low byte, or in their last UTF-8 unit
    if (R.group("lookalike literals"))
        for (int l = 1; l < 256; ++l)
            for (char32_t lp : {0x0, 0x100, 0x2000, 0x10000})
                for (char32_t tp : {0x0, 0x100, 0x200, 0x2000, 0xff00, 0x10000, 0x100000}) {
                    std::string e = txt::enc8(lp + unsigned(l)), t = txt::enc8(tp + unsigned(l));
                    if (e == "{") e = "{{";
                    if (e == "}") e = "}}";
                    one({e}, F_INT, t, 0x1f);
                    one({"F", e, "F"}, F_INT, "1" + t + "2", 0x1f);
                    one({"F", e, e, "F"}, F_CP, "1" + t + t + "2", 0x1f);
                }
    // every whitespace character of the format against runs of each of them
    if (R.group("whitespace pairs")) {
        Toks ws = {"\t", "\n", "\x0b", "\x0c", "\r", " ", "\xc2\x85", "\xe2\x80\x8e", "\xe2\x80\x8f", "\xe2\x80\xa8", "\xe2\x80\xa9"};
        Toks no = {"\xc2\xa0", "\xe1\x9a\x80", "\xe2\x80\x83", "\xe2\x80\xaf", "\xe3\x80\x80", "\xe2\x80\x8b", "\xef\xbb\xbf", "\x1c", "\x1f", "\x08", "\x0e", "\xc2\x84", "\xc2\x86", "\xe2\x80\x8d", "\xe2\x80\x90", "\xe2\x80\xa7", "\xe2\x80\xaa"};
        for (auto& f : ws)
            for (auto& f2 : ws)
                for (int n = 0; n <= (th ? 20 : 9); ++n)
                    for (auto& t : ws)
                        for (int shape = 0; shape < 4; ++shape) {
                            std::string run;
                            for (int k = 0; k < n; ++k) run += t;
                            if (shape == 0) one({"a", f, f2, "a"}, F_INT, "a" + run + "a", 0xb);
                            else if (shape == 1) one({"F", f, f2, "F"}, F_CHAR, "x" + run + "y", 0xb);
                            else if (shape == 2) one({f, "F", f2}, F_INT, run + "12" + run, 0xf);
                            else one({"F", f, f2}, F_WORD, run + "ab" + run, 0xb);
                        }
        for (auto& f : ws)
            for (auto& t : no)
                for (int shape = 0; shape < 3; ++shape) {
                    if (shape == 0) one({"a", f, "a"}, F_INT, "a" + t + "a", 0x1f);
                    else if (shape == 1) one({"a", f, t, "a"}, F_INT, "a " + t + "a", 0x1f);
                    else one({f, "F"}, F_CP, " " + t, 0x1f);
                }
        for (auto& f : no)
            for (auto& t : ws) {
                one({"a", f, "a"}, F_INT, "a" + t + "a", 0x1f);
                one({"a", f, "a"}, F_INT, "a" + f + "a", 0x1f);
            }
    }
    // long literals, every place of the first difference
    if (R.group("long literals"))
        for (int len = 0; len <= 40; ++len)
            for (int at = -1; at < len; ++at)
                for (const char* c : {"k", "\xc3\xa4", "\xe4\xbd\xa0"})
                    for (const char* bad : {"j", " ", "\xc3\xa5", "7"}) {
                        Toks el;
                        std::string in;
                        for (int i = 0; i < len; ++i) {
                            el.push_back(c);
                            in += i == at ? bad : c;
                        }
                        el.push_back("F");
                        one(el, F_INT, in + "7", 0xf);
                        one(el, F_INT, in.substr(0, in.size() - (in.empty() ? 0 : 1)), 0xf);
                    }
    return R.finish();
}
