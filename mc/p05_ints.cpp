// P05: integers against an independent arithmetic model.
#include <cwchar>
#include "scanint.h"
using namespace src;
using mc::Run;

struct Spec {
    const char* fmt;
    const wchar_t* wfmt;
    int base;
    bool unsig;
};
static const Spec specs[] = {
    {"{}", L"{}", 10, false},    {"{:d}", L"{:d}", 10, false},
    {"{:u}", L"{:u}", 10, true}, {"{:i}", L"{:i}", 0, false},
    {"{:x}", L"{:x}", 16, false}, {"{:X}", L"{:X}", 16, false},
    {"{:o}", L"{:o}", 8, false}, {"{:b}", L"{:b}", 2, false},
    {"{:B}", L"{:B}", 2, false}, {"{0}", L"{0}", 10, false},
    {"{0:}", L"{0:}", 10, false}, {"{0:x}", L"{0:x}", 16, false}};
static const std::vector<int> main_specs = {0, 1, 2, 3, 4, 6, 7};

template <typename T, typename CharT>
Out want_for(std::basic_string_view<CharT> in, const Spec& sp)
{
    Out o;
    size_t ws = model::skip_ws(in);
    auto m = model::read_int<CharT>(in.substr(ws), sp.base,
                                    std::is_signed_v<T> && !sp.unsig,
                                    (unsigned long long)std::numeric_limits<T>::max());
    o.ok = m.code == model::OK;
    o.code = m.code;
    if (o.ok) {
        o.val = model::int_repr<T>(m) + ",";
        o.consumed = long(ws + m.consumed);
    }
    return o;
}

template <typename T>
void one(const char* ty, std::string_view in, const Spec& sp, bool wide)
{
    auto& R = Run::get();
    if (!R.take([&] {
            return std::string(ty) + " " + sp.fmt + " \"" + mc::esc(in) + "\"";
        }))
        return;
    Exact<char> ex(in);
    Out w = want_for<T, char>(in, sp);
    Out g = scan_sv<T>(ex.view(), sp.fmt);
    ++R.checks;
    R.outcome(w.str());
    if (w != g)
        R.fail(std::string(ty) + "|" + sp.fmt + "|" + mc::esc(in),
               "model: " + w.str() + " scanned: " + g.str());
    if (!wide) return;
    if (in.size() <= 3) {
        auto seg = [&](const char* k, Out x) {
            ++R.checks;
            if (!x.ok) x.consumed = 0;
            if (w != x)
                R.fail(std::string(ty) + "|" + k + "|" + sp.fmt + "|" + mc::esc(in),
                       "model: " + w.str() + " scanned: " + x.str());
        };
        seg("list", scan_list<T>(in, sp.fmt));
        seg("FILE", scan_file<T>(in, sp.fmt, 0));
        seg("split FILE", scan_file<T>(in, sp.fmt, ~uint64_t(0)));
    }
    auto wi = txt::to_wide(in);
    if (!wi) return;
    Exact<wchar_t> wex(*wi);
    w = want_for<T, wchar_t>(*wi, sp);
    g = scan_wsv<T>(wex.view(), sp.wfmt);
    ++R.checks;
    if (w != g)
        R.fail(std::string(ty) + "|wide|" + sp.fmt + "|" + mc::esc(in),
               "model: " + w.str() + " scanned: " + g.str());
}

using Toks = std::vector<std::string>;

static std::string render(unsigned __int128 v, int base, bool upper = false)
{
    std::string s;
    do {
        int d = int(v % unsigned(base));
        s.insert(s.begin(), d < 10 ? char('0' + d) : char((upper ? 'A' : 'a') + d - 10));
        v /= unsigned(base);
    } while (v);
    return s;
}

template <typename T>
void strings(const char* ty, int len, bool all_specs)
{
    auto& R = Run::get();
    if (!R.group(std::string("strings ") + ty)) return;
    const Toks alpha = {"0", "1", "2", "7", "8", "9", "a", "F", "g", "x", "B", "o", "-", "+", " ", "."};
    auto run = [&](const Spec& sp) {
        mc::for_strings(alpha, 0, len, [&](const std::string& in) {
            one<T>(ty, in, sp, in.size() <= 3);
        });
    };
    if (all_specs)
        for (auto& sp : specs) run(sp);
    else
        for (int i : main_specs) run(specs[i]);
}

// numerals around every limit, in every base, with prefixes and zeros
template <typename T>
void limits(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("limits ") + ty)) return;
    using U = unsigned __int128;
    std::vector<U> centers = {0};
    for (int b = 7; b <= 66; ++b) centers.push_back(U(1) << b);
    const U two64 = U(1) << 64;
    for (int k = 2; k <= 17; ++k) centers.push_back(two64 * unsigned(k));
    U p10 = 1;
    for (int k = 1; k <= 22; ++k) {
        p10 *= 10;
        centers.push_back(p10);
        for (int m = 1; m <= 9; ++m)
            if (k >= 18) centers.push_back(p10 * unsigned(m));
    }
    // wrapped values that look large enough
    for (int k = 1; k <= 9; ++k) {
        centers.push_back(two64 * unsigned(k) + U(10000000000000000000ull));
        centers.push_back(two64 * unsigned(k) + (two64 >> 1));
    }
    const int win = R.thorough ? 40 : 3;
    for (auto c : centers)
        for (int d = -win; d <= win; ++d) {
            if (d < 0 && c < U(-d)) continue;
            U v = d < 0 ? c - U(-d) : c + U(d);
            for (auto& sp : specs) {
                std::vector<std::pair<int, const char*>> forms;
                if (sp.base == 10) forms = {{10, ""}};
                else if (sp.base == 16) forms = {{16, ""}, {16, "0x"}, {16, "0X"}};
                else if (sp.base == 8) forms = {{8, ""}, {8, "0o"}, {8, "0"}};
                else if (sp.base == 2) forms = {{2, ""}, {2, "0b"}, {2, "0B"}};
                else forms = {{10, ""}, {16, "0x"}, {8, "0"}, {8, "0o"}, {2, "0b"}};
                for (auto [b, p] : forms) {
                    std::string num = render(v, b);
                    for (const char* sg : {"", "-", "+"})
                        for (const char* z : {"", "0", "00000000"}) {
                            if (sp.base == 0 && *z) continue;
                            for (const char* tail : {"", " 1", "x", "\xc3\xa4"})
                                one<T>(ty, std::string(sg) + p + z + num + tail, sp, !*tail);
                        }
                    if (b == 16)
                        one<T>(ty, p + render(v, b, true), sp, true);
                }
            }
        }
}

// every byte value at every position of a digit string
template <typename T>
void bytes(const char* ty, int maxlen)
{
    auto& R = Run::get();
    if (!R.group(std::string("bytes ") + ty)) return;
    for (int si : {0, 1, 3, 4, 6, 7})
        for (int len = 1; len <= maxlen; ++len)
            for (int pos = 0; pos < len; ++pos)
                for (int b = 0; b < 256; ++b)
                    for (const char* base : {"1234567890123456789012345", "0000000000000000000000000", "9999999911111111000000001"}) {
                        std::string s(base, size_t(len));
                        s[size_t(pos)] = char(b);
                        one<T>(ty, s, specs[si], false);
                    }
}
// pairs of odd bytes inside the same block
template <typename T>
void pairs(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("byte pairs ") + ty)) return;
    const std::string odd = std::string("/:;09@ \x10\x2f\x3a\x40\xb0\xb9\xff\x80", 15) + '\0';
    for (int lead : {0, 1, 8})
        for (int len : {8, 9, 16})
            for (int i = 0; i < len; ++i)
                for (int j = i + 1; j < len; ++j)
                    for (char a : odd)
                        for (char b : odd) {
                            std::string s(size_t(lead), '0');
                            std::string t(size_t(len), '5');
                            t[size_t(i)] = a;
                            t[size_t(j)] = b;
                            one<T>(ty, s + t, specs[0], false);
                        }
}
// all digit strings over {0,1,9} across the 8-digit block boundary
template <typename T>
void blocks(const char* ty, int lo, int hi)
{
    auto& R = Run::get();
    if (!R.group(std::string("blocks ") + ty)) return;
    const Toks alpha = {"0", "1", "9"};
    mc::for_strings(alpha, lo, hi, [&](const std::string& in) {
        one<T>(ty, in, specs[0], false);
        one<T>(ty, "-" + in, specs[1], false);
    });
}
// characters that share their low byte, or their meaning, with a digit, a
// sign, a prefix letter or a space, without being one
static const Toks lookalikes = {
    "\xc4\xb1", "\xc4\xad", "\xc4\xab", "\xc5\xb8", "\xc4\xa0", "\xd9\xa1", "\xef\xbc\x91", "\xe2\x88\x92", "\xf0\x9d\x9f\x8f", "\xc4\xb9", "\xc5\xa1"};
template <typename T>
void odd_characters(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("lookalikes ") + ty)) return;
    Toks alpha = {"1", "0", "-", " "};
    for (auto& t : lookalikes) alpha.push_back(t);
    for (int si : main_specs)
        mc::for_strings(alpha, 1, R.thorough ? 4 : 3, [&](const std::string& in) { one<T>(ty, in, specs[si], true); });
}
// wide characters of every value up to U+1FFFF, and beyond Unicode, around a numeral
template <typename T>
void wide_values(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("wide values ") + ty)) return;
    std::vector<wchar_t> cs;
    for (long c = 0; c <= 0x1ffff; ++c)
        if (c < 0xd800 || c > 0xdfff) cs.push_back(wchar_t(c));
    for (unsigned long hi : {0x100000ul, 0x110000ul, 0x7fffff00ul, 0x80000000ul, 0xffffff00ul, 0x1000000ul, 0xd800ul, 0xdc00ul})
        for (unsigned long lo = 0; lo < 256; ++lo) cs.push_back(wchar_t(hi + lo));
    for (int si : main_specs)
        for (wchar_t c : cs)
            for (const wchar_t* form : {L"?", L"1?", L"?1", L"0?1", L"-?", L"1?1"}) {
                std::wstring in = form;
                in[in.find(L'?')] = c;
                auto key = [&] {
                    return std::string(ty) + "|wide value|" + specs[si].fmt + "|" + std::to_string(long(c)) + "|" + std::string(form, form + std::wcslen(form));
                };
                if (!R.take(key)) continue;
                Exact<wchar_t> ex(in);
                auto w = want_for<T, wchar_t>(in, specs[si]);
                auto g = scan_wsv<T>(ex.view(), specs[si].wfmt);
                ++R.checks;
                if (w != g) R.fail(key(), "model: " + w.str() + " scanned: " + g.str());
            }
}
// numerals of every length up to a few hundred digits
template <typename T>
void long_numerals(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("long numerals ") + ty)) return;
    for (int si : main_specs) {
        auto& sp = specs[si];
        for (int len = 1; len <= (R.thorough ? 1100 : 300); ++len)
            for (const char* head : {"", "-", "0x", "0b", "0o", "  "})
                for (char fill : {'0', '1', '9'})
                    for (const char* tail : {"", "1", "7 ", "x"})
                        one<T>(ty, head + std::string(size_t(len), fill) + tail, sp, true);
    }
}
// every value of the type (and a margin around it)
template <typename T>
void all_values(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("all values ") + ty)) return;
    const long lo = long(std::numeric_limits<T>::min()) - 300, hi = long(std::numeric_limits<T>::max()) + 300;
    for (long v = lo; v <= hi; ++v)
        for (int si : main_specs) {
            auto& sp = specs[si];
            std::string n = render((unsigned __int128)(v < 0 ? -v : v), sp.base ? sp.base : 10);
            one<T>(ty, (v < 0 ? "-" : "") + n, sp, true);
        }
}

template <typename T>
void all(const char* ty, bool full)
{
    const bool th = Run::get().thorough;
    strings<T>(ty, th ? (full ? 6 : 5) : (full ? 5 : 4), full);
    limits<T>(ty);
    bytes<T>(ty, full ? 24 : 18);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    all<int>("int", true);
    all<signed char>("schar", false);
    all<short>("short", false);
    all<long>("long", false);
    all<long long>("llong", false);
    all<unsigned char>("uchar", false);
    all<unsigned short>("ushort", false);
    all<unsigned>("uint", false);
    all<unsigned long>("ulong", true);
    all<unsigned long long>("ullong", false);
    all_values<signed char>("schar");
    all_values<unsigned char>("uchar");
    all_values<short>("short");
    all_values<unsigned short>("ushort");
    pairs<unsigned long>("ulong");
    pairs<long long>("llong");
    blocks<unsigned long>("ulong", 7, th ? 13 : 11);
    blocks<int>("int", 7, th ? 12 : 10);
    odd_characters<int>("int");
    odd_characters<unsigned short>("ushort");
    odd_characters<long long>("llong");
    wide_values<int>("int");
    wide_values<unsigned long>("ulong");
    long_numerals<int>("int");
    long_numerals<unsigned char>("uchar");
    long_numerals<long long>("llong");
    si::bases<int>("int", true);
    si::bases<short>("short", false);
    si::bases<unsigned char>("uchar", false);
    si::bases<long>("long", false);
    si::bases<unsigned long>("ulong", false);
    si::exhaustive<int>("int", 1, 10);
    si::exhaustive<long>("long", 9, 19);
    return R.finish();
}
