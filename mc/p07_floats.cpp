// P07: floating-point values against a grammar model and isolated rounding.
#include "model/floats.h"
#include "sources.h"
using namespace src;
using mc::Run;

template <typename T>
Out want_for(std::string_view in, int opt)
{
    Out o;
    size_t ws = model::skip_ws(in);
    auto m = model::read_float(in.substr(ws), opt);
    T v{};
    o.code = model::float_value<T>(m, v);
    o.ok = o.code == model::OK;
    if (o.ok) {
        o.val = repr(v) + ",";
        o.consumed = long(ws + m.consumed);
    }
    return o;
}

template <typename T>
void one(const char* ty, std::string_view in, char pres)
{
    auto& R = Run::get();
    std::string fmt = pres == '0' ? "{}" : pres == ':' ? "{:}" : std::string("{:") + pres + "}";
    if (!R.take([&] {
            return std::string(ty) + " " + fmt + " \"" + mc::esc(in) + "\"";
        }))
        return;
    Exact<char> ex(in);
    Out w = want_for<T>(in, model::fopt(pres));
    Out g = scan_sv<T>(ex.view(), fmt);
    ++R.checks;
    R.outcome(w.str());
    if (w != g)
        R.fail(std::string(ty) + "|" + fmt + "|" + mc::esc(in),
               "model: " + w.str() + " scanned: " + g.str());
    auto wi = txt::to_wide(in);
    if (!wi) return;
    Exact<wchar_t> wex(*wi);
    std::wstring wf(fmt.begin(), fmt.end());
    g = scan_wsv<T>(wex.view(), wf);
    if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
    ++R.checks;
    if (w != g)
        R.fail(std::string(ty) + "|wide|" + fmt + "|" + mc::esc(in),
               "model: " + w.str() + " scanned: " + g.str());
    if (in.size() <= 6 || in.size() % 3 == 0) {
        g = scan_list<T>(in, fmt);
        ++R.checks;
        if (w != g)
            R.fail(std::string(ty) + "|list|" + fmt + "|" + mc::esc(in),
                   "model: " + w.str() + " scanned: " + g.str());
    }
}

using Toks = std::vector<std::string>;

template <typename T>
void sweep(const char* ty, const char* grp, const char* pres, const Toks& alpha, int lo, int hi)
{
    auto& R = Run::get();
    if (!R.group(std::string(grp) + " " + ty)) return;
    for (; *pres; ++pres)
        mc::for_strings(alpha, lo, hi, [&](const std::string& in) { one<T>(ty, in, *pres); });
}

// numerals at the edges of the type
template <typename T>
void edges(const char* ty)
{
    auto& R = Run::get();
    if (!R.group(std::string("edges ") + ty)) return;
    using L = std::numeric_limits<T>;
    std::vector<T> vals = {L::max(), L::min(), L::denorm_min(), L::epsilon(), T(1), T(0.1L), T(1) / 3,
                           T(16777216), T(9007199254740992.0), T(9007199254740993.0L), T(123456789)};
    std::vector<T> all;
    for (T v : vals) {
        T u = v, d = v;
        for (int k = 0; k < (R.thorough ? 60 : 12); ++k) {
            all.push_back(u);
            all.push_back(d);
            u = std::nextafter(u, L::infinity());
            d = std::nextafter(d, T(0));
        }
    }
    char b[600];
    auto run = [&](std::string s) {
        for (const char* sg : {"", "-", "+"})
            for (const char* tl : {"", " ", "x", "e", "5", "\xc3\xa4"})
                for (char p : {'0', 'a', 'e', 'f', 'g'}) one<T>(ty, sg + s + tl, p);
    };
    for (T v : all) {
        if (std::isinf(v)) continue;
        for (int prec : {0, 1, 5, 8, 9, 16, 17, 20, 36}) {
            std::snprintf(b, sizeof b, "%.*Le", prec, (long double)v);
            run(b);
        }
        std::snprintf(b, sizeof b, "%La", (long double)v);
        run(b);
        std::snprintf(b, sizeof b, "%.3La", (long double)v);
        run(b);
        if (v > T(1e-30L) && v < T(1e30L)) {
            std::snprintf(b, sizeof b, "%.40Lf", (long double)v);
            run(b);
        }
        // exactly half way to the next value, and one digit above and below
        T n = std::nextafter(v, L::infinity());
        if (!std::isinf(n) && sizeof(T) < sizeof(long double)) {
            long double h = ((long double)v + (long double)n) / 2;
            std::snprintf(b, sizeof b, "%.80Le", h);
            std::string s = b;
            run(s);
            auto e = s.find('e');
            run(s.substr(0, e) + "1" + s.substr(e));
            run(s.substr(0, e) + "0000000000" + s.substr(e));
        }
    }
    // exponents around and far outside the range
    for (int e = -5200; e <= 5200; e += (std::abs(e) > 420 && std::abs(e) < 4900 ? 97 : 1)) {
        if (sizeof(T) <= 8 && std::abs(e) > 420 && std::abs(e) < 5100) continue;
        for (const char* m : {"1", "9.99", "0", "0.0001", "123456789"})
            for (const char* sg : {"", "-"}) {
                one<T>(ty, std::string(sg) + m + "e" + std::to_string(e), '0');
                one<T>(ty, std::string(sg) + m + "e" + std::to_string(e), 'e');
            }
        one<T>(ty, "0x1p" + std::to_string(e * 4), '0');
        one<T>(ty, "-1.8P" + std::to_string(e * 4), 'a');
    }
    for (const char* s : {"1e99999", "-1e99999", "1e-99999", "-1e-99999", "0e99999", "-0e-99999", "1e999999999999999999999",
                          "1e-999999999999999999999", "0x1p99999", "-0x1p-99999", "0e999999999999999999999"})
        for (char p : {'0', 'e', 'g', 'f', 'a'}) one<T>(ty, s, p);
    // long digit strings
    for (int n = 1; n <= 400; n += (n < 50 ? 1 : 37)) {
        std::string z(size_t(n), '0'), o(size_t(n), '1'), q(size_t(n), '9');
        for (auto& s : {z + "1", o, q, "0." + z + "1", "0." + q, o + ".5", q + "e-" + std::to_string(n), "1." + z, "." + o, z + "." + z})
            for (char p : {'0', 'f', 'g', 'a'}) one<T>(ty, s, p), one<T>(ty, "-" + s + " 1", p);
    }
}

template <typename T>
void all(const char* ty, bool deep)
{
    const int t = Run::get().thorough ? 1 : 0;
    const char* P = deep ? "0:aAeEfFgG" : "0aefg";
    sweep<T>(ty, "dec", P, {"1", "0", "9", ".", "e", "E", "-", "+", " ", "5"}, 0, (deep ? 5 : 4) + t);
    sweep<T>(ty, "hex", deep ? "0:agefA" : "0a", {"0", "1", "x", "X", "a", "F", ".", "p", "P", "-", "8"}, 0, (deep ? 5 : 4) + t);
    sweep<T>(ty, "letters", P, {"1", "0", "5", "a", "b", "A", "e", ".", "-", "z", "p"}, 1, (deep ? 5 : 4));
    sweep<T>(ty, "names", deep ? "0agef" : "0", {"i", "n", "f", "F", "I", "a", "t", "y", "-"}, 0, (deep ? 5 : 4) + t);
    sweep<T>(ty, "words", P, {"inf", "INF", "inity", "INITY", "init", "nan", "NaN", "(", ")", "_1z", "+", "-", " ", "e5", "\xc2\x85", "."}, 0, 4 + (deep ? t : 0));
    sweep<T>(ty, "mixed", P, {"0x", "0X", "1.5", ".", "e", "p", "10", "-", "+", " ", "\xc2\x85", "f", "g", ",", "\xff"}, 0, 4 + (deep ? t : 0));
    auto A = [](char c) { return txt::alike(c); };
    sweep<T>(ty, "lookalikes", deep ? "0aefg" : "0a", {"1", "0", ".", "e", "x", "p", "-", A('1'), A('.'), A('e'), A('x'), A('p'), A('-'), A('+'), A(' '), A('i'), "inf", "nan", A('('), "\xd9\xa1", "\xef\xbc\x91"}, 1, 3 + (deep ? t : 0));
    sweep<T>(ty, "names with lookalikes", "0", {"i", "n", "f", "a", A('i'), A('n'), A('f'), A('a'), "ini", "ty", A('t'), A('y')}, 1, 4 + (deep ? t : 0));
    edges<T>(ty);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    all<double>("double", true);
    all<float>("float", false);
    all<long double>("ldouble", false);
    return R.finish();
}
