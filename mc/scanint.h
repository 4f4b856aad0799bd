// scan_int in every base and scan_int_exhaustive_valid against the model (P05, P06).
#pragma once
#include "model/ints.h"
#include "sources.h"
namespace si {
using namespace src;
using mc::Run;

template <typename R>
static Out out_of(R& r, const char* end, size_t n)
{
    ++Run::get().calls;
    Out o;
    o.ok = bool(r);
    if (r) {
        o.val = repr_all(r->values());
        auto rg = r->range();
        bool in = &*rg.begin() + rg.size() == end && rg.size() <= n;
        o.consumed = in ? long(n - rg.size()) : -1;
    }
    else
        o.code = r.error().code();
    return o;
}
static void cmp(const std::string& key, const Out& want, const Out& got)
{
    ++Run::get().checks;
    if (want != got)
        Run::get().fail(key, "expected " + want.str() + " got " + got.str());
}

// ---- scan_int in every base against the model --------------------------
template <typename T>
void scan_int_one(const char* ty, std::string_view in, int base, bool take = true)
{
    auto& R = Run::get();
    auto key = [&](const char* e) {
        return std::string(ty) + "|" + e + "|base" + std::to_string(base) + "|" + mc::esc(in);
    };
    if (take && !R.take([&] { return key("scan_int"); })) return;
    Exact<char> ex(in);
    auto sv = ex.view();
    size_t ws = model::skip_ws(in);
    auto m = model::read_int<char>(in.substr(ws), base, std::is_signed_v<T>,
                                   (unsigned long long)std::numeric_limits<T>::max(),
                                   base == 0 || base == 2 || base == 8 || base == 16);
    Out w;
    w.ok = m.code == model::OK;
    w.code = m.code;
    if (w.ok) {
        w.val = model::int_repr<T>(m) + ",";
        w.consumed = long(ws + m.consumed);
    }
    R.outcome(w.str());
    {
        auto r = scn::scan_int<T>(sv, base);
        cmp(key("scan_int"), w, out_of(r, sv.data() + sv.size(), sv.size()));
    }
    if (base == 10) {
        auto r = scn::scan_int<T>(sv);
        cmp(key("scan_int/default base"), w, out_of(r, sv.data() + sv.size(), sv.size()));
        // exactly one valid decimal numeral, nothing else
        if (w.ok && size_t(w.consumed) == in.size() && ws == 0 && in[0] != '+') {
            T v = scn::scan_int_exhaustive_valid<T>(sv);
            ++R.calls;
            ++R.checks;
            if (repr(v) + "," != w.val)
                R.fail(key("exhaustive_valid"), "expected " + w.val + " got " + repr(v));
        }
    }
}

static std::string render(unsigned __int128 v, int base, bool upper)
{
    std::string s;
    do {
        int d = int(v % unsigned(base));
        s.insert(s.begin(), d < 10 ? char('0' + d) : char((upper ? 'A' : 'a') + d - 10));
        v /= unsigned(base);
    } while (v);
    return s;
}

template <typename T>
void bases(const char* ty, bool deep)
{
    auto& R = Run::get();
    const bool th = R.thorough;
    if (!R.group(std::string("scan_int ") + ty)) return;
    using U = unsigned __int128;
    for (int base = 0; base <= 36; ++base) {
        if (base == 1) continue;
        int b = base ? base : 10;
        // the two highest digits, the first non-digit, prefix letters
        std::vector<std::string> alpha = {"0", "1", "-", "+", " ", "x", "b", "o"};
        alpha.push_back(render(U(b - 1), 36, false));
        alpha.push_back(render(U(b - 1), 36, true));
        if (b < 36) alpha.push_back(render(U(b), 37, false));
        alpha.push_back("z");
        mc::for_strings(alpha, 0, deep ? (th ? 5 : 4) : (th ? 4 : 3), [&](const std::string& in) {
            scan_int_one<T>(ty, in, base);
        });
        // around the limits
        std::vector<U> centers;
        for (int k = 7; k <= 66; ++k) centers.push_back(U(1) << k);
        U p = 1;
        for (;;) {
            p *= unsigned(b);
            if (p > (U(1) << 70)) break;
            centers.push_back(p);
            centers.push_back(p - 1);
            for (int m = 2; m < b && p > (U(1) << 56); ++m)
                centers.push_back(p * unsigned(m)), centers.push_back(p * unsigned(m) + (U(1) << 63));
        }
        for (int k = 1; k <= 40; ++k) {
            centers.push_back((U(1) << 64) * unsigned(k));
            centers.push_back((U(1) << 64) * unsigned(k) + p / unsigned(b) / unsigned(b));
        }
        for (auto c : centers)
            for (int d = -2; d <= 2; ++d) {
                U v = c + U(d + 2) - 2;
                auto n = render(v, b, d & 1);
                for (const char* sg : {"", "-", "00", "-000000000", "+"})
                    scan_int_one<T>(ty, sg + n, base);
            }
        // long strings of zeros and of digits
        for (int k = 0; k < 80; ++k) {
            scan_int_one<T>(ty, std::string(size_t(k), '0') + "1", base);
            scan_int_one<T>(ty, std::string(size_t(k), '1'), base);
            scan_int_one<T>(ty, "-" + std::string(size_t(k), '0'), base);
        }
    }
}
// every valid numeral shape for the exhaustive reader: lengths, signs, digits
template <typename T>
void exhaustive(const char* ty, int lo, int hi)
{
    auto& R = Run::get();
    if (!R.group(std::string("exhaustive ") + ty)) return;
    for (int len = lo; len <= hi; ++len)
        for (int pos = 0; pos < len; ++pos)
            for (int d = 0; d < 10; ++d)
                for (int z = 0; z < 12; ++z)
                    for (const char* fill : {"0", "1", "9", "5"})
                        for (const char* sg : {"", "-"}) {
                            std::string s(size_t(len), *fill);
                            s[size_t(pos)] = char('0' + d);
                            scan_int_one<T>(ty, sg + std::string(size_t(z), '0') + s, 10);
                        }
}

}  // namespace si
