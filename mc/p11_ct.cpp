// P11: the verdicts of the compile-time format check.  Each format string of
// the space is given to the real consteval check in a context in which the
// compiler's refusal is an answer (substitution failure), so one compilation
// decides thousands of strings.  CHUNK/CHUNKS select a part of the space.
#include "model/format.h"
#include <scn/regex.h>
#include <scn/scan.h>
#include <deque>
#include "mc.h"
#include <array>
#include <utility>
using mc::Run;
using model::Ty;
using SV = std::string_view;

// A space of strings: prefix + up to N tokens + suffix
template <size_t K>
struct Space {
    SV pre, post;
    std::array<SV, K> tok;
    int n;
    constexpr size_t size() const
    {
        size_t t = 0, p = 1;
        for (int i = 0; i <= n; ++i) t += p, p *= K;
        return t;
    }
};
struct Buf {
    char c[48]{};
    size_t n = 0;
    constexpr void add(SV s)
    {
        for (char x : s) c[n++] = x;
    }
};
template <size_t K>
constexpr Buf nth(const Space<K>& s, size_t i)
{
    Buf b;
    b.add(s.pre);
    size_t p = 1;
    int len = 0;
    while (i >= p) i -= p, p *= K, ++len;
    for (int k = 0; k < len; ++k) {
        p /= K;
        b.add(s.tok[i / p]);
        i %= p;
    }
    b.add(s.post);
    return b;
}
template <const auto& S, size_t I>
struct Str {
    static constexpr Buf v = nth(S, I);
    static constexpr SV get() { return {v.c, v.n}; }
};
template <class... A>
struct types {};
template <class S, class Src, class T, class = void>
struct ok : std::false_type {};
template <class S, class Src, class... A>
struct ok<S, Src, types<A...>, std::void_t<std::bool_constant<(static_cast<void>(scn::scan_format_string<Src, A...>(S::get())), true)>>> : std::true_type {};

template <typename T> constexpr Ty ty_of = Ty::INT;
template <> constexpr Ty ty_of<unsigned> = Ty::UINT;
template <> constexpr Ty ty_of<double> = Ty::FLOAT;
template <> constexpr Ty ty_of<bool> = Ty::BOOL;
template <> constexpr Ty ty_of<char> = Ty::CHAR;
template <> constexpr Ty ty_of<char32_t> = Ty::CP;
template <> constexpr Ty ty_of<std::string> = Ty::STR;
template <> constexpr Ty ty_of<SV> = Ty::SV;
template <> constexpr Ty ty_of<void*> = Ty::PTR;
template <> constexpr Ty ty_of<scn::regex_matches> = Ty::RX;
template <class... A>
std::vector<Ty> tys(types<A...>)
{
    return {ty_of<A>...};
}
static const char* const ty_names[] = {"int", "unsigned", "double", "bool", "char", "char32_t", "string", "string_view", "void*", "regex_matches"};

template <const auto& S, class Src, class T, bool Contig, size_t... I>
void run(std::index_sequence<I...>)
{
    static constexpr bool verdict[] = {ok<Str<S, I * CHUNKS + CHUNK>, Src, T>::value...};
    auto& R = Run::get();
    const auto ts = tys(T{});
    std::string nm = Contig ? "" : "deque: ";
    for (auto t : ts) nm += std::string(ty_names[int(t)]) + ",";
    for (size_t k = 0; k < sizeof...(I); ++k) {
        Buf b = nth(S, k * CHUNKS + CHUNK);
        std::string f(b.c, b.n);
        if (!R.take([&] { return nm + mc::esc(f); })) continue;
        ++R.calls;
        ++R.checks;
        auto v = model::check_format(f, ts, Contig);
        R.outcome(nm + f);
        if (v.valid != verdict[k])
            R.fail("compile time|" + nm + "|" + mc::esc(f), v.valid ? "a valid format does not compile" : "an invalid format compiles");
    }
}
template <const auto& S, class T, class Src = SV, bool Contig = true>
void go()
{
    if constexpr (S.size() > CHUNK)
        run<S, Src, T, Contig>(std::make_index_sequence<(S.size() - CHUNK + CHUNKS - 1) / CHUNKS>{});
}

#ifdef MC_THOROUGH
constexpr int extra = 1;
#else
constexpr int extra = 0;
#endif
constexpr Space<19> specs{"{:", "}", {"<", ">", "^", "5", "0", ".", "L", "d", "s", "[", "]", "a", "c", "{", "}", "x", "/", "-", "\xc3\xa4"}, 3 + extra};
constexpr Space<8> raw{"", "", {"{", "}", ":", "0", "1", "<", "d", "a"}, 5 + extra};
constexpr Space<20> fields{"", "", {"{}", "{0}", "{1}", "{2}", "{:d}", "{0:d}", "{1:}", "{:5}", "{2:x}", "{{", "}}", "{", "}", ",", "{00}", "{:", "{:s}", "{L}", "\xc3\xa4", "\xff"}, 3};
constexpr Space<9> sets{"{:[", "}", {"a", "z", "-", "^", "]", "[", "\xc3\xa4", "\xc3", "}"}, 4 + extra};
constexpr Space<8> opts{"{:", "}", {"<", "*>", "5", "3", ".", "L", "d", "c"}, 4 + extra};

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    R.group("compile time: specifications");
    go<specs, types<int>>();
    go<specs, types<unsigned>>();
    go<specs, types<double>>();
    go<specs, types<bool>>();
    go<specs, types<char>>();
    go<specs, types<char32_t>>();
    go<specs, types<std::string>>();
    go<specs, types<SV>>();
    go<specs, types<void*>>();
    go<specs, types<scn::regex_matches>>();
    go<specs, types<SV>, std::deque<char>, false>();
    R.group("compile time: options");
    go<opts, types<int>>();
    go<opts, types<double>>();
    go<opts, types<bool>>();
    go<opts, types<char>>();
    go<opts, types<std::string>>();
    R.group("compile time: sets");
    go<sets, types<std::string>>();
    R.group("compile time: raw strings");
    go<raw, types<>>();
    go<raw, types<int>>();
    go<raw, types<int, int>>();
    R.group("compile time: fields");
    go<fields, types<int>>();
    go<fields, types<int, int>>();
    go<fields, types<int, char, unsigned>>();
    return R.finish();
}
