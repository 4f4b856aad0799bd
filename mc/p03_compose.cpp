// P03: one call with several fields = the fields one after another, each from
// the range that the call before returned.
#include "sources.h"
#include "text.h"
#include <array>
#include <forward_list>
#include <vector>
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

template <typename... T>
struct L {};

// run one chunk on a range, then hand the rest to the continuation
template <typename Range, typename Fmt, typename K, typename... T>
Out chunk(L<T...>, const Range& rg, Fmt fmt, K&& k)
{
    Out o;
    auto r = scn::scan<T...>(rg, scn::runtime_format(fmt));
    ++Run::get().calls;
    o.ok = r.has_value();
    if (!r) {
        o.code = r.error().code();
        return o;
    }
    o.val = repr_all(r->values());
    auto rest = r->range();
    if (!(r->begin() == rest.begin()) || !(r->end() == rest.end())) o.val += "begin/end?";
    Out n = k(rest);
    if (!n.ok) {
        n.val.clear();
        return n;
    }
    o.val += n.val;
    o.consumed = n.consumed;
    return o;
}
// continuation at the end: how far we are from the end of the source
struct Left {
    long total;
    template <typename R>
    Out operator()(const R& r) const
    {
        Out o;
        o.ok = true;
        o.consumed = total - long(std::distance(r.begin(), r.end()));
        return o;
    }
};
template <typename End>
struct LeftEnd {
    long total;
    End end;
    template <typename R>
    Out operator()(const R& r) const
    {
        Out o = Left{total}(r);
        if (!(r.end() == end)) o.consumed = -1;
        return o;
    }
};
template <typename S>
LeftEnd<decltype(std::declval<const S&>().end())> fin(const S& s)
{
    return {long(std::distance(s.begin(), s.end())), s.end()};
}

static void cmp(const char* what, const std::string& key, const Out& joint, const Out& chain)
{
    ++Run::get().checks;
    if (joint != chain)
        Run::get().fail(std::string(what) + "|" + key, "one call: " + joint.str() + " chained: " + chain.str());
}

template <typename... T>
static void file_step(L<T...>, FILE* f, const std::string& fmt, Out& o)
{
    auto r = scn::scan<T...>(f, scn::runtime_format(std::string_view(fmt)));
    ++Run::get().calls;
    if (r) o.val += repr_all(r->values());
    else {
        o.ok = false;
        o.code = r.error().code();
    }
}
// FILE: chained calls on the same stream
template <typename... C, typename... F>
static Out file_chain(std::string_view in, uint64_t cuts, int mode, std::tuple<C...> chunks, const F&... fmts)
{
    CookieFile cf(in, cuts, mode);
    Out o;
    o.ok = true;
    auto step = [&](auto l, const std::string& fmt) {
        if (!o.ok) return;
        file_step(l, cf.f, fmt, o);
    };
    std::apply([&](auto... c) { (step(c, fmts), ...); }, chunks);
    auto rest = cf.rest();
    o.consumed = long(in.size()) - long(rest.size());
    if (rest.size() > in.size() || in.substr(in.size() - rest.size()) != rest) o.consumed = -1;
    if (!o.ok) o.consumed = 0;
    return o;
}

template <typename A, typename B>
void pair(const char* ty, const std::string& fa, const std::string& fb, const std::string& in)
{
    auto& R = Run::get();
    std::string f = fa + fb;
    std::string key = std::string(ty) + "|" + mc::esc(fa) + "|" + mc::esc(fb) + "|" + mc::esc(in);
    if (!R.take([&] { return key; })) return;
    Exact<char> ex(in);
    auto sv = ex.view();
    using SV = std::string_view;
    auto both = [&](const char* what, const auto& s, auto f, auto fa, auto fb) {
        auto e = fin(s);
        Out j = chunk(L<A, B>{}, s, f, e);
        Out c = chunk(L<A>{}, s, fa, [&](const auto& r) { return chunk(L<B>{}, r, fb, e); });
        cmp(what, key, j, c);
        R.outcome(j.str());
        return j;
    };
    Out j = both("string_view", sv, SV(f), SV(fa), SV(fb));
    std::list<char> li(in.begin(), in.end());
    Out jl = both("list", li, SV(f), SV(fa), SV(fb));
    cmp("list against string_view", key, j, jl);
    std::deque<char> dq(in.begin(), in.end());
    both("deque", dq, SV(f), SV(fa), SV(fb));
    both("string", in, SV(f), SV(fa), SV(fb));
    if (!std::is_same_v<A, char> && !std::is_same_v<B, char>) {
        if constexpr (!std::is_same_v<A, char> && !std::is_same_v<B, char>) {
            auto wi = txt::to_wide(in), wf = txt::to_wide(f), wa = txt::to_wide(fa), wb = txt::to_wide(fb);
            if (wi && wf && wa && wb) {
                using W = std::wstring_view;
                Exact<wchar_t> wex(*wi);
                both("wide", wex.view(), W(*wf), W(*wa), W(*wb));
            }
        }
    }
    Out fj = file_chain(in, 0, 0, std::tuple(L<A, B>{}), f);
    for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x2492492492492492)}) {
        Out fc = file_chain(in, cuts, 0, std::tuple(L<A>{}, L<B>{}), fa, fb);
        cmp("FILE", key, fj, fc);
    }
    cmp("FILE unbuffered", key, fj, file_chain(in, 0, 1, std::tuple(L<A>{}, L<B>{}), fa, fb));
}
template <typename A, typename B, typename C>
void triple(const char* ty, const std::string& fa, const std::string& fb, const std::string& fc, const std::string& in)
{
    auto& R = Run::get();
    std::string key = std::string(ty) + "|" + mc::esc(fa) + "|" + mc::esc(fb) + "|" + mc::esc(fc) + "|" + mc::esc(in);
    if (!R.take([&] { return key; })) return;
    std::string f = fa + fb + fc, fab = fa + fb, fbc = fb + fc;
    Exact<char> ex(in);
    using SV = std::string_view;
    auto all = [&](const char* what, const auto& s) {
        auto e = fin(s);
        Out j = chunk(L<A, B, C>{}, s, SV(f), e);
        R.outcome(j.str());
        cmp(what, key + "|1+2", j, chunk(L<A>{}, s, SV(fa), [&](const auto& r) { return chunk(L<B, C>{}, r, SV(fbc), e); }));
        cmp(what, key + "|2+1", j, chunk(L<A, B>{}, s, SV(fab), [&](const auto& r) { return chunk(L<C>{}, r, SV(fc), e); }));
        cmp(what, key + "|1+1+1", j, chunk(L<A>{}, s, SV(fa), [&](const auto& r) {
            return chunk(L<B>{}, r, SV(fb), [&](const auto& r2) { return chunk(L<C>{}, r2, SV(fc), e); });
        }));
    };
    all("string_view", ex.view());
    std::list<char> li(in.begin(), in.end());
    all("list", li);
    Out fj = file_chain(in, 0, 0, std::tuple(L<A, B, C>{}), f);
    for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x2492492492492492)}) {
        cmp("FILE 1+1+1", key, fj, file_chain(in, cuts, 0, std::tuple(L<A>{}, L<B>{}, L<C>{}), fa, fb, fc));
        cmp("FILE 2+1", key, fj, file_chain(in, cuts, 0, std::tuple(L<A, B>{}, L<C>{}), fab, fc));
        cmp("FILE 1+2", key, fj, file_chain(in, cuts, 0, std::tuple(L<A>{}, L<B, C>{}), fa, fbc));
    }
}

template <typename T>
const Toks& fields()
{
    if constexpr (std::is_same_v<T, int>) {
        static const Toks t = {"{}", "{:x}", "{:.2}", "{:*>3}"};
        return t;
    }
    else if constexpr (std::is_same_v<T, double>) {
        static const Toks t = {"{}", "{:.3}", "{:a}"};
        return t;
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        static const Toks t = {"{}", "{:[a-z1]}", "{:.2c}", "{:*<3}"};
        return t;
    }
    else {
        static const Toks t = {"{}"};
        return t;
    }
}
static const Toks pre = {"", " ", ",", ", ", "{{"};

template <typename A, typename B>
void pairs(const char* ty, const Toks& alpha, int len)
{
    if (!Run::get().group(std::string("pairs ") + ty)) return;
    for (auto& a : fields<A>())
        for (auto& b : fields<B>())
            for (auto& p : pre)
                mc::for_strings(alpha, 0, len, [&](const std::string& in) {
                    pair<A, B>(ty, a, p + b, in);
                    if (!p.empty()) pair<A, B>(ty, a + p, b, in);
                });
}
template <typename A, typename B, typename C>
void triples(const char* ty, const Toks& alpha, int len)
{
    if (!Run::get().group(std::string("triples ") + ty)) return;
    for (auto& p : Toks{"", " ", ","})
        for (auto& q : Toks{"", " ", ","})
            for (auto& a : fields<A>())
                mc::for_strings(alpha, 0, len, [&](const std::string& in) {
                    triple<A, B, C>(ty, a, p + "{}", q + "{}", in);
                });
}

// every argument count: N integers in one call against N calls
template <size_t... I>
auto reps(std::index_sequence<I...>) -> L<std::enable_if_t<(I + 1 > 0), int>...>;
template <size_t N>
void count(size_t given, const std::string& bad)
{
    auto& R = Run::get();
    std::string key = "count " + std::to_string(N) + "|" + std::to_string(given) + "|" + bad;
    if (!R.take([&] { return key; })) return;
    std::string in, fmt;
    for (size_t i = 0; i < given; ++i) in += (i ? " " : "") + std::to_string(i * 7);
    in += bad;
    for (size_t i = 0; i < N; ++i) fmt += "{}";
    using T = decltype(reps(std::make_index_sequence<N>{}));
    auto go = [&](const char* what, const auto& s) {
        auto e = fin(s);
        Out j = chunk(T{}, s, std::string_view(fmt), e);
        // one at a time
        Out c;
        c.ok = true;
        auto it = s.begin();
        for (size_t i = 0; i < N && c.ok; ++i) {
            auto r = scn::scan<int>(scn::ranges::subrange(it, s.end()), "{}");
            ++R.calls;
            if (!r) {
                c.ok = false;
                c.code = r.error().code();
                break;
            }
            c.val += repr(r->value()) + ",";
            it = r->begin();
        }
        if (c.ok) c.consumed = long(std::distance(s.begin(), it));
        cmp(what, key, j, c);
    };
    go("string", in);
    std::list<char> li(in.begin(), in.end());
    go("list", li);
    // all indices given by hand, in reverse
    fmt.clear();
    for (size_t i = N; i-- > 0;) fmt += "{" + std::to_string(i) + "}";
    Out rev = chunk(T{}, in, std::string_view(fmt), fin(in));
    Out c;
    c.ok = true;
    std::vector<std::string> vals;
    std::string_view rest = in;
    for (size_t i = 0; i < N; ++i) {
        auto r = scn::scan<int>(rest, "{}");
        if (!r) {
            c.ok = false;
            c.code = r.error().code();
            break;
        }
        vals.push_back(repr(r->value()));
        rest = std::string_view(r->range().data(), r->range().size());
    }
    if (c.ok) {
        for (size_t i = vals.size(); i-- > 0;) c.val += vals[i] + ",";
        c.consumed = long(in.size() - rest.size());
    }
    cmp("indices in reverse", key, rev, c);
}
template <size_t N>
void counts()
{
    for (size_t g : {N - 1, N, N + 1})
        for (const char* b : {"", " ", " x", "x"}) count<N>(g, b);
}

// every kind of range that can be scanned: arrays, vectors, forward lists,
// subranges of them, ranges that end at a sentinel
template <typename C>
struct Zero {  // ends at a terminator
    friend bool operator==(const C* p, Zero) { return *p == C{}; }
    friend bool operator==(Zero, const C* p) { return *p == C{}; }
    friend bool operator!=(const C* p, Zero) { return *p != C{}; }
    friend bool operator!=(Zero, const C* p) { return *p != C{}; }
};
template <typename R>
static long length(const R& r)
{
    long n = 0;
    auto b = scn::ranges::begin(r);
    auto e = scn::ranges::end(r);
    for (; b != e; ++b) ++n;
    return n;
}
template <typename T, typename C, typename R>
static Out kind_chain(const R& r, const std::vector<std::basic_string<C>>& fmts, size_t i)
{
    Out o;
    auto res = scn::scan<T>(r, scn::runtime_format(std::basic_string_view<C>(fmts[i])));
    ++Run::get().calls;
    o.ok = res.has_value();
    if (!res) {
        o.code = res.error().code();
        return o;
    }
    o.val = repr(res->value()) + ",";
    auto rest = res->range();
    long left = length(rest);
    if (i + 1 == fmts.size()) {
        o.consumed = -left;
        return o;
    }
    // a subrange of a subrange is the same type: stays finite
    Out n = kind_chain<T, C>(rest, fmts, i + 1);
    if (!n.ok) {
        n.val.clear();
        return n;
    }
    n.val = o.val + n.val;
    return n;
}
template <typename T, typename C>
static void kinds_on(const char* ty, const std::basic_string<C>& in, const std::vector<std::basic_string<C>>& fmts, const std::string& name)
{
    std::basic_string_view<C> sv(in);
    Out want = kind_chain<T, C>(sv, fmts, 0);
    auto chk = [&](const char* k, const auto& r) {
        Out g = kind_chain<T, C>(r, fmts, 0);
        ++Run::get().checks;
        if (!(g == want)) Run::get().fail(std::string("kinds|") + ty + "|" + k + "|" + name, "view: " + want.str() + " this: " + g.str());
    };
    Run::get().outcome(want.str());
    chk("string", in);
    std::vector<C> v(in.begin(), in.end());
    chk("vector", v);
    std::forward_list<C> fl(in.begin(), in.end());
    chk("forward_list", fl);
    std::list<C> li(in.begin(), in.end());
    chk("list", li);
    std::deque<C> dq(in.begin(), in.end());
    chk("subrange of deque", scn::ranges::subrange(dq.begin(), dq.end()));
    chk("subrange of list", scn::ranges::subrange(li.begin(), li.end()));
    chk("subrange of vector", scn::ranges::subrange(v.begin(), v.end()));
    chk("subrange of pointers", scn::ranges::subrange(in.data(), in.data() + in.size()));
    if (in.find(C{}) == in.npos) chk("terminated", scn::ranges::subrange(in.c_str(), Zero<C>{}));
    auto arr = [&](auto n) {
        constexpr size_t N = decltype(n)::value;
        if (in.size() != N) return;
        C a[N + 1] = {};
        std::copy(in.begin(), in.end(), a);
        const C(&ca)[N + 1] = a;
        chk("array", ca);
        if constexpr (N > 0) {
            std::array<C, N> sa;
            std::copy(in.begin(), in.end(), sa.begin());
            chk("std::array", sa);
        }
    };
    arr(std::integral_constant<size_t, 0>{});
    arr(std::integral_constant<size_t, 1>{});
    arr(std::integral_constant<size_t, 2>{});
    arr(std::integral_constant<size_t, 3>{});
    arr(std::integral_constant<size_t, 4>{});
    arr(std::integral_constant<size_t, 5>{});
    arr(std::integral_constant<size_t, 6>{});
}
template <typename T>
static void kinds(const char* ty, const std::string& in, const std::vector<std::vector<std::string>>& fmts)
{
    auto& R = Run::get();
    for (auto& f : fmts) {
        std::string name = mc::esc(in);
        for (auto& x : f) name += "|" + x;
        if (!R.take([&] { return std::string("kinds ") + ty + " " + name; })) continue;
        kinds_on<T, char>(ty, in, f, name);
        if constexpr (!std::is_same_v<T, char>) {
            auto wi = txt::to_wide(in);
            if (!wi) continue;
            std::vector<std::wstring> wf;
            for (auto& x : f) wf.push_back(*txt::to_wide(x));
            kinds_on<T, wchar_t>((std::string("wide ") + ty).c_str(), *wi, wf, name);
        }
    }
}

template <size_t First, size_t... I>
static void counts_from(std::index_sequence<I...>)
{
    (counts<int(First + I)>(), ...);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const int d = R.thorough ? 1 : 0;
    const Toks num = {"1", "23", " ", ",", "-", "a", "*", "."};
    const Toks str = {"a", "1", " ", ",", "{", "\xc3\xa4", "\xc2\x85", "*"};
    pairs<int, int>("int,int", num, 4 + d);
    pairs<int, std::string>("int,string", {"1", "2", " ", ",", "a", "*", "\xc3\xa4", "\xe2\x80\xa8"}, 4 + d);
    pairs<std::string, int>("string,int", {"1", " ", ",", "a", "*", "\xc3\xa4", "\n"}, 4 + d);
    pairs<std::string, std::string>("string,string", str, 4 + d);
    pairs<double, double>("double,double", {"1", ".", "e", " ", ",", "-", "0x", "inf"}, 4 + d);
    pairs<double, int>("double,int", {"1", ".", "e5", " ", ",", "-", "n", "p"}, 4 + d);
    pairs<int, double>("int,double", {"1", ".", "x", " ", ",", "0", "nan"}, 4 + d);
    pairs<double, std::string>("double,string", {"1", ".", "e", " ", ",", "i", "nf"}, 4 + d);
    pairs<int, char>("int,char", {"1", " ", ",", "a", "\n", "\xc3"}, 5 + d);
    pairs<char, int>("char,int", {"1", " ", ",", "-", "\n", "\xc3"}, 5 + d);
    pairs<char32_t, char32_t>("char32,char32", {"a", " ", ",", "\xc3\xa4", "\xf0\x9f\x98\x80", "\xe4"}, 5 + d);
    pairs<char32_t, std::string>("char32,string", {"a", " ", ",", "\xc3\xa4", "\xf0\x9f\x98\x80"}, 4 + d);
    pairs<std::string, bool>("string,bool", {"true", "a", " ", "0", "1", ","}, 4 + d);
    pairs<bool, int>("bool,int", {"true", "1", " ", "0", "2", ",", "false"}, 4 + d);
    triples<int, int, int>("int,int,int", {"1", "2", " ", ",", "-", "x"}, 6 + d);
    triples<std::string, int, std::string>("string,int,string", {"a", "1", " ", ",", "\xc2\x85"}, 6 + d);
    triples<int, char, std::string>("int,char,string", {"a", "1", " ", ",", "-"}, 6 + d);
    triples<double, std::string, char32_t>("double,string,char32", {"1", ".", "e", " ", ",", "\xc3\xa4"}, 5 + d);
    if (R.group("kinds of ranges")) {
        mc::for_strings({"1", "2", " ", ",", "-", "a"}, 0, 4 + d, [&](const std::string& in) { kinds<int>("int", in, {{"{}", "{}", "{}"}, {"{}", ",{}"}, {"{:.1}", "{:x}"}}); });
        mc::for_strings({"a", "b", " ", "\xc3\xa4", "\n"}, 0, 4 + d, [&](const std::string& in) { kinds<std::string>("string", in, {{"{}", "{}", "{}"}, {"{:[a]}", "{:[b]}"}, {"{:.1c}", "{:.2}"}}); });
        mc::for_strings({"a", " ", "\xc3\xa4", "\xf0\x9f\x98\x80"}, 0, 4, [&](const std::string& in) { kinds<char32_t>("char32_t", in, {{"{}", "{}", "{}"}, {" {}", "a{}"}}); });
        mc::for_strings({"a", " ", "\xc3", std::string(1, '\0')}, 0, 4 + d, [&](const std::string& in) { kinds<char>("char", in, {{"{}", "{}", "{}"}, {" {}", "a{}"}}); });
        mc::for_strings({"1", ".", " ", "e", "inf", "-"}, 0, 4 + d, [&](const std::string& in) { kinds<double>("double", in, {{"{}", "{}"}, {"{:.2}", "{:f}"}}); });
    }
    if (R.group("argument counts")) {
        // every count up to 34, which has the limits of packed argument lists
        counts_from<1>(std::make_index_sequence<34>{});
        counts_from<62>(std::make_index_sequence<5>{});
        counts<70>();
    }
    return R.finish();
}
