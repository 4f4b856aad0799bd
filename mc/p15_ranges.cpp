// P15: sequences, sets, maps, pairs and tuples against a recursive model.
#include "model/floats.h"
#include "model/strings.h"
#include "sources.h"
#include "text.h"
#include <scn/ranges.h>
using namespace src;
using mc::Run;
using Toks = std::vector<std::string>;

// ---- model ---------------------------------------------------------------
struct In {
    std::string_view s;
    size_t i = 0;
    int code = model::OK;
    std::string spec;
    bool fail(int c)
    {
        code = c;
        return false;
    }
    bool skip()
    {
        i += model::skip_ws(s.substr(i));
        return i < s.size();
    }
    bool eat(char c)
    {
        if (!skip()) return fail(model::end_of_input);
        if (s[i] != c) return fail(model::invalid_scanned_value);
        ++i;
        return true;
    }
    bool peek_eat(char c)
    {
        size_t b = i;
        int cd = code;
        if (eat(c)) {
            i = b;
            return true;
        }
        i = b;
        code = cd;
        return false;
    }
};
template <typename T>
struct Rd;
template <typename T>
struct RdInt {
    static bool read(In& in, T& v)
    {
        if (!in.skip()) return in.fail(model::end_of_input);
        int base = in.spec == "x" ? 16 : in.spec == "o" ? 8 : in.spec == "b" ? 2 : in.spec == "i" ? 0 : 10;
        auto m = model::read_int<char>(in.s.substr(in.i), base, std::is_signed_v<T>, (unsigned long long)std::numeric_limits<T>::max());
        if (m.code != model::OK) return in.fail(m.code);
        v = T(m.neg ? -(__int128)m.mag : (__int128)m.mag);
        in.i += m.consumed;
        return true;
    }
};
template <> struct Rd<int> : RdInt<int> {};
template <> struct Rd<short> : RdInt<short> {};
template <> struct Rd<unsigned> : RdInt<unsigned> {};
template <>
struct Rd<bool> {
    static bool read(In& in, bool& v)
    {
        if (!in.skip()) return in.fail(model::end_of_input);
        auto r = in.s.substr(in.i);
        for (auto& [l, b] : std::vector<std::pair<std::string, bool>>{{"0", false}, {"1", true}, {"true", true}, {"false", false}})
            if (r.substr(0, l.size()) == l) {
                v = b;
                in.i += l.size();
                return true;
            }
        return in.fail(model::invalid_scanned_value);
    }
};
template <>
struct Rd<char> {
    static bool read(In& in, char& v)
    {
        if (in.i >= in.s.size()) return in.fail(model::end_of_input);
        v = in.s[in.i++];
        return true;
    }
};
template <>
struct Rd<double> {
    static bool read(In& in, double& v)
    {
        if (!in.skip()) return in.fail(model::end_of_input);
        auto m = model::read_float(in.s.substr(in.i), model::fopt('0'));
        int c = model::float_value<double>(m, v);
        if (c != model::OK) return in.fail(c);
        in.i += m.consumed;
        return true;
    }
};
template <>
struct Rd<std::string> {
    static bool read(In& in, std::string& v)
    {
        auto r = in.s.substr(in.i);
        if (!in.spec.empty() && in.spec[0] == '[') {
            bool closes;
            auto st = model::parse_set(in.spec.substr(1), closes);
            auto m = model::read_set<char>(r, st);
            if (m.code != model::OK) return in.fail(m.code);
            v = std::string(r.substr(0, m.end));
            in.i += m.end;
            return true;
        }
        auto m = model::read_word<char>(r);
        if (m.code != model::OK) return in.fail(m.code);
        v = std::string(r.substr(m.begin, m.end - m.begin));
        in.i += m.end;
        return true;
    }
};
template <typename C, typename E>
static bool read_seq(In& in, C& v, char open, char close)
{
    if (!in.eat(open)) return false;
    for (bool first = true;; first = false) {
        if (in.peek_eat(close)) break;
        if (!first && !in.eat(',')) return false;
        E e{};
        if (!Rd<E>::read(in, e)) return false;
        v.insert(v.end(), e);
    }
    return in.eat(close);
}
template <typename T> struct Rd<std::vector<T>> {
    static bool read(In& in, std::vector<T>& v) { return read_seq<std::vector<T>, T>(in, v, '[', ']'); }
};
template <typename T> struct Rd<std::deque<T>> {
    static bool read(In& in, std::deque<T>& v) { return read_seq<std::deque<T>, T>(in, v, '[', ']'); }
};
template <typename T> struct Rd<std::list<T>> {
    static bool read(In& in, std::list<T>& v) { return read_seq<std::list<T>, T>(in, v, '[', ']'); }
};
template <typename T> struct Rd<std::set<T>> {
    static bool read(In& in, std::set<T>& v)
    {
        if (!in.eat('{')) return false;
        for (bool first = true;; first = false) {
            if (in.peek_eat('}')) break;
            if (!first && !in.eat(',')) return false;
            T e{};
            if (!Rd<T>::read(in, e)) return false;
            v.insert(e);
        }
        return in.eat('}');
    }
};
template <typename S, typename T>
struct RdSet {
    static bool read(In& in, S& v)
    {
        if (!in.eat('{')) return false;
        for (bool first = true;; first = false) {
            if (in.peek_eat('}')) break;
            if (!first && !in.eat(',')) return false;
            T e{};
            if (!Rd<T>::read(in, e)) return false;
            v.insert(e);
        }
        return in.eat('}');
    }
};
template <typename T> struct Rd<std::multiset<T>> : RdSet<std::multiset<T>, T> {};
template <typename T> struct Rd<std::unordered_set<T>> : RdSet<std::unordered_set<T>, T> {};
template <typename M, typename K, typename V>
struct RdMap {
    static bool read(In& in, M& v)
    {
        if (!in.eat('{')) return false;
        for (bool first = true;; first = false) {
            if (in.peek_eat('}')) break;
            if (!first && !in.eat(',')) return false;
            K k{};
            V x{};
            if (!in.skip()) return in.fail(model::end_of_input);
            if (!Rd<K>::read(in, k) || !in.eat(':') || !Rd<V>::read(in, x)) return false;
            if (!in.skip()) return in.fail(model::end_of_input);
            v.emplace(k, x);
        }
        return in.eat('}');
    }
};
template <typename K, typename V> struct Rd<std::map<K, V>> : RdMap<std::map<K, V>, K, V> {};
template <typename K, typename V> struct Rd<std::multimap<K, V>> : RdMap<std::multimap<K, V>, K, V> {};
template <typename K, typename V> struct Rd<std::unordered_map<K, V>> : RdMap<std::unordered_map<K, V>, K, V> {};

// a sequence that holds at most three elements
struct Three {
    using value_type = int;
    std::vector<int> v;
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    size_t max_size() const { return 3; }
    void push_back(int i)
    {
        if (v.size() == 3) std::abort();
        v.push_back(i);
    }
};
static std::string repr(const Three& t) { return src::repr(t.v); }
template <>
struct Rd<Three> {
    static bool read(In& in, Three& t)
    {
        if (!in.eat('[')) return false;
        for (int i = 0; i < 3; ++i) {
            if (in.peek_eat(']')) break;
            if (i && !in.eat(',')) return false;
            int e{};
            if (!Rd<int>::read(in, e)) return false;
            t.v.push_back(e);
        }
        return in.eat(']');
    }
};
// containers with push and without max_size
struct Pushed {
    using value_type = int;
    std::vector<int> v;
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    void push(int i) { v.push_back(i); }
};
static std::string repr(const Pushed& t) { return src::repr(t.v); }
template <> struct Rd<Pushed> {
    static bool read(In& in, Pushed& t) { return read_seq<std::vector<int>, int>(in, t.v, '[', ']'); }
};
// a user's type read by range_scanner with its own brackets and separator
struct Arrows {
    std::vector<int> v;
};
static std::string repr(const Arrows& t) { return src::repr(t.v); }
template <>
struct scn::scanner<Arrows, char> : scn::range_scanner<int, char> {
    constexpr scanner()
    {
        this->set_brackets("<<", "*>");
        this->set_separator("->");
    }
    template <typename Context>
    auto scan(Arrows& a, Context& ctx) const
    {
        return scn::range_scanner<int, char>::scan(a.v, ctx);
    }
};
template <>
struct Rd<Arrows> {
    static bool text(In& in, std::string_view t)
    {
        if (!in.skip()) return in.fail(model::end_of_input);
        for (char c : t) {
            if (in.i == in.s.size()) return in.fail(model::end_of_input);
            if (in.s[in.i] != c) return in.fail(model::invalid_scanned_value);
            ++in.i;
        }
        return true;
    }
    static bool read(In& in, Arrows& a)
    {
        if (!text(in, "<<")) return false;
        for (bool first = true;; first = false) {
            In look = in;
            if (text(look, "*>")) break;
            if (!first && !text(in, "->")) return false;
            int e{};
            if (!Rd<int>::read(in, e)) return false;
            a.v.push_back(e);
        }
        return text(in, "*>");
    }
};
template <typename A, typename B> struct Rd<std::pair<A, B>> {
    static bool read(In& in, std::pair<A, B>& v)
    {
        return in.eat('(') && Rd<A>::read(in, v.first) && in.eat(',') && Rd<B>::read(in, v.second) && in.eat(')');
    }
};
template <typename... T> struct Rd<std::tuple<T...>> {
    static bool read(In& in, std::tuple<T...>& v)
    {
        if (!in.eat('(')) return false;
        bool ok = true, first = true;
        std::apply([&](auto&... e) {
            ((ok = ok && (first || in.eat(',')) && Rd<std::decay_t<decltype(e)>>::read(in, e), first = false), ...);
        }, v);
        return ok && in.eat(')');
    }
};

// what can be read from wide text: everything without a char (and the type
// with a scanner of its own, which is a narrow one)
template <typename T>
struct narrow_only : std::disjunction<std::is_same<T, char>, std::is_same<T, Arrows>> {};
template <>
struct narrow_only<std::string> : std::false_type {};
template <template <typename...> class C, typename... A>
struct narrow_only<C<A...>> : std::disjunction<narrow_only<std::remove_cv_t<A>>...> {};

// ---- comparison ----------------------------------------------------------
template <typename T>
static void one(const char* ty, const std::string& in, const std::string& spec, unsigned hows)
{
    auto& R = Run::get();
    std::string fmt = spec.empty() ? "{}" : "{:" + spec + "}";
    auto key = [&](const char* s) { return std::string(ty) + "|" + fmt + "|" + s + "|" + mc::esc(in); };
    if (!R.take([&] { return key("-"); })) return;
    In m;
    m.s = in;
    m.spec = spec;
    T v{};
    Out w;
    w.ok = Rd<T>::read(m, v);
    w.code = m.code;
    if (w.ok) {
        w.val = repr(v) + ",";
        w.consumed = long(m.i);
    }
    R.outcome(std::string(ty) + w.str());
    auto cmp = [&](const char* s, const Out& g) {
        ++R.checks;
        if (w != g) R.fail(key(s), "model: " + w.str() + " scanned: " + g.str());
    };
    {
        Exact<char> ex(in);
        cmp("view", scan_sv<T>(ex.view(), fmt));
    }
    if (hows & 2) cmp("list", scan_list<T>(in, fmt));
    if constexpr (!narrow_only<T>::value)
        if (hows & 18) {
            auto win = txt::to_wide(in), wf = txt::to_wide(fmt);
            if (win && wf) {
                auto narrow = [&](Out g) {
                    if (g.consumed > 0) g.consumed = txt::bytes_of(in, g.consumed);
                    return g;
                };
                Exact<wchar_t> ex(*win);
                cmp("wide view", narrow(scan_wsv<T>(ex.view(), *wf)));
                if (hows & 2) cmp("wide deque", narrow(scan_wdeque<T>(*win, *wf)));
            }
        }
    if (hows & 4)
        for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x924924924)}) {
            Out g = scan_file<T>(in, fmt, cuts);
            if (!g.ok) g.consumed = 0;
            cmp("FILE", g);
        }
    if (hows & 8) {
        // the field between others: same value, and the next field starts behind it
        Exact<char> ex("7" + in);
        Out g = scan_sv<int, T>(ex.view(), "{:.1}" + fmt);
        Out x = w;
        if (x.ok) x.val = "7," + x.val, x.consumed++;
        ++R.checks;
        if (x != g) R.fail(key("second"), "model: " + x.str() + " scanned: " + g.str());
    }
}
template <typename T>
static void space(const char* ty, const Toks& alpha, int len, const std::string& spec = "")
{
    if (!Run::get().group(std::string(ty) + " " + spec)) return;
    mc::for_strings(alpha, 0, len, [&](const std::string& in) {
        one<T>(ty, in, spec, in.size() <= 5 ? 15 : in.size() % 4 == 0 ? 25 : 1);
    });
}
// a well-formed text, every way of leaving out, doubling, replacing or adding a
// token, and whitespace at every place
template <typename T>
static void around(const char* ty, const Toks& text, const Toks& extra, const std::string& spec = "")
{
    if (!Run::get().group(std::string(ty) + " around " + spec)) return;
    auto join = [](const Toks& t) {
        std::string s;
        for (auto& x : t) s += x;
        return s;
    };
    one<T>(ty, join(text), spec, 15);
    std::vector<Toks> level = {text};
    for (int depth = 0; depth < (Run::get().thorough ? 3 : 2); ++depth) {
        std::vector<Toks> next;
        std::set<std::string> seen;
        for (auto& base : level)
            for (size_t p = 0; p <= base.size(); ++p) {
                auto add = [&](const Toks& t) {
                    std::string s = join(t);
                    if (!seen.insert(s).second) return;
                    one<T>(ty, s, spec, 15);
                    next.push_back(t);
                };
                if (p < base.size()) {
                    Toks t = base;
                    t.erase(t.begin() + long(p));
                    add(t);
                    t = base;
                    t.resize(p);
                    add(t);
                }
                for (auto& e : extra) {
                    Toks t = base;
                    t.insert(t.begin() + long(p), e);
                    add(t);
                    if (p < base.size()) {
                        t = base;
                        t[p] = e;
                        add(t);
                    }
                }
            }
        level.swap(next);
        if (level.size() > (Run::get().thorough ? 3000u : 400u)) level.resize(Run::get().thorough ? 3000 : 400);
    }
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    using namespace std;
    const int L = th ? 8 : 7;
    space<vector<int>>("vector<int>", {"[", "]", "1", ",", " ", "-"}, L);
    space<vector<int>>("vector<int>", {"[", "]", "f", ",", "0x1", "g"}, L - 1, "x");
    space<vector<int>>("vector<int>", {"[", "]", "0x", "7", ",", "0b1"}, L - 1, "i");
    space<vector<short>>("vector<short>", {"[", "]", "32767", ",", "0", "\n"}, L - 1);
    space<vector<unsigned>>("vector<unsigned>", {"[", "]", "-", "4294967295", ",", "6"}, L - 1);
    space<vector<bool>>("vector<bool>", {"[", "]", "true", "1", ",", " "}, L - 1);
    space<vector<char>>("vector<char>", {"[", "]", "a", ",", " ", "\xc3\xa4"}, L - 1);
    space<vector<double>>("vector<double>", {"[", "]", "1", ".", ",", "e"}, L - 1);
    space<vector<string>>("vector<string>", {"[", "]", "a", ",", " ", "\xc2\x85"}, L);
    space<vector<string>>("vector<string>", {"[", "]", "a", ",", " ", "b"}, L, "[a]");
    space<deque<int>>("deque<int>", {"[", "]", "1", ",", " ", "{"}, L - 1);
    space<list<int>>("list<int>", {"[", "]", "1", ",", " ", "("}, L - 1);
    space<set<int>>("set<int>", {"{", "}", "1", "2", ",", " "}, L);
    space<set<string>>("set<string>", {"{", "}", "a", ",", " ", "b"}, L - 1);
    space<map<int, int>>("map<int,int>", {"{", "}", "1", ":", ",", " "}, L);
    space<map<int, int>>("map<int,int>", {"{", "1:2", "}", "3", ":", ",", " "}, L - 1);
    space<map<string, int>>("map<string,int>", {"{", "}", "a", ":", ",", " ", "1"}, L - 1);
    space<pair<int, int>>("pair<int,int>", {"(", ")", "1", ",", " ", "["}, L);
    space<pair<int, string>>("pair<int,string>", {"(", ")", "1", ",", " ", "a"}, L - 1);
    space<tuple<int>>("tuple<int>", {"(", ")", "1", ",", " "}, L - 1);
    space<tuple<>>("tuple<>", {"(", ")", "1", ",", " "}, L - 2);
    space<tuple<int, bool, int>>("tuple<int,bool,int>", {"(", ")", "1", ",", " "}, L);
    space<vector<vector<int>>>("vector<vector<int>>", {"[", "]", "1", ",", " "}, L + 1);
    space<vector<pair<int, int>>>("vector<pair<int,int>>", {"[", "]", "(1,2)", "(", ")", ",", "3"}, L - 1);
    space<pair<int, vector<int>>>("pair<int,vector<int>>", {"(", ")", "[", "]", "1", ","}, L);
    space<map<int, vector<int>>>("map<int,vector<int>>", {"{", "}", "[", "]", "1", ":", ","}, L - 1);
    space<set<pair<int, int>>>("set<pair<int,int>>", {"{", "}", "(", ")", "1", ","}, L - 1);

    space<multiset<int>>("multiset<int>", {"{", "}", "1", "2", ",", " "}, L - 1);
    space<unordered_set<int>>("unordered_set<int>", {"{", "}", "1", "2", ",", " "}, L - 1);
    space<multimap<int, int>>("multimap<int,int>", {"{", "}", "1", ":", ",", "1:2"}, L - 1);
    space<unordered_map<int, bool>>("unordered_map<int,bool>", {"{", "}", "1", ":", ",", " "}, L - 1);
    space<Three>("bounded", {"[", "]", "1", ",", "2,", " "}, L);
    space<Pushed>("pushed", {"[", "]", "1", ",", "2,", " "}, L - 1);
    space<Arrows>("own brackets", {"<", "*", ">", "1", "-", " "}, L + 1);
    space<vector<Arrows>>("vector of own brackets", {"[", "]", "<<1", "*>", "->", ",", "2"}, L - 1);
    space<vector<int>>("vector<int>", {"[", "]", "1", "\n", ",", "8"}, L - 1, "o");
    space<vector<int>>("vector<int>", {"[", "]", "1", "0", ",", "0B"}, L - 1, "b");
    space<set<int>>("set<int>", {"{", "}", "0x", "a", ",", "9"}, L - 1, "x");
    space<map<int, double>>("map<int,double>", {"{", "}", "1", ":", ",", ".5", "e2"}, L - 1);
    space<pair<string, char>>("pair<string,char>", {"(", ")", "a", ",", " ", "b"}, L - 1);

    Toks ex = {"[", "]", ",", " ", "1", "(", ")", "{", "}", ":", "\n", "\xe2\x80\xa8", "\xff", "a", "-"};
    around<vector<int>>("vector<int>", {"[", "12", ",", "-3", ",", "45", "]", ","}, ex);
    around<vector<int>>("vector<int>", {"[", "1f", ",", "0x2a", ",", "-45", "]", "0"}, ex, "x");
    around<vector<string>>("vector<string>", {"[", "ab", " ", ",", "cd", " ", "]"}, ex);
    around<vector<string>>("vector<string>", {"[", "ab", ",", "cd", ",", "e", "]"}, ex, "[a-z]");
    around<vector<char>>("vector<char>", {"[", "x", ",", "y", ",", "]", "]"}, ex);
    around<set<int>>("set<int>", {"{", "3", ",", "1", ",", "3", "}"}, ex);
    around<map<int, int>>("map<int,int>", {"{", "1", ":", "2", ",", "3", ":", "4", "}"}, ex);
    around<map<string, vector<int>>>("map<string,vector<int>>", {"{", "k", " ", ":", "[", "1", ",", "2", "]", ",", "l", " ", ":", "[", "]", "}"}, ex);
    around<tuple<int, string, bool>>("tuple<int,string,bool>", {"(", "5", ",", "wo", " ", ",", "true", ")"}, ex);
    around<tuple<int, vector<int>, pair<char, int>>>("tuple<int,vector<int>,pair<char,int>>", {"(", "5", ",", "[", "1", ",", "2", "]", ",", "(", "c", ",", "9", ")", ")"}, ex);
    around<vector<vector<vector<int>>>>("vector<vector<vector<int>>>", {"[", "[", "[", "1", "]", ",", "[", "]", "]", ",", "[", "]", "]"}, ex);
    around<vector<map<int, int>>>("vector<map<int,int>>", {"[", "{", "1", ":", "2", "}", ",", "{", "}", "]"}, ex);
    around<Arrows>("own brackets", {"<<", "12", "->", "-3", "->", "45", "*>", "-"}, {"<", "*", ">", "-", " ", "1", "->", "<<", "*>", "\xe2\x80\xa8"});
    around<Three>("bounded", {"[", "12", ",", "-3", ",", "45", "]", ","}, ex);
    around<unordered_map<string, int>>("unordered_map<string,int>", {"{", "k", " ", ":", "1", ",", "l", " ", ":", "2", "}"}, ex);
    // every byte, and every character with the low byte of what stands there, at every place
    auto bytes = [&](auto type, const char* ty, const std::string& text, const std::string& spec = "") {
        using T = decltype(type);
        if (!R.group(std::string(ty) + " bytes " + spec)) return;
        for (size_t p = 0; p <= text.size(); ++p) {
            for (int b = 0; b < 256; ++b) {
                one<T>(ty, text.substr(0, p) + char(b) + text.substr(p), spec, 3);
                if (p < text.size()) one<T>(ty, text.substr(0, p) + char(b) + text.substr(p + 1), spec, 15);
            }
            if (p < text.size())
                for (char32_t page : {0x100, 0x2000, 0xff00, 0x10000})
                    one<T>(ty, text.substr(0, p) + txt::alike(text[p], page) + text.substr(p + 1), spec, 15);
        }
    };
    bytes(vector<int>{}, "vector<int>", "[ 12 , 3 ,4]");
    bytes(set<int>{}, "set<int>", "{ 12 , 3 ,4}");
    bytes(map<int, int>{}, "map<int,int>", "{ 1 : 2 ,3:4}");
    bytes(unordered_map<int, double>{}, "unordered_map<int,double>", "{1: 2.5 ,3:4}");
    bytes(pair<int, int>{}, "pair<int,int>", "( 1 , 2 )");
    bytes(tuple<int, string, bool>{}, "tuple<int,string,bool>", "( 1 , ab , true )");
    bytes(vector<pair<char, int>>{}, "vector<pair<char,int>>", "[(a, 1) , (b ,2)]");
    bytes(Arrows{}, "own brackets", "<< 1 -> 2->3 *>");
    bytes(vector<vector<string>>{}, "vector<vector<string>>", "[[a ,b ] ,[] ]");
    // tuples of every length up to 20: every part left out, doubled or changed
    auto tuples = [&](auto type, const char* ty) {
        using T = decltype(type);
        constexpr size_t n = std::tuple_size_v<T>;
        if (!R.group(std::string(ty) + " " + to_string(n))) return;
        Toks t = {"("};
        for (size_t i = 0; i < n; ++i) {
            if (i) t.push_back(",");
            t.push_back(to_string(i * 37 % 100));
        }
        t.push_back(")");
        for (const char* pad : {"", " ", "\n "})
            for (size_t p = 0; p <= t.size(); ++p)
                for (auto* e : {"", ",", ")", "(", "]", "x", "7", " ", ";", "\xff"})
                    for (int how = 0; how < 3; ++how) {
                        Toks u = t;
                        if (how == 0) u.insert(u.begin() + long(p), e);
                        else if (p == t.size()) continue;
                        else if (how == 1) u[p] = e;
                        else u.resize(p), u.push_back(e);
                        std::string x;
                        for (auto& k : u) x += k + pad;
                        one<T>(ty, x, "", 3);
                    }
    };
    tuples(tuple<int, int>{}, "tuple");
    tuples(tuple<int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int, int, int, int, int, int, int>{}, "tuple");
    tuples(tuple<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>{}, "tuple");
    // many elements
    if (R.group("lengths"))
        for (int n = 0; n <= (th ? 300 : 70); ++n)
            for (const char* sep : {",", " , ", ",\n"})
                for (const char* close : {"]", " ]", "", ",]"}) {
                    std::string s = "[", t = "{", mp = "{";
                    for (int i = 0; i < n; ++i) {
                        if (i) s += sep, t += sep, mp += sep;
                        s += to_string(i * 7919 % 1000);
                        t += to_string(i * 7919 % 10);
                        mp += to_string(i * 7919 % 13) + ":" + to_string(i);
                    }
                    std::string c2 = close;
                    for (auto& ch : c2) if (ch == ']') ch = '}';
                    one<vector<int>>("vector<int>", s + close + "tail", "", 3);
                    one<set<int>>("set<int>", t + c2 + "tail", "", 3);
                    one<map<int, int>>("map<int,int>", mp + c2 + "tail", "", 3);
                }
    return R.finish();
}
