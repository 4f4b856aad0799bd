// P18: threads that scan at the same time, under every schedule.
//
// "shared": threads scan the same FILE.  The results of all calls and what is
//   left in the FILE must be those of some serial order of the calls that keeps
//   the order within each thread.
// "independent": each thread has its own sources (or they share read-only ones).
//   Every call must return what it returns when run alone.
// See ctl.h for what a schedule is.  Each execution is a child process that
// starts from a state in which nothing has been scanned yet.
#include "mc.h"
#include "ctl.h"
#include <clocale>
#include <istream>
#include <locale>
#include <tuple>
#include <algorithm>
#include <csignal>
#include <iterator>
#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <stdio_ext.h>
#include <sys/wait.h>
namespace src {
std::string repr(const std::tm& t);
std::string repr(const scn::regex_matches& m);
std::string repr(const scn::tm_with_tz& m);
}
#include "sources.h"
using mc::Run;
using namespace src;

static sched::Shm* S;

// ---- sources ----
// A FILE whose reads are decision points
struct YFile {
    std::string data;
    uint64_t cuts = 0;
    size_t pos = 0;
    long fail_at = -1;
    char buf[64];
    FILE* f = nullptr;
    static ssize_t rd(void* c, char* b, size_t n)
    {
        sched::yield();
        auto& s = *static_cast<YFile*>(c);
        if (s.fail_at >= 0 && long(s.pos) >= s.fail_at) {
            errno = EIO;
            return -1;
        }
        size_t k = 0;
        while (k < n && s.pos < s.data.size()) {
            if (s.fail_at >= 0 && long(s.pos) >= s.fail_at) break;
            b[k++] = s.data[s.pos++];
            if (s.pos <= 64 && ((s.cuts >> (s.pos - 1)) & 1)) break;
        }
        return ssize_t(k);
    }
    void open(std::string_view d, uint64_t c, int mode, long fail)
    {
        data = d;
        cuts = c;
        fail_at = fail;
        cookie_io_functions_t io{};
        io.read = rd;
        f = fopencookie(this, "r", io);
        if (!f) std::abort();
        __fsetlocking(f, FSETLOCKING_BYCALLER);
        if (mode == 1) std::setvbuf(f, nullptr, _IONBF, 0);
        else std::setvbuf(f, buf, _IOFBF, mode >= 2 ? size_t(mode) : sizeof buf);
    }
    std::string rest()
    {
        std::string s;
        int c;
        while ((c = std::fgetc(f)) != EOF) s += char(c);
        return s;
    }
};

// A range whose iterators are decision points
struct YRange {
    std::string_view s;
    struct iterator {
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = const char*;
        using reference = char;
        using iterator_category = std::forward_iterator_tag;
        const char* p = nullptr;
        char operator*() const { return *p; }
        iterator& operator++()
        {
            sched::yield();
            ++p;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++*this;
            return c;
        }
        friend bool operator==(iterator a, iterator b) { return a.p == b.p; }
        friend bool operator!=(iterator a, iterator b) { return a.p != b.p; }
    };
    iterator begin() const { return {s.data()}; }
    iterator end() const { return {s.data() + s.size()}; }
};

struct YPunct : std::numpunct<char> {
    char do_thousands_sep() const override
    {
        sched::yield();
        return '.';
    }
    char do_decimal_point() const override
    {
        sched::yield();
        return ',';
    }
    std::string do_grouping() const override
    {
        sched::yield();
        return "\3";
    }
    std::string do_truename() const override
    {
        sched::yield();
        return "ja";
    }
    std::string do_falsename() const override { return "nein"; }
};

// ---- user types ----
struct Yld {  // an int, with decision points before and after
    int v = 0;
};
struct Thrower {  // reads an int, then throws
};
struct BadSpec {  // its parse() throws a message of its own
};
struct Strm {  // operator>>
    int a = 0;
    char c = 0;
    friend std::istream& operator>>(std::istream& is, Strm& s)
    {
        is >> s.a;
        sched::yield();
        return is >> s.c;
    }
};
struct Nest {
    int a = 0;
    std::string b;
};
namespace scn {
template <>
struct scanner<Yld, char> : scanner<int, char> {
    template <typename Ctx>
    auto scan(Yld& y, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        sched::yield();
        auto r = scanner<int, char>::scan(y.v, ctx);
        sched::yield();
        return r;
    }
};
template <>
struct scanner<Thrower, char> : scanner<int, char> {
    template <typename Ctx>
    auto scan(Thrower&, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        int v;
        auto r = scanner<int, char>::scan(v, ctx);
        if (!r) return r;
        sched::yield();
        throw std::runtime_error("thrown");
    }
};
template <>
struct scanner<BadSpec, char> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        std::string rest(p.begin(), p.end());
        throw scn::scan_format_string_error("bad: " + rest);
    }
    template <typename Ctx>
    auto scan(BadSpec&, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        return ctx.begin();
    }
};
template <>
struct scanner<Strm, char> : basic_istream_scanner<char> {};
template <>
struct scanner<Nest, char> {
    template <typename P>
    constexpr auto parse(P& p) -> typename P::iterator
    {
        return p.begin();
    }
    template <typename Ctx>
    auto scan(Nest& n, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        auto r = scn::scan<int, std::string>(ctx.range(), "{},{}");
        if (!r) return unexpected(r.error());
        std::tie(n.a, n.b) = r->values();
        return r->begin();
    }
};
}  // namespace scn
std::string repr(const Yld& y) { return "y" + src::repr(y.v); }
std::string repr(const Thrower&) { return "T"; }
std::string repr(const BadSpec&) { return "B"; }
std::string repr(const Strm& s) { return "s" + src::repr(s.a) + s.c; }
std::string repr(const Nest& s) { return "n" + src::repr(s.a) + s.b; }
namespace src {
std::string repr(const std::tm& t)
{
    char b[128];
    std::snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d", t.tm_year, t.tm_mon, t.tm_mday,
                  t.tm_hour, t.tm_min, t.tm_sec);
    return b;
}
std::string repr(const scn::regex_matches& m)
{
    std::string s;
    for (auto& x : m) s += x ? std::string(x->get()) + "|" : "-|";
    return s;
}

std::string repr(const scn::tm_with_tz& t)
{
    return repr(static_cast<const std::tm&>(t)) + (t.tz_offset ? std::to_string(t.tz_offset->count()) : "-");
}
}  // namespace src

// ---- one execution ----
struct World {
    YFile file[2];
    std::string text;  // shared, read-only
    std::string fmt;
    std::locale loc;
};
static World* W;

struct Ctx {
    int t;       // thread
    FILE* f;     // its FILE
    std::string out;
    void add(const std::string& s) { out += s + ";"; }
};

template <typename R>
std::string shown(const R& r)
{
    if (!r) {
        auto e = r.error();
        sched::yield();  // the message has to stay what it is
        return std::string("err:") + code_name(e.code()) + "(" + (e.msg() ? e.msg() : "") + ")";
    }
    return "ok " + repr_all(r->values());
}
template <typename... T>
std::string fscan_(FILE* f, const char* fmt)
{
    try {
        return shown(scn::scan<T...>(f, scn::runtime_format(std::string_view(fmt))));
    }
    catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    }
}
template <typename... T, typename Src>
std::string rscan(const Src& s, const char* fmt)
{
    try {
        auto r = scn::scan<T...>(s, scn::runtime_format(std::string_view(fmt)));
        auto o = shown(r);
        if (r) o += " left " + std::to_string(std::distance(r->begin(), r->end()));
        return o;
    }
    catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    }
}
template <typename... T, typename Src>
std::string wrscan(const Src& s, const wchar_t* fmt)
{
    auto r = scn::scan<T...>(s, scn::runtime_format(std::wstring_view(fmt)));
    auto o = shown(r);
    if (r) o += " left " + std::to_string(std::distance(r->begin(), r->end()));
    return o;
}
template <typename... T, typename Src>
std::string lscan(const std::locale& l, const Src& s, const char* fmt)
{
    auto r = scn::scan<T...>(l, s, scn::runtime_format(std::string_view(fmt)));
    return shown(r);
}

struct Op {
    const char* name;
    std::string (*run)(Ctx&);
};

// what threads do to the FILE they share
static const std::vector<Op> shared_ops = {
    {"int", [](Ctx& c) { return fscan_<int>(c.f, "{}"); }},
    {"int int", [](Ctx& c) { return fscan_<int, int>(c.f, "{} {}"); }},
    {"string", [](Ctx& c) { return fscan_<std::string>(c.f, "{}"); }},
    {"char", [](Ctx& c) { return fscan_<char>(c.f, "{}"); }},
    {"width 2", [](Ctx& c) { return fscan_<std::string>(c.f, "{:.2}"); }},
    {"line", [](Ctx& c) { return fscan_<std::string>(c.f, "{:[^\n]}\n"); }},
    {"literal x", [](Ctx& c) { return fscan_<int>(c.f, "x{}"); }},
    {"double", [](Ctx& c) { return fscan_<double>(c.f, "{}"); }},
    {"yielding", [](Ctx& c) { return fscan_<Yld, Yld>(c.f, "{} {}"); }},
    {"throwing", [](Ctx& c) { return fscan_<Thrower>(c.f, "{}"); }},
    {"stream", [](Ctx& c) { return fscan_<Strm>(c.f, "{}"); }},
    {"input", [](Ctx& c) {
         auto r = scn::input<int>("{}");
         return shown(r);
     }},
    {"scan_int", [](Ctx& c) {
         auto r = scn::scan_value<int>(c.f);
         return shown(r);
     }},
    {"getc", [](Ctx& c) {
         flockfile(c.f);
         int ch = getc_unlocked(c.f);
         funlockfile(c.f);
         return "getc " + std::to_string(ch);
     }},
    {"locked 2", [](Ctx& c) {
         flockfile(c.f);
         auto s = fscan_<int>(c.f, "{}");
         sched::yield();
         s += fscan_<int>(c.f, "{}");
         funlockfile(c.f);
         return s;
     }},
    {"vector", [](Ctx& c) { return fscan_<std::vector<int>>(c.f, "{}"); }},
    {"regex", [](Ctx& c) { return fscan_<std::string>(c.f, "{:/[0-9 ]+/}"); }},
    {"unget", [](Ctx& c) {
         flockfile(c.f);
         int ch = getc_unlocked(c.f);
         if (ch != EOF) ungetc(ch, c.f);
         auto s = fscan_<std::string>(c.f, "{}");
         funlockfile(c.f);
         return s + char(ch);
     }},
    // quick: these in pairs only
    {"localized", [](Ctx& c) { return lscan<double>(W->loc, c.f, "{:L}"); }},
    {"date", [](Ctx& c) { return fscan_<std::tm>(c.f, "{:%H %M}"); }},
    {"prompt", [](Ctx&) {
         auto r = scn::prompt<int>("", "{}");
         return shown(r);
     }},
};

// what a thread does by itself
#define OWN(n, ...) {n, [](Ctx& c) -> std::string { (void)c; return __VA_ARGS__; }}
static const std::vector<Op> own_ops = {
    OWN("int", rscan<int>(YRange{"-123 "}, "{}")),
    OWN("ints, shared text", rscan<int, int>(W->text, W->fmt.c_str())),
    OWN("view", rscan<std::string_view>(W->text, "{}")),
    OWN("double", rscan<double>(YRange{"-1.5e3x"}, "{}")),
    OWN("long double", rscan<long double>(YRange{"0x1.8p-2"}, "{:a}")),
    OWN("double, no end", rscan<double>(std::string("1.25"), "{}")),
    OWN("subnormal", rscan<double>(std::string("4.9e-324"), "{}")),
    OWN("overflow", rscan<float>(YRange{"1e99"}, "{}")),
    OWN("inf nan", rscan<double, double>(YRange{"inf nan(a)"}, "{} {}")),
    OWN("wide double", wrscan<double>(std::wstring(L"2.5 "), L"{}")),
    OWN("wide string", wrscan<std::wstring, std::string>(std::deque<wchar_t>{L'\xe4', L' ', L'\xe4'}, L"{} {}")),
    OWN("string to wide", rscan<std::wstring>(YRange{"\xc3\xa4\xc3\xb6 "}, "{}")),
    OWN("bool", rscan<bool, bool>(YRange{"true 0"}, "{} {}")),
    OWN("pointer", rscan<void*>(YRange{"0xab"}, "{}")),
    OWN("char32", rscan<char32_t>(YRange{"\xe2\x82\xac"}, "{}")),
    OWN("set", rscan<std::string>(YRange{"abcx\xc3\xa4z"}, "{:[a-z\xc3\xa0-\xc3\xaf]}")),
    OWN("localized double", lscan<double>(W->loc, YRange{"1.234,5"}, "{:L}")),
    OWN("localized int", lscan<int>(W->loc, std::string("1.234"), "{:L}")),
    OWN("localized bool", lscan<bool>(W->loc, YRange{"ja"}, "{:L}")),
    OWN("unlocalized double", lscan<double>(W->loc, YRange{"1.5"}, "{}")),
    OWN("vector", rscan<std::vector<int>>(YRange{"[1, 2, 3]"}, "{}")),
    OWN("map", rscan<std::map<int, std::string>>(YRange{"{1: a, 2: b}"}, "{}")),
    OWN("tuple", rscan<std::tuple<int, double>>(YRange{"(1, 2.5)"}, "{}")),
    OWN("date", rscan<std::tm>(YRange{"2024-02-03 04:05:06"}, "{:%Y-%m-%d %H:%M:%S}")),
    OWN("localized date", lscan<std::tm>(W->loc, std::string("Mar 2024"), "{:L%b %Y}")),
    OWN("time zone", rscan<scn::tm_with_tz>(std::string("12:30 +0230"), "{:%H:%M %z}")),
    OWN("regex", rscan<std::string>(YRange{"ab12 "}, "{:/[a-z]+[0-9]+/}")),
    OWN("matches", rscan<scn::regex_matches>(W->text, "{:/([0-9]+) ([0-9]+)/}")),
    OWN("yielding", rscan<Yld, Yld>(YRange{"7 8"}, "{} {}")),
    OWN("throwing", rscan<Thrower>(YRange{"7 8"}, "{}")),
    OWN("bad spec 1", rscan<BadSpec>(YRange{"7 8"}, "{:one}")),
    OWN("bad spec 2", rscan<BadSpec>(YRange{"7 8"}, "{:a much longer specification, on the heap}")),
    OWN("stream", rscan<Strm>(YRange{"7x8"}, "{}")),
    OWN("nested", rscan<Nest>(YRange{"7,ab cd"}, "{}")),
    OWN("bad format", rscan<int>(YRange{"7"}, "{:q}")),
    OWN("bad value", rscan<int>(YRange{"q"}, "{}")),
    OWN("bad literal", rscan<int>(YRange{"7"}, "a{}")),
    OWN("fill, width", rscan<int, std::string>(YRange{"**12**|abc"}, "{:*^6}|{:.2}")),
    OWN("discard", rscan<int>(YRange{"12 34"}, "{:*} {}")),
    OWN("sixteen", rscan<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>(
            YRange{"1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16"},
            "{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}")),
    OWN("file", fscan_<int, std::string>(c.f, "{} {}")),
    OWN("file, double", fscan_<double>(c.f, "{}")),
    OWN("file, regex", fscan_<std::string>(c.f, "{:/[0-9 ]+/}")),
    OWN("file, stream", fscan_<Strm>(c.f, "{}")),
    OWN("file, vector", fscan_<std::vector<int>>(c.f, "{}")),
    OWN("scan_int", [&] {
        auto r = scn::scan_int<int>(std::string_view("77a"));
        return shown(r);
    }()),
    // what the caller's own code sees of the process
    OWN("user's strtod", [&] {
        std::string s;
        for (int k = 0; k < 3; ++k) {
            s += repr(std::strtod("1,5", nullptr)) + " ";
            sched::yield();
        }
        return s;
    }()),
};

// A scenario: what each thread does, in order, to which sources.
struct Scenario {
    const std::vector<Op>* ops;
    std::vector<std::vector<int>> prog;  // per thread
    std::string text;
    uint64_t cuts = 0;
    int mode = 0;
    long fail_at = -1;
    bool one_file = true;
    std::string clocale;  // of the process
    std::string name() const
    {
        std::string s;
        for (auto& p : prog) {
            s += s.empty() ? "" : " || ";
            for (size_t i = 0; i < p.size(); ++i)
                s += std::string(i ? ", " : "") + (*ops)[size_t(p[i])].name;
        }
        if (one_file)
            s += " on \"" + mc::esc(text) + "\" cuts=" + std::to_string(cuts) +
                 " buf=" + std::to_string(mode) + " fail=" + std::to_string(fail_at);
        if (!clocale.empty()) s += " in " + clocale;
        return s;
    }
};
static const Scenario* SC;
static std::vector<std::vector<std::string>> results;

static void setup(const Scenario& sc)
{
    SC = &sc;
    W = new World;
    if (!sc.clocale.empty() && !std::setlocale(LC_ALL, sc.clocale.c_str())) std::abort();
    W->text = "12 34 56";
    W->fmt = "{} {}";
    W->loc = std::locale(std::locale::classic(), new YPunct);
    W->file[0].open(sc.text, sc.cuts, sc.mode, sc.fail_at);
    if (!sc.one_file) W->file[1].open(sc.text, sc.cuts, sc.mode, sc.fail_at);
    stdin = W->file[0].f;
    results.assign(sc.prog.size(), {});
    for (size_t t = 0; t < sc.prog.size(); ++t) results[t].assign(sc.prog[t].size(), "");
}
static void run_op(int t, size_t i)
{
    Ctx c;
    c.t = t;
    c.f = W->file[SC->one_file ? 0 : t & 1].f;
    std::string s = (*SC->ops)[size_t(SC->prog[size_t(t)][i])].run(c);
    sched::Quiet q;
    results[size_t(t)][i].assign(s.data(), s.size());
}
static void run_thread(int t)
{
    for (size_t i = 0; i < SC->prog[size_t(t)].size(); ++i) run_op(t, i);
}
static void finish()
{
    std::string s;
    for (auto& p : results) {
        for (auto& r : p) s += r + "; ";
        s += "| ";
    }
    for (int k = 0; k < (SC->one_file ? 1 : 2); ++k)
        s += "rest \"" + mc::esc(W->file[k].rest()) + "\"";
    s += std::string(" locale ") + std::setlocale(LC_ALL, nullptr);
    if (s.size() >= sizeof S->out) s.resize(sizeof S->out - 1);
    memcpy(S->out, s.c_str(), s.size() + 1);
    S->status = sched::FINISHED;
}

struct Res {
    std::string out;
    bool ok = false;  // ran to its end
};
template <typename F>
Res in_child(F&& f)
{
    S->status = sched::RUNNING;
    S->nnew = 0;
    S->ndec = 0;
    S->out[0] = 0;
    pid_t p = fork();
    if (p < 0) {
        std::perror("fork");
        std::_Exit(3);
    }
    if (p == 0) {
        alarm(20);
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Res r;
    if (WIFSIGNALED(st))
        r.out = WTERMSIG(st) == SIGALRM ? "hangs" : "crashes with signal " + std::to_string(WTERMSIG(st));
    else if (S->status == sched::DEADLOCK) r.out = "deadlock";
    else if (S->status == sched::TOOLONG) r.out = "too long";
    else if (S->status != sched::FINISHED) r.out = "died, status " + std::to_string(st);
    else {
        r.out = S->out;
        r.ok = true;
    }
    return r;
}

static uint64_t n_sched, n_dec, n_conf, n_diverged, n_osblocked, n_truncated, n_serial, n_acc;

// All orders of the calls that keep each thread's own order
static void serial_orders(const Scenario& sc, std::vector<int>& order, std::vector<size_t>& at,
                          std::set<std::string>& out)
{
    bool any = false;
    for (size_t t = 0; t < sc.prog.size(); ++t) {
        if (at[t] == sc.prog[t].size()) continue;
        any = true;
        ++at[t];
        order.push_back(int(t));
        serial_orders(sc, order, at, out);
        order.pop_back();
        --at[t];
    }
    if (any) return;
    auto r = in_child([&] {
        setup(sc);
        std::vector<size_t> k(sc.prog.size(), 0);
        for (int t : order) run_op(t, k[size_t(t)]++);
        finish();
    });
    ++n_serial;
    out.insert(r.out);
}

static bool explore(const Scenario& sc, int bound, bool independent)
{
    auto& R = Run::get();
    std::set<std::string> want;
    std::vector<int> order;
    std::vector<size_t> at(sc.prog.size(), 0);
    serial_orders(sc, order, at, want);
    std::string expected;
    for (auto& w : want) expected += "{" + w + "} ";
    size_t nops = 0;
    for (auto& p : sc.prog) nops += p.size();
    if (independent && want.size() != 1) {
        R.fail("order|" + sc.name(), "serial orders of independent calls differ: " + expected);
        return false;
    }
    std::vector<uintptr_t> conf;
    constexpr uint64_t Limit = 60000;
restart:
    std::vector<std::vector<uint8_t>> todo;
    todo.emplace_back();
    uint64_t n = 0;
    while (!todo.empty()) {
        auto pre = std::move(todo.back());
        todo.pop_back();
        S->nprefix = int(pre.size());
        std::copy(pre.begin(), pre.end(), S->prefix);
        S->nconf = int(conf.size());
        std::copy(conf.begin(), conf.end(), S->conf);
        auto r = in_child([&] {
            setup(sc);
            sched::run_threads(S, int(sc.prog.size()), run_thread);
            finish();
        });
        ++n_sched;
        ++R.checks;
        R.calls += nops;
        n_dec += uint64_t(S->ndec);
        n_acc += S->accesses;
        n_diverged += uint64_t(S->diverged != 0);
        n_osblocked += uint64_t(S->osblocked != 0);
        R.outcome(r.out);
        if (r.out == "too long") {
            ++n_truncated;
            return true;
        }
        if (!want.count(r.out)) {
            std::string sch;
            for (int d = 0; d < S->ndec; ++d) sch += char('0' + S->dec[d].chosen);
            R.fail((independent ? "influence|" : "serial|") + sc.name(),
                   "got: {" + r.out + "} serial orders give: " + expected + " schedule " + sch);
            return false;
        }
        if (S->nnew) {
            auto old = conf.size();
            conf.insert(conf.end(), S->fresh, S->fresh + S->nnew);
            std::sort(conf.begin(), conf.end());
            conf.erase(std::unique(conf.begin(), conf.end()), conf.end());
            if (conf.size() > sched::MaxConf) {
                ++n_truncated;
                conf.resize(sched::MaxConf);
            }
            if (conf.size() != old) {
                n_conf += conf.size() - old;
                goto restart;
            }
        }
        int used = 0;
        for (int d = 0; d < S->ndec; ++d) {
            auto dc = S->dec[d];
            if (size_t(d) >= pre.size()) {
                for (int t = 0; t < int(sc.prog.size()); ++t) {
                    if (t == dc.chosen || !((dc.enabled >> t) & 1)) continue;
                    int cost = dc.cur_enabled && t != dc.cur;
                    if (used + cost > bound) continue;
                    std::vector<uint8_t> p;
                    p.reserve(size_t(d) + 1);
                    for (int k = 0; k < d; ++k) p.push_back(S->dec[k].chosen);
                    p.push_back(uint8_t(t));
                    todo.push_back(std::move(p));
                }
            }
            used += dc.cur_enabled && dc.chosen != dc.cur;
        }
        if (++n > Limit) {
            ++n_truncated;
            return true;
        }
    }
    return true;
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    S = static_cast<sched::Shm*>(mmap(nullptr, sizeof(sched::Shm), PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sched::prepare();
    const bool th = R.thorough;
    const int B = th ? 3 : 2;
    auto go = [&](const Scenario& sc, int bound, bool indep) {
        if (R.take([&] { return sc.name(); })) explore(sc, bound, indep);
    };

    const std::vector<std::string> texts = {
        "12 34 56 78", "1\n22\n333\n", "x1 x2 ab", "[1, 2] [3] 4", " 5  ab\n6 ", "1.5e3 -2 7x", ""};
    const int N = int(shared_ops.size());
    const int N3 = th ? N : N - 3;
    if (R.group("shared, one call each"))
        for (auto& t : texts)
            for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x5555555555555555)})
                for (int mode : {0, 1, 3}) {
                    // quick: whole and cut everywhere with the usual buffer,
                    // every other byte unbuffered and with a small one
                    if (!th && (mode == 0) != (cuts == 0 || cuts == ~uint64_t(0))) continue;
                    for (int a = 0; a < N; ++a)
                        for (int b = a; b < N; ++b)
                            go({&shared_ops, {{a}, {b}}, t, cuts, mode}, B, false);
                }
    if (R.group("shared, read errors"))
        for (long fail = 0; fail <= 6; ++fail)
            for (int a = 0; a < N; ++a)
                for (int b = a; b < N; ++b)
                    go({&shared_ops, {{a}, {b}}, texts[0], ~uint64_t(0), 0, fail}, B, false);
    // quick leaves out operations that are like another one
    std::vector<int> some;
    for (int a = 0; a < N3; ++a) {
        std::string_view n = shared_ops[size_t(a)].name;
        if (th || (n != "int" && n != "width 2" && n != "literal x" && n != "vector" && n != "input"))
            some.push_back(a);
    }
    if (R.group("shared, two and one"))
        for (uint64_t cuts : th ? std::vector<uint64_t>{0x49, ~uint64_t(0)} : std::vector<uint64_t>{0x49})
            for (int a : some)
                for (int b : some)
                    for (int c : some)
                        go({&shared_ops, {{a, b}, {c}}, texts[0], cuts, 0}, B, false);
    if (R.group("shared, three threads"))
        for (int a = 0; a < N3; ++a)
            for (int b = a; b < N3; ++b)
                for (int c = b; c < N3; ++c)
                    go({&shared_ops, {{a}, {b}, {c}}, texts[0], uint64_t(0x92), 0}, B, false);
    const int M = int(own_ops.size());
    if (R.group("independent, pairs"))
        for (std::string loc : {"", "de_DE.utf8"})
            for (int a = 0; a < M; ++a)
                for (int b = a; b < M; ++b) {
                    Scenario sc{&own_ops, {{a}, {b}}, "12 ab34 [1]", ~uint64_t(0), 0};
                    sc.one_file = false;
                    sc.clocale = loc;
                    go(sc, th ? 2 : 1, true);
                }
    auto note = [&](const char* k, uint64_t v) { R.notes[k] = std::to_string(v); };
    note("sum:schedules", n_sched);
    note("sum:decisions", n_dec);
    note("sum:serial_orders", n_serial);
    note("sum:shared_accesses_watched", n_acc);
    note("sum:conflict_granules", n_conf);
    note("sum:diverged", n_diverged);
    note("sum:blocked_outside_the_model", n_osblocked);
    note("sum:truncated", n_truncated);
    return R.finish();
}
