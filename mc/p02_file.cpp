// P02: histories of scans and stdio calls on one FILE against a string with a
// position.
#include "sources.h"
#include <sys/stat.h>
using namespace src;
using mc::Run;

struct Rec {
    std::string s;  // what the caller saw
};

enum Kind { COOKIE, UNBUF, SMALL2, SMALL3, MEM, REAL, STDIN, NK };
static const char* kname[] = {"cookie", "unbuffered", "buf2", "buf3", "fmemopen",
                              "file", "stdin"};

// One FILE of the given kind with this content
struct AnyFile {
    std::unique_ptr<CookieFile> c;
    FILE* f = nullptr;
    FILE* old_stdin = nullptr;
    bool own = false;
    std::string keep;
    AnyFile(Kind k, const std::string& data, uint64_t cuts, long fail_at)
    {
        switch (k) {
            case MEM:
                keep = data + '\0';
                f = fmemopen(keep.data(), data.size() ? data.size() : 1, "r");
                if (data.empty()) fgetc(f);
                own = true;
                break;
            case REAL: {
                f = std::tmpfile();
                fwrite(data.data(), 1, data.size(), f);
                rewind(f);
                own = true;
                break;
            }
            default:
                c = std::make_unique<CookieFile>(
                    data, cuts, k == UNBUF ? 1 : k == SMALL2 ? 2 : k == SMALL3 ? 3 : 0,
                    fail_at);
                f = c->f;
        }
        if (k == STDIN) {
            old_stdin = stdin;
            stdin = f;
        }
    }
    ~AnyFile()
    {
        if (old_stdin) stdin = old_stdin;
        if (own) fclose(f);
    }
};

// The model: the text not yet taken, front pushed-back characters included.
struct Model {
    std::string rest;
};

struct Op {
    const char* name;
    // apply to the model, returns the expected observation
    std::string (*model)(Model&);
    std::string (*real)(FILE*, bool use_input);
};

template <typename R>
std::string show(R& r)
{
    ++Run::get().calls;
    if (!r) return std::string("err:") + code_name(r.error().code());
    return "ok " + repr_all(r->values());
}

template <typename... T>
std::string mscan(Model& m, std::string_view fmt)
{
    std::string_view sv = m.rest;
    auto r = scn::scan<T...>(sv, scn::runtime_format(fmt));
    if (!r) return std::string("err:") + code_name(r.error().code());
    std::string s = "ok " + repr_all(r->values());
    m.rest = m.rest.substr(m.rest.size() - r->range().size());
    return s;
}
template <typename... T>
std::string rscan(FILE* f, std::string_view fmt, bool use_input)
{
    if (use_input) {
        auto r = scn::input<T...>(scn::runtime_format(fmt));
        return show(r);
    }
    auto r = scn::scan<T...>(f, scn::runtime_format(fmt));
    if (r && r->file() != f) return "wrong file()";
    return show(r);
}
#define SCAN(N, F, ...)                                                     \
    {                                                                       \
        N, [](Model& m) { return mscan<__VA_ARGS__>(m, F); },               \
            [](FILE* f, bool i) { return rscan<__VA_ARGS__>(f, F, i); }     \
    }

static const std::vector<Op> ops = {
    SCAN("scan<int>({})", "{}", int),
    SCAN("scan<string>({})", "{}", std::string),
    SCAN("scan<char>({})", "{}", char),
    SCAN("scan<int,int>({} {})", "{} {}", int, int),
    SCAN("scan<int>(a{})", "a{}", int),
    SCAN("scan<string>({:.2c})", "{:.2c}", std::string),
    {"scan_value<int>",
     [](Model& m) { return mscan<int>(m, "{}"); },
     [](FILE* f, bool) {
         auto r = scn::scan_value<int>(f);
         return show(r);
     }},
    {"getc",
     [](Model& m) {
         if (m.rest.empty()) return std::string("EOF");
         std::string s(1, m.rest[0]);
         m.rest.erase(0, 1);
         return s;
     },
     [](FILE* f, bool) {
         int c = fgetc(f);
         return c == EOF ? std::string("EOF") : std::string(1, char(c));
     }},
    {"ungetc(7)",
     [](Model& m) {
         m.rest.insert(0, "7");
         return std::string();
     },
     [](FILE* f, bool) {
         ungetc('7', f);
         return std::string();
     }},
    SCAN("scan<double>({})", "{}", double),
    SCAN("scan<string,char>({}{})", "{}{}", std::string, char),
    SCAN("scan<string>({:[^1]})", "{:[^1]}", std::string),
    // only in the long histories
    SCAN("scan<string,int>({}{})", "{}{}", std::string, int),
    SCAN("scan<string>({}!)", "{}!", std::string),
    // the other ways to scan a FILE
    {"scan<int>(locale, {:L})", [](Model& m) { return mscan<int>(m, "{}"); },
     [](FILE* f, bool) {
         auto r = scn::scan<int>(std::locale::classic(), f, scn::runtime_format("{:L}"));
         return show(r);
     }},
    {"scan<string,int>(locale, {} {})", [](Model& m) { return mscan<std::string, int>(m, "{} {}"); },
     [](FILE* f, bool) {
         auto r = scn::scan<std::string, int>(std::locale::classic(), f, scn::runtime_format("{} {}"));
         return show(r);
     }},
    {"scan<int>({}, {5})", [](Model& m) { return mscan<int>(m, "{}"); },
     [](FILE* f, bool) {
         auto r = scn::scan<int>(f, scn::runtime_format("{}"), {5});
         return show(r);
     }},
    {"scan_value<string>(f, x)", [](Model& m) { return mscan<std::string>(m, "{}"); },
     [](FILE* f, bool) {
         auto r = scn::scan_value<std::string>(f, std::string("xyz"));
         return show(r);
     }},
    {"vscan<int>({})", [](Model& m) { return mscan<int>(m, "{}"); },
     [](FILE* f, bool) {
         std::tuple<int> v;
         auto a = scn::make_scan_args(v);
         auto r = scn::vscan(f, "{}", a);
         ++Run::get().calls;
         return r ? "ok " + repr_all(v) : std::string("err:") + code_name(r.error().code());
     }},
    {"vscan<string,int>({} {})", [](Model& m) { return mscan<std::string, int>(m, "{} {}"); },
     [](FILE* f, bool) {
         std::tuple<std::string, int> v;
         auto a = scn::make_scan_args(v);
         auto r = scn::vscan(std::locale::classic(), f, "{} {}", a);
         ++Run::get().calls;
         return r ? "ok " + repr_all(v) : std::string("err:") + code_name(r.error().code());
     }},
    {"prompt<int,string>({} {})", [](Model& m) { return mscan<int, std::string>(m, "{} {}"); },
     [](FILE* f, bool in) {
         if (!in) return rscan<int, std::string>(f, "{} {}", false);
         auto r = scn::prompt<int, std::string>("", scn::runtime_format("{} {}"));
         return show(r);
     }},
};
constexpr size_t short_ops = 12;

static void history(Kind k, const std::string& data, uint64_t cuts, long fail_at,
                    const std::vector<int>& h)
{
    auto& R = Run::get();
    auto desc = [&] {
        std::string s = std::string(kname[k]) + " data=\"" + mc::esc(data) +
                        "\" cuts=" + std::to_string(cuts) +
                        " fail_at=" + std::to_string(fail_at) + " :";
        for (int o : h) s += std::string(" ") + ops[size_t(o)].name;
        return s;
    };
    if (!R.take(desc)) return;
    AnyFile f(k, data, cuts, fail_at);
    Model m{fail_at >= 0 ? data.substr(0, size_t(fail_at)) : data};
    std::string trace;
    for (int o : h) {
        auto want = ops[size_t(o)].model(m);
        auto got = ops[size_t(o)].real(f.f, k == STDIN);
        ++R.checks;
        trace += got + ";";
        if (want != got) {
            R.fail(desc(), std::string("at ") + ops[size_t(o)].name + " expected " +
                               mc::esc(want) + " got " + mc::esc(got) +
                               " after " + mc::esc(trace));
            return;
        }
    }
    std::string rest;
    for (int c; (c = fgetc(f.f)) != EOF;) rest += char(c);
    ++R.checks;
    if (rest != m.rest)
        R.fail(desc(), "left in the FILE: \"" + mc::esc(rest) + "\" expected \"" +
                           mc::esc(m.rest) + "\"");
    R.outcome(trace + rest);
}

int main(int argc, char** argv)
{
    auto& R = Run::get();
    R.init(argc, argv);
    const bool th = R.thorough;
    std::vector<int> all(short_ops);
    for (size_t i = 0; i < all.size(); ++i) all[i] = int(i);

    // every history over a few contents, every kind of FILE
    const std::vector<std::string> texts = {
        "", "1", "12 3 ab 4", "a1 b2 \n33", "- 5 x", "  \xc2\x85 9\xe2\x80\xa8z", "1.5e 2e3 .",
        "ab\xe4\xbd\xa0 c\xc3", "a7a8 9"};
    if (R.group("histories"))
        for (int k = 0; k < NK; ++k)
            for (auto& t : texts) {
                if (k == MEM && t.empty()) continue;
                for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x249),
                                      uint64_t(0x0aa)}) {
                    if (k != COOKIE && k != STDIN && cuts) continue;
                    mc::for_seqs(all, 1, (k == COOKIE || k == UNBUF) ? (th ? 5 : 4) : (k == REAL || !th ? 3 : 4),
                                 [&](const std::vector<int>& ix) {
                                     history(Kind(k), t, cuts, -1, ix);
                                 });
                }
            }
    // every way to scan
    if (R.group("entry points")) {
        std::vector<int> more{0, 1, 6, 7, 8};
        for (size_t i = 14; i < ops.size(); ++i) more.push_back(int(i));
        for (int k = 0; k < NK; ++k)
            for (auto& t : texts) {
                if (k == MEM && t.empty()) continue;
                for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x249)}) {
                    if (k != COOKIE && k != STDIN && cuts) continue;
                    mc::for_seqs(more, 1, th ? 4 : 3, [&](std::vector<int> ix) {
                        for (int& i : ix) i = more[size_t(i)];
                        history(Kind(k), t, cuts, -1, ix);
                    });
                }
            }
    }
    // longer histories
    if (R.group("deep"))
        for (auto& t : texts)
            for (uint64_t cuts : {uint64_t(0x249), uint64_t(0x0aa)})
                for (int len = 5; len <= (th ? 6 : 5); ++len) {
                    if (len == 6 && (t.size() < 9 || cuts == 0x249)) continue;
                    mc::for_seqs(all, len, len, [&](const std::vector<int>& ix) {
                        history(COOKIE, t, cuts, -1, ix);
                    });
                }
    // every division into reads of the short contents, short histories
    if (R.group("cuts"))
        for (auto& t : texts) {
            if (t.size() < 2) continue;
            for (uint64_t m = 0; m < (uint64_t(1) << (t.size() - 1)); ++m)
                mc::for_seqs(all, 1, th ? 3 : 2, [&](const std::vector<int>& ix) {
                    history(COOKIE, t, m, -1, ix);
                });
        }
    // a read error at every position
    if (R.group("faults"))
        for (auto& t : texts)
            for (int k : {int(COOKIE), int(UNBUF), int(SMALL2), int(STDIN)})
                for (long fa = 0; fa <= long(t.size()); ++fa)
                    for (uint64_t cuts : {uint64_t(0), ~uint64_t(0)})
                        mc::for_seqs(all, 1, th ? 4 : 3, [&](const std::vector<int>& ix) {
                            history(Kind(k), t, cuts, fa, ix);
                        });
    // a lot to put back: long values, with a failure behind them
    if (R.group("long"))
        for (int n = 1; n <= (th ? 600 : 300); ++n)
            for (const char* fill : {"0", "a", " ", "\xe4\xbd\xa0"}) {
                std::string t;
                for (int i = 0; i < n; ++i) t += fill;
                for (const char* tail : {"", "7 x", " 8 \xff"})
                    for (int k = 0; k < NK; ++k)
                        for (uint64_t cuts : {uint64_t(0), ~uint64_t(0), uint64_t(0x5555555555555555)}) {
                            if (k != COOKIE && cuts) continue;
                            for (auto& h : std::vector<std::vector<int>>{
                                     {3, 1}, {4, 0, 7}, {0, 8, 1}, {10, 1}, {12, 7, 1}, {13, 0, 1}})
                                history(Kind(k), t + tail, cuts, -1, h);
                        }
            }
    // content across the default buffer size
    if (R.group("4096"))
        for (int n = 4096 - 8; n <= 4096 + 2; ++n)
            for (const char* fill : {"1", "a", " ", "1 "})
                for (int k : {int(COOKIE), int(UNBUF), int(REAL)}) {
                    std::string t;
                    while (int(t.size()) + int(strlen(fill)) <= n) t += fill;
                    t += "23 ab 4";
                    for (auto& h : std::vector<std::vector<int>>{
                             {0, 1}, {1, 0}, {1, 1, 0}, {3}, {0, 7, 1}, {10, 0}, {11, 0, 7}, {9, 9}, {2, 1, 0}})
                        history(Kind(k), t, 0, -1, h);
                }
    return R.finish();
}
