// Bounded-exhaustive exploration engine shared by all harnesses.
//
// A harness enumerates a finite space of executions ("cases") in a fixed
// order.  Every case has an index; a shard runs the indices that belong to it
// and nothing is ever sampled or skipped otherwise.  The index of the case that
// is running is kept in a file mapping, so that a crash (assert, sanitizer,
// signal) or a hang is attributed to it and can be replayed with --only.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {

inline std::string esc(std::string_view s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c == '"') o += "\\q";
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) {
            std::snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o;
}
inline std::string esc(std::wstring_view s)
{
    std::string o;
    char b[16];
    for (wchar_t c : s) {
        if (c == L'\\') o += "\\\\";
        else if (c == L'"') o += "\\q";
        else if (c < 32 || c > 126) {
            std::snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(c));
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o;
}

struct Shared {
    volatile uint64_t current;  // index + 1 of the running case
    volatile uint64_t done;
};

class Run {
public:
    int shard = 0, nshards = 1;
    bool thorough = false;
    int64_t only = -1;
    uint64_t from = 0;
    uint64_t idx = 0;        // cases enumerated (all shards)
    uint64_t ran = 0;        // cases executed here
    uint64_t calls = 0;      // transitions: calls into the library
    uint64_t checks = 0;     // oracle comparisons
    uint64_t fails = 0;
    uint64_t maxfails = 20000;
    std::unordered_set<uint64_t> outcomes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> groups;
    std::string cur_group = "main";
    Shared* sh = nullptr;
    FILE* out = nullptr;
    std::function<std::string()> describe_fn;
    std::string only_group;
    std::map<std::string, std::string> notes;

    static Run& get()
    {
        static Run r;
        return r;
    }

    void init(int argc, char** argv)
    {
        std::string outp = "-", shp;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto nx = [&] { return std::string(argv[++i]); };
            if (a == "--shard") shard = std::stoi(nx());
            else if (a == "--nshards") nshards = std::stoi(nx());
            else if (a == "--tier") thorough = nx() == "thorough";
            else if (a == "--only") only = std::stoll(nx());
            else if (a == "--from") from = std::stoull(nx());
            else if (a == "--out") outp = nx();
            else if (a == "--shared") shp = nx();
            else if (a == "--group") only_group = nx();
            else if (a == "--maxfails") maxfails = std::stoull(nx());
        }
        static Shared local{};
        sh = &local;
        if (!shp.empty()) {
            int fd = ::open(shp.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ::ftruncate(fd, 4096) == 0) {
                void* p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                 MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) sh = static_cast<Shared*>(p);
                ::close(fd);
            }
        }
        out = outp == "-" ? stdout : std::fopen(outp.c_str(), "w");
        if (!out) {
            std::perror("open out");
            std::exit(3);
        }
    }

    // Enter a named part of the space (reporting, and --group for development).
    bool group(const std::string& g)
    {
        cur_group = g;
        return only_group.empty() || only_group == g;
    }

    // True if the next case belongs to this shard.
    template <typename Desc>
    bool take(Desc&& d)
    {
        uint64_t i = idx++;
        if (only >= 0) {
            if (i != static_cast<uint64_t>(only)) return false;
            std::string s = d();
            std::fprintf(out, "CASE %llu [%s] %s\n",
                         static_cast<unsigned long long>(i), cur_group.c_str(),
                         s.c_str());
            std::fflush(out);
        }
        else if (static_cast<int>((i >> 4) % static_cast<unsigned>(nshards)) !=
                 shard) {
            return false;
        }
        if (i < from) return false;
        sh->current = i + 1;
        ++ran;
        ++groups[cur_group];
        if (samples.size() < 12 && (ran == 1 || ran == 10 || ran == 100 ||
                                    ran == 1000 || ran == 10000 ||
                                    ran == 100000 || ran == 1000000)) {
            samples.push_back("[" + cur_group + "] " + d());
        }
        return true;
    }

    void fail(const std::string& key, const std::string& detail)
    {
        ++fails;
        if (fails <= maxfails) {
            std::fprintf(out, "FAIL %llu\t%s\t%s\n",
                         static_cast<unsigned long long>(idx - 1), key.c_str(),
                         detail.c_str());
            std::fflush(out);
        }
    }

    void outcome(uint64_t h)
    {
        if (outcomes.size() < 2000000) outcomes.insert(h);
    }
    void outcome(std::string_view s)
    {
        outcome(std::hash<std::string_view>{}(s));
    }

    int finish()
    {
        for (auto& s : samples) std::fprintf(out, "SAMPLE %s\n", s.c_str());
        for (auto& [k, v] : groups)
            std::fprintf(out, "GROUP %s %llu\n", k.c_str(),
                         static_cast<unsigned long long>(v));
        for (auto& [k, v] : notes)
            std::fprintf(out, "NOTE %s %s\n", k.c_str(), v.c_str());
        std::fprintf(out,
                     "STATS total=%llu ran=%llu calls=%llu checks=%llu "
                     "outcomes=%llu fails=%llu\n",
                     (unsigned long long)idx, (unsigned long long)ran,
                     (unsigned long long)calls, (unsigned long long)checks,
                     (unsigned long long)outcomes.size(),
                     (unsigned long long)fails);
        std::fprintf(out, "DONE\n");
        std::fflush(out);
        sh->done = 1;
        return 0;
    }
};

// All token sequences of length lo..hi over an alphabet, shortest first.
template <typename Tok, typename F>
void for_seqs(const std::vector<Tok>& alpha, int lo, int hi, F&& f)
{
    std::vector<int> ix;
    for (int len = lo; len <= hi; ++len) {
        ix.assign(static_cast<size_t>(len), 0);
        if (alpha.empty() && len > 0) return;
        for (;;) {
            f(ix);
            int k = len - 1;
            while (k >= 0 &&
                   ++ix[static_cast<size_t>(k)] == static_cast<int>(alpha.size()))
                ix[static_cast<size_t>(k--)] = 0;
            if (k < 0) break;
        }
    }
}
template <typename F>
void for_strings(const std::vector<std::string>& alpha, int lo, int hi, F&& f)
{
    std::string s;
    for_seqs(alpha, lo, hi, [&](const std::vector<int>& ix) {
        s.clear();
        for (int i : ix) s += alpha[static_cast<size_t>(i)];
        f(static_cast<const std::string&>(s));
    });
}

}  // namespace mc
