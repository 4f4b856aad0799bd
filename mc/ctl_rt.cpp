// The runtime of ctl.h.  Compiled without instrumentation.
#include "ctl.h"
#include <cerrno>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <wchar.h>

#define REAL_FUNCTIONS(X) X(ungetc) X(fgetc) X(getc) X(fread) X(fgets) X(pthread_mutex_lock) X(pthread_mutex_trylock) X(pthread_mutex_unlock) X(setlocale) X(localeconv) X(mbrtowc) X(wcrtomb) X(gmtime) X(localtime) X(setenv) X(mktime) X(strtof) X(strtod) X(strtold) X(wcstof) X(wcstod) X(wcstold)
#define X(n) static void* r_##n;
REAL_FUNCTIONS(X)
#undef X
__attribute__((constructor(101))) static void resolve()
{
#define X(n) r_##n = dlsym(RTLD_NEXT, #n);
    REAL_FUNCTIONS(X)
#undef X
}

namespace sched {

static void futex_wait(volatile int* p, int v, long ms)
{
    timespec ts{ms / 1000, (ms % 1000) * 1000000};
    syscall(SYS_futex, p, FUTEX_WAIT, v, ms < 0 ? nullptr : &ts, nullptr, 0);
}
static void futex_wake(volatile int* p)
{
    syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

// ---- locks of the model ----
constexpr int MaxLocks = 30;
struct Lock {
    const void* id;
    int owner, count;
    bool guard;
};
static Lock locks[MaxLocks];
static int nlocks;

enum { READY, WANTS, DONE, AWAY };
struct Thr {
    volatile int st;
    int lock;            // wanted
    volatile int sem;    // may run
    volatile pid_t tid;
    uint32_t held;       // locks held, as a mask
    bool started;        // has come to its first decision point
    char* stack;
    size_t stack_size;
    char* arena;
    size_t used;
    pthread_t pt;
};
static Thr th[MaxThreads];
static int nth;
static volatile int cur = -1;
static volatile int all_done;
static volatile uint64_t progress;
static volatile int big;  // protects the scheduler when a thread comes back
static Shm* S;
static void (*FN)(int);

static thread_local int tl_me __attribute__((tls_model("initial-exec"))) = -1;
static thread_local int tl_rt __attribute__((tls_model("initial-exec"))) = 0;

constexpr size_t StackSize = 256 * 1024, ArenaSize = 64 << 20;

int me() { return tl_me; }
Quiet::Quiet() { ++tl_rt; }
Quiet::~Quiet() { --tl_rt; }

// ---- access table ----
struct Acc {
    uintptr_t g;
    uint32_t rmask[MaxThreads], wmask[MaxThreads];  // locks always held, +1<<31: accessed
};
constexpr size_t TabBits = 16;
static Acc* tab;
static uint32_t* touched;
static size_t ntouched;

static void lock_big()
{
    while (__atomic_exchange_n(&big, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
static void unlock_big() { __atomic_store_n(&big, 0, __ATOMIC_RELEASE); }

static bool enabled(int t)
{
    if (th[t].st == READY) return true;
    if (th[t].st == WANTS) {
        auto& l = locks[th[t].lock];
        return l.count == 0 || (l.owner == t && !l.guard);
    }
    return false;
}

[[noreturn]] static void leave(int status)
{
    S->status = status;
    _exit(0);
}

static void wait_turn(int m)
{
    while (!__atomic_load_n(&th[m].sem, __ATOMIC_ACQUIRE)) futex_wait(&th[m].sem, 0, -1);
    __atomic_store_n(&th[m].sem, 0, __ATOMIC_RELEASE);
}
static void give(int t)
{
    cur = t;
    __atomic_store_n(&th[t].sem, 1, __ATOMIC_RELEASE);
    futex_wake(&th[t].sem);
}

// Who runs next?  -1: nobody can
static int choose(int from)
{
    unsigned en = 0;
    int n = 0, lowest = -1;
    for (int t = 0; t < nth; ++t)
        if (enabled(t)) {
            en |= 1u << t;
            if (lowest < 0) lowest = t;
            ++n;
        }
    if (n == 0) return -1;
    bool ce = from >= 0 && ((en >> from) & 1);
    int def = ce ? from : lowest;
    if (n == 1) return lowest;
    if (S->ndec >= MaxDec) leave(TOOLONG);
    int d = S->ndec++;
    int c = def;
    if (d < S->nprefix) {
        c = S->prefix[d];
        if (!((en >> c) & 1)) {
            S->diverged = 1;
            c = def;
        }
    }
    S->dec[d] = {uint8_t(en), uint8_t(c), uint8_t(from < 0 ? 255 : from), ce};
    return c;
}

static void nobody()
{
    bool all = true, away = false;
    for (int t = 0; t < nth; ++t) {
        all = all && th[t].st == DONE;
        away = away || th[t].st == AWAY;
    }
    if (all) {
        __atomic_store_n(&all_done, 1, __ATOMIC_RELEASE);
        futex_wake(&all_done);
        return;
    }
    if (!away) leave(DEADLOCK);
    cur = -1;  // whoever comes back goes on
}

// What a thread does before its first decision point commutes with everything,
// so all of them go there first.
static bool start_others(int m)
{
    if (th[m].started) return false;
    th[m].started = true;
    for (int t = 0; t < nth; ++t)
        if (!th[t].started) {
            give(t);
            return true;
        }
    int c = choose(-1);
    if (c < 0) nobody();
    else give(c);
    return true;
}

// The calling thread stops here until it is chosen
static void decide(int m)
{
    lock_big();
    ++progress;
    if (cur == m && start_others(m)) {
        unlock_big();
        wait_turn(m);
        return;
    }
    if (cur != m) {  // back from a block outside of the model
        if (th[m].st == AWAY) th[m].st = READY;
        if (cur == -1) {
            int c = choose(m);
            if (c < 0) nobody();
            else give(c);
        }
        unlock_big();
        wait_turn(m);
        return;
    }
    int c = choose(m);
    if (c == m) {
        unlock_big();
        return;
    }
    if (c < 0) nobody();
    else give(c);
    unlock_big();
    wait_turn(m);
}

static int lock_of(const void* id)
{
    for (int i = 0; i < nlocks; ++i)
        if (locks[i].id == id) return i;
    if (nlocks == MaxLocks) {
        // forget a free one
        for (int i = 0; i < nlocks; ++i) {
            if (locks[i].count) continue;
            bool wanted = false;
            for (int t = 0; t < nth; ++t) wanted = wanted || (th[t].st == WANTS && th[t].lock == i);
            if (!wanted) {
                locks[i] = {id, -1, 0, false};
                return i;
            }
        }
        leave(TOOLONG);
    }
    locks[nlocks] = {id, -1, 0, false};
    return nlocks++;
}
static void acquire(const void* id)
{
    int m = tl_me, l = lock_of(id);
    th[m].lock = l;
    th[m].st = WANTS;
    decide(m);
    th[m].st = READY;
    locks[l].owner = m;
    ++locks[l].count;
    th[m].held |= 1u << l;
}
static bool try_acquire(const void* id)
{
    int m = tl_me;
    decide(m);
    int l = lock_of(id);
    if (locks[l].count && locks[l].owner != m) return false;
    locks[l].owner = m;
    ++locks[l].count;
    th[m].held |= 1u << l;
    return true;
}
static void release(const void* id)
{
    int m = tl_me, l = lock_of(id);
    if (locks[l].count == 0 || locks[l].owner != m) {
        decide(m);
        return;  // unlocking what is not locked has no effect in the model
    }
    if (--locks[l].count == 0) {
        locks[l].owner = -1;
        th[m].held &= ~(1u << l);
    }
    decide(m);
}

void yield()
{
    if (tl_me < 0) return;
    ++tl_rt;
    decide(tl_me);
    --tl_rt;
}

static bool is_conf(uintptr_t g)
{
    int lo = 0, hi = S->nconf;
    while (lo < hi) {
        int mid = (lo + hi) / 2;
        if (S->conf[mid] < g) lo = mid + 1;
        else hi = mid;
    }
    return lo < S->nconf && S->conf[lo] == g;
}

static void access1(int m, uintptr_t g, bool w)
{
    if (S->nconf && is_conf(g)) decide(m);
    size_t h = (g * 0x9e3779b97f4a7c15ull) >> (64 - TabBits);
    for (size_t k = 0;; ++k) {
        if (k == 64) return;  // table full: does not happen in these scenarios
        auto& a = tab[h];
        if (a.g == g || a.g == 0) {
            if (a.g == 0) {
                a.g = g;
                touched[ntouched++] = uint32_t(h);
            }
            auto& msk = w ? a.wmask[m] : a.rmask[m];
            uint32_t held = th[m].held | 0x80000000u;
            msk = msk ? (msk & held) : held;
            return;
        }
        h = (h + 1) & ((size_t(1) << TabBits) - 1);
    }
}

static inline void access(const volatile void* p, size_t n, bool w)
{
    int m = tl_me;
    if (__builtin_expect(m < 0 || tl_rt || n == 0, 0)) return;
    auto a = reinterpret_cast<uintptr_t>(p);
    auto s = reinterpret_cast<uintptr_t>(th[m].stack);
    if (a - s < StackSize) {
        ++progress;
        return;
    }
    ++tl_rt;
    ++progress;
    ++S->accesses;
    if (cur != m) decide(m);
    for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) access1(m, g, w);
    --tl_rt;
}

static void report_conflicts()
{
    S->nnew = 0;
    for (size_t i = 0; i < ntouched; ++i) {
        auto& a = tab[touched[i]];
        bool conf = false;
        for (int x = 0; x < nth; ++x)
            for (int y = 0; y < nth; ++y) {
                if (x == y || !a.wmask[x]) continue;
                if (a.wmask[y] && !(a.wmask[x] & a.wmask[y] & 0x7fffffffu)) conf = true;
                if (a.rmask[y] && !(a.wmask[x] & a.rmask[y] & 0x7fffffffu)) conf = true;
            }
        if (conf && !is_conf(a.g) && S->nnew < MaxConf) S->fresh[S->nnew++] = a.g;
    }
}

static void* entry(void* p)
{
    int m = int(reinterpret_cast<intptr_t>(p));
    th[m].tid = pid_t(syscall(SYS_gettid));
    wait_turn(m);
    tl_me = m;
    FN(m);
    ++tl_rt;
    tl_me = -1;
    lock_big();
    th[m].st = DONE;
    if ((cur == m || cur == -1) && !(cur == m && start_others(m))) {
        int c = choose(-1);
        if (c < 0) nobody();
        else give(c);
    }
    unlock_big();
    return nullptr;
}

static char task_state(pid_t tid)
{
    char path[64], buf[256];
    std::snprintf(path, sizeof path, "/proc/self/task/%d/stat", int(tid));
    int fd = open(path, O_RDONLY);
    if (fd < 0) return '?';
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return '?';
    buf[n] = 0;
    for (ssize_t i = n; i-- > 0;)
        if (buf[i] == ')') return buf[i + 2];
    return '?';
}

void prepare()
{
    auto mm = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) std::abort();
        return static_cast<char*>(p);
    };
    for (auto& t : th) {
        t.stack = mm(StackSize);
        t.stack_size = StackSize;
        t.arena = mm(ArenaSize);
    }
    tab = reinterpret_cast<Acc*>(mm(sizeof(Acc) << TabBits));
    touched = reinterpret_cast<uint32_t*>(mm(sizeof(uint32_t) << TabBits));
}

void run_threads(Shm* s, int n, void (*fn)(int))
{
    S = s;
    FN = fn;
    nth = n;
    S->ndec = 0;
    S->diverged = S->osblocked = 0;
    S->accesses = 0;
    for (int t = 0; t < n; ++t) {
        th[t].st = READY;
        th[t].sem = 0;
        th[t].held = 0;
        th[t].started = false;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, th[t].stack, StackSize);
        if (pthread_create(&th[t].pt, &at, entry, reinterpret_cast<void*>(intptr_t(t)))) std::abort();
    }
    lock_big();
    give(0);
    unlock_big();
    uint64_t last = 0;
    int quiet = 0;
    while (!__atomic_load_n(&all_done, __ATOMIC_ACQUIRE)) {
        futex_wait(&all_done, 0, 20);
        if (all_done) break;
        int c = cur;
        if (c >= 0 && progress == last && task_state(th[c].tid) == 'S' &&
            !th[c].sem) {
            if (++quiet < 4) continue;
            // blocked by something the model does not know: let others run
            lock_big();
            if (cur == c && progress == last) {
                S->osblocked = 1;
                th[c].st = AWAY;
                th[c].started = true;
                int k = -1;
                for (int t = 0; t < nth && k < 0; ++t)
                    if (!th[t].started) k = t;
                if (k < 0) k = choose(-1);
                if (k < 0) {
                    bool others = false;
                    for (int t = 0; t < nth; ++t) others = others || (t != c && th[t].st == AWAY);
                    if (!others) leave(DEADLOCK);
                    cur = -1;
                }
                else
                    give(k);
            }
            unlock_big();
            quiet = 0;
        }
        else
            quiet = 0;
        last = progress;
    }
    for (int t = 0; t < n; ++t) pthread_join(th[t].pt, nullptr);
    report_conflicts();
}

// ---- memory: threads allocate from their own arenas ----
static bool in_arena(void* p)
{
    for (auto& t : th) {
        auto d = static_cast<char*>(p) - t.arena;
        if (t.arena && d >= 0 && size_t(d) < ArenaSize) return true;
    }
    return false;
}
static void* alloc(size_t n)
{
    int m = tl_me;
    if (m < 0) {
        void* p = std::malloc(n ? n : 1);
        if (!p) std::abort();
        return p;
    }
    auto& t = th[m];
    size_t k = ((n + 15) & ~size_t(15)) + 16;
    if (t.used + k > ArenaSize) std::abort();
    char* p = t.arena + t.used;
    t.used += k;
    *reinterpret_cast<size_t*>(p) = n;
    return p + 16;
}
static void dealloc(void* p)
{
    if (!p) return;
    if (!in_arena(p)) {
        std::free(p);
        return;
    }
    size_t n = *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16);
    access(p, n, true);
    auto* c = static_cast<volatile char*>(p);
    for (size_t i = 0; i < n; ++i) c[i] = char(0xdd);
}

static char libc_locale, libc_mbstate, libc_tm, libc_env;  // process-wide state
static void point(const void* p, bool w)
{
    if (tl_me < 0 || tl_rt) return;
    access(p, 1, w);
}

}  // namespace sched
using namespace sched;

void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }

extern "C" {

// ---- stdio locking ----
void flockfile(FILE* f)
{
    if (tl_me < 0) return;
    ++tl_rt;
    acquire(f);
    --tl_rt;
}
int ftrylockfile(FILE* f)
{
    if (tl_me < 0) return 0;
    ++tl_rt;
    bool b = try_acquire(f);
    --tl_rt;
    return b ? 0 : -1;
}
void funlockfile(FILE* f)
{
    if (tl_me < 0) return;
    ++tl_rt;
    release(f);
    --tl_rt;
}
// functions that lock for themselves
#define LOCKED(f, expr)                    \
    if (tl_me < 0 || tl_rt) return (expr); \
    flockfile(f);                          \
    auto r_ = (expr);                      \
    funlockfile(f);                        \
    return r_
int ungetc(int c, FILE* f)
{
    auto fn = reinterpret_cast<int (*)(int, FILE*)>(r_ungetc);
    LOCKED(f, fn(c, f));
}
int fgetc(FILE* f)
{
    auto fn = reinterpret_cast<int (*)(FILE*)>(r_fgetc);
    LOCKED(f, fn(f));
}
int getc(FILE* f)
{
    auto fn = reinterpret_cast<int (*)(FILE*)>(r_getc);
    LOCKED(f, fn(f));
}
size_t fread(void* p, size_t a, size_t b, FILE* f)
{
    auto fn = reinterpret_cast<size_t (*)(void*, size_t, size_t, FILE*)>(r_fread);
    LOCKED(f, fn(p, a, b, f));
}
char* fgets(char* p, int n, FILE* f)
{
    auto fn = reinterpret_cast<char* (*)(char*, int, FILE*)>(r_fgets);
    LOCKED(f, fn(p, n, f));
}

// ---- mutexes ----
int pthread_mutex_lock(pthread_mutex_t* m)
{
    auto fn = reinterpret_cast<int (*)(pthread_mutex_t*)>(r_pthread_mutex_lock);
    if (tl_me < 0 || tl_rt) return fn(m);
    ++tl_rt;
    acquire(m);
    --tl_rt;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    auto fn = reinterpret_cast<int (*)(pthread_mutex_t*)>(r_pthread_mutex_trylock);
    if (tl_me < 0 || tl_rt) return fn(m);
    ++tl_rt;
    bool b = try_acquire(m);
    --tl_rt;
    return b ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    auto fn = reinterpret_cast<int (*)(pthread_mutex_t*)>(r_pthread_mutex_unlock);
    if (tl_me < 0 || tl_rt) return fn(m);
    ++tl_rt;
    release(m);
    --tl_rt;
    return 0;
}

// ---- initialisation of function-local statics ----
int __cxa_guard_acquire(uint64_t* g)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    if (*b) return 0;
    if (tl_me < 0) return 1;
    ++tl_rt;
    acquire(g);
    int r = *b ? 0 : 1;
    if (!r) release(g);
    --tl_rt;
    return r;
}
void __cxa_guard_release(uint64_t* g)
{
    *reinterpret_cast<volatile char*>(g) = 1;
    if (tl_me < 0) return;
    ++tl_rt;
    release(g);
    --tl_rt;
}
void __cxa_guard_abort(uint64_t* g)
{
    if (tl_me < 0) return;
    ++tl_rt;
    release(g);
    --tl_rt;
}

// ---- process-wide state of the C library ----
char* setlocale(int c, const char* l)
{
    auto fn = reinterpret_cast<char* (*)(int, const char*)>(r_setlocale);
    point(&libc_locale, l != nullptr);
    return fn(c, l);
}
struct lconv* localeconv()
{
    auto fn = reinterpret_cast<struct lconv* (*)()>(r_localeconv);
    point(&libc_locale, true);  // its result is shared
    return fn();
}
#define LOC_READ(R, name, P)                              \
    R name(const P* s, P** e)                             \
    {                                                     \
        auto fn = reinterpret_cast<R (*)(const P*, P**)>(r_##name); \
        point(&libc_locale, false);                       \
        return fn(s, e);                                  \
    }
LOC_READ(float, strtof, char)
LOC_READ(double, strtod, char)
LOC_READ(long double, strtold, char)
LOC_READ(float, wcstof, wchar_t)
LOC_READ(double, wcstod, wchar_t)
LOC_READ(long double, wcstold, wchar_t)
size_t mbrtowc(wchar_t* w, const char* s, size_t n, mbstate_t* p)
{
    auto fn = reinterpret_cast<size_t (*)(wchar_t*, const char*, size_t, mbstate_t*)>(r_mbrtowc);
    point(&libc_locale, false);
    if (!p) point(&libc_mbstate, true);
    return fn(w, s, n, p);
}
size_t wcrtomb(char* s, wchar_t c, mbstate_t* p)
{
    auto fn = reinterpret_cast<size_t (*)(char*, wchar_t, mbstate_t*)>(r_wcrtomb);
    point(&libc_locale, false);
    if (!p) point(&libc_mbstate, true);
    return fn(s, c, p);
}
tm* gmtime(const time_t* t)
{
    auto fn = reinterpret_cast<tm* (*)(const time_t*)>(r_gmtime);
    point(&libc_tm, true);
    return fn(t);
}
tm* localtime(const time_t* t)
{
    auto fn = reinterpret_cast<tm* (*)(const time_t*)>(r_localtime);
    point(&libc_tm, true);
    return fn(t);
}
int setenv(const char* n, const char* v, int o)
{
    auto fn = reinterpret_cast<int (*)(const char*, const char*, int)>(r_setenv);
    point(&libc_env, true);
    return fn(n, v, o);
}
time_t mktime(tm* t)
{
    auto fn = reinterpret_cast<time_t (*)(tm*)>(r_mktime);
    point(&libc_env, false);
    return fn(t);
}

// ---- memory functions ----
void* memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    void* r = d;
    if (static_cast<char*>(d) <= static_cast<const char*>(s) ||
        static_cast<char*>(d) >= static_cast<const char*>(s) + n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    else {
        auto* dd = static_cast<volatile char*>(d);
        auto* ss = static_cast<const char*>(s);
        while (n--) dd[n] = ss[n];
    }
    return r;
}
void* memset(void* d, int v, size_t n)
{
    access(d, n, true);
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}

// ---- the instrumentation's calls ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
    void __tsan_read##n(void* p) { access(p, n, false); }                  \
    void __tsan_write##n(void* p) { access(p, n, true); }                  \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); }        \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); }        \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); }         \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }

#define ATOMIC(n, T)                                                                 \
    T __tsan_atomic##n##_load(const volatile T* p, int)                              \
    {                                                                                \
        access(p, sizeof(T), false);                                                 \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                 \
    }                                                                                \
    void __tsan_atomic##n##_store(volatile T* p, T v, int)                           \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                    \
    }                                                                                \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int)                           \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                          \
    }                                                                                \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int)                          \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                           \
    }                                                                                \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int)                          \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                           \
    }                                                                                \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int)                          \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                           \
    }                                                                                \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int)                           \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                            \
    }                                                                                \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int)                          \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                           \
    }                                                                                \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) \
    {                                                                                \
        access(p, sizeof(T), true);                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,         \
                                           __ATOMIC_SEQ_CST);                        \
    }                                                                                \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) \
    {                                                                                \
        return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b);            \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
