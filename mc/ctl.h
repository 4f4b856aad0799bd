// A controlled scheduler for threads of the real code (used by P18).
//
// The code under test is compiled with gcc's -fsanitize=thread instrumentation,
// but linked with our own runtime (ctl_rt.cpp) instead of TSan's: every memory
// access, stdio lock, mutex and initialisation guard of the library becomes an
// event of ours.  One thread runs at a time; at decision points the schedule,
// given as a list of choices, says who goes on.
//
// Decision points are: thread start, acquiring and having released a lock (stdio
// or mutex), the harness's own yields (reads of a FILE, user-defined scanners,
// iterators and facets), process-wide libc state, and every access to a conflict
// granule.  A granule (8 bytes) is a conflict if two threads have accessed it,
// one of them writing, without a common lock: accesses to anything else commute
// with all steps of the other threads, so that ordering them differently leads
// to the same states (the usual partial-order argument).  Conflicts found during
// a run are added and the exploration starts again, until none is new.
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>

namespace sched {

constexpr int MaxThreads = 3;
constexpr int MaxDec = 3000;
constexpr int MaxConf = 512;

struct Dec {
    uint8_t enabled, chosen, cur, cur_enabled;
};
enum Status { RUNNING, FINISHED, DEADLOCK, TOOLONG };

struct Shm {
    // in
    int nprefix;
    uint8_t prefix[MaxDec];
    int nconf;
    uintptr_t conf[MaxConf];
    // out
    volatile int status;
    int ndec;
    Dec dec[MaxDec];
    int diverged;  // a prescribed choice was not possible
    int osblocked;  // a thread was blocked outside of the model
    uint64_t accesses;
    int nnew;
    uintptr_t fresh[MaxConf];
    char out[1 << 16];
};

// Called in a child process: run these functions as threads under the schedule
void run_threads(Shm* s, int n, void (*fn)(int));
// A decision point of the harness
void yield();
int me();  // thread index, -1 outside
// prepare memory shared by all children (before the first fork)
void prepare();
// let accesses of harness code go unrecorded
struct Quiet {
    Quiet();
    ~Quiet();
};

}  // namespace sched
