// Deterministic concurrency monitor.
//
// The code under test is compiled with clang's -fsanitize=thread instrumentation, but
// linked with this runtime instead of TSan's: every memory access, atomic operation and
// allocation of the real code arrives here. "Threads" are fibers; a seeded scheduler
// decides at every such event who runs next. The runtime
//  * checks every access against the happens-before relation (vector clocks which follow
//    the C++ memory orders actually passed by the code) and reports data races,
//  * checks every access against the life of the heap block it hits (use after free,
//    double and invalid free), and reports blocks never freed,
//  * lets non-seq_cst atomic loads return older values which the memory model allows and
//    makes weak compare-exchanges fail spuriously,
//  * bounds the number of steps (deadlock and livelock detection in logical time).
// No hooks in the code under test are needed.
#pragma once
#include <cstdint>
#include <cstddef>

namespace vs {

constexpr int MAXT = 8;

struct Options {
    uint64_t seed = 1;
    bool stale = false;         // stale reads of atomics
    bool spurious = false;      // spurious failures of weak CAS
    bool reuse = false;         // freed memory is handed out again at once
    int strategy = 0;           // 0: random walk, 1: PCT
    uint32_t switch_den = 4;    // random walk: switch with probability 1/den
    uint32_t plain_den = 8;     // schedule at plain accesses with probability 1/den (0: never)
    int depth = 3;              // PCT: number of priority changes
    uint64_t max_steps = 400000;
    uint64_t stall_at = 0;      // the thread which is at work at this step
    uint64_t stall_len = 0;     // is not scheduled for as many steps, as long as others can go on
};

struct Stats {
    uint64_t steps = 0, switches = 0, plain = 0, atomics = 0, allocs = 0, frees = 0, stale_reads = 0, spurious = 0, blocked = 0, stalls = 0;
};

using ViolFn = void (*)(const char* key, const char* msg);

void init(ViolFn f);
void begin(const Options& o);               // start an execution; the caller is thread 0
int spawn(void (*fn)(void*), void* arg);    // new thread, starts after begin's thread yields
void join_all();                            // thread 0 waits for all others
Stats end(bool check_leaks);                // finish the execution
uint64_t now();                             // logical time, strictly increasing
int self();
uint64_t interleaving_hash();               // hash of (thread, event) sequence so far
void yield_point();
// is a heap block of the execution containing p allocated? 1 yes, 0 freed/never, -1 not heap
int live(const void* p);
long live_blocks();

// no instrumentation, no scheduling, ordinary malloc inside
struct Mon {
    Mon();
    ~Mon();
    Mon(const Mon&) = delete;
};

} // namespace vs
