// The two ways concurrent workloads are run:
//  default      on the vsched runtime: seeded interleavings, happens-before and heap monitors
//  -DREAL       real threads under ThreadSanitizer or AddressSanitizer
#pragma once
#include "common.hpp"
#include <new>

#define NOINST __attribute__((disable_sanitizer_instrumentation, noinline))

#if defined(REAL)
#include <thread>
#include <atomic>
#include <sched.h>
#if !defined(__clang__)
#  undef NOINST
#  define NOINST __attribute__((noinline, no_sanitize("thread")))
#endif
namespace be {
constexpr int MAXT = 8;
inline int g_clock = 0;
inline thread_local int t_self = 0;
inline int g_start = 0;
inline uint64_t g_steps = 0;
inline unsigned g_jitter = 0;
NOINST inline uint64_t now() { return uint64_t(__atomic_add_fetch(&g_clock, 1, __ATOMIC_RELAXED)); }
inline int self() { return t_self; }
struct Mon {};
inline std::thread* g_thr[MAXT];
inline int g_n = 0;
NOINST inline void go_wait() { while (!__atomic_load_n(&g_start, __ATOMIC_RELAXED)) sched_yield(); }
NOINST inline void go() { __atomic_store_n(&g_start, 1, __ATOMIC_RELAXED); }
inline void setup(uint64_t) {}
inline void begin(uint64_t seed) { g_n = 1; t_self = 0; __atomic_store_n(&g_start, 0, __ATOMIC_RELAXED); g_jitter = unsigned(seed % 7); }
inline void spawn(void (*fn)(void*), void* arg) {
    int id = g_n++;
    g_thr[id] = new std::thread([fn, arg, id] { t_self = id; go_wait(); fn(arg); });
}
inline void join_all() {
    go();
    for (int i = 1; i < g_n; ++i) { g_thr[i]->join(); delete g_thr[i]; }
}
inline void end() {}
inline void pause() { if (g_jitter) { for (volatile unsigned i = 0; i < g_jitter * 8; i = i + 1); if (g_jitter == 6) sched_yield(); } }
inline uint64_t interleaving() { return 0; }
inline bool stale() { return true; }
inline void init() {}
inline void report() {}
inline constexpr bool real = true;
}
#else
#include "vsched.hpp"
namespace be {
constexpr int MAXT = vs::MAXT;
inline vs::Stats g_tot;
inline vs::Options g_opt;
inline uint64_t now() { return vs::now(); }
inline int self() { return vs::self(); }
using Mon = vs::Mon;
inline void begin(uint64_t seed) {
    hv::Rng r(seed);
    vs::Options o;
    o.seed = r.next();
    o.stale = r.chance(1, 2);
    o.spurious = r.chance(1, 2);
    o.reuse = r.chance(1, 3);
    o.strategy = r.chance(1, 3) ? 1 : 0;
    static const uint32_t dens[] = {1, 2, 3, 5, 9, 20};
    o.switch_den = dens[r.below(6)];
    o.plain_den = r.chance(1, 3) ? 0 : 1 + r.below(12);
    o.depth = 1 + int(r.below(6));
    if (r.chance(1, 24)) {      // a thread which is not heard of for long
        static const uint64_t lens[] = {300, 1000, 3000, 3000, 12000, 12000, 40000, 120000};
        o.stall_at = 1;
        o.stall_len = lens[r.chance(1, 4) ? r.below(8) : r.below(4)];
    }
    g_opt = o;
    vs::begin(o);
}
inline void spawn(void (*fn)(void*), void* arg) { vs::spawn(fn, arg); }
inline void join_all() { vs::join_all(); }
inline void end() {
    auto s = vs::end(true);
    g_tot.steps += s.steps;
    g_tot.switches += s.switches;
    g_tot.plain += s.plain;
    g_tot.atomics += s.atomics;
    g_tot.allocs += s.allocs;
    g_tot.stale_reads += s.stale_reads;
    g_tot.spurious += s.spurious;
    g_tot.blocked += s.blocked;
    g_tot.stalls += s.stalls;
}
inline void pause() {}
inline uint64_t interleaving() { return vs::interleaving_hash(); }
inline bool stale() { return g_opt.stale; }
inline void viol(const char* k, const char* m) { hv::out.violation(k, "%s", m); }
inline void init() { vs::init(viol); }
inline void report() {
    hv::out.stat("scheduler_steps", (long long)g_tot.steps);
    hv::out.stat("context_switches", (long long)g_tot.switches);
    hv::out.stat("plain_accesses_monitored", (long long)g_tot.plain);
    hv::out.stat("atomic_operations_monitored", (long long)g_tot.atomics);
    hv::out.stat("heap_blocks_monitored", (long long)g_tot.allocs);
    hv::out.stat("stale_reads_injected", (long long)g_tot.stale_reads);
    hv::out.stat("stalled_threads", (long long)g_tot.stalls);
    hv::out.stat("spurious_cas_failures_injected", (long long)g_tot.spurious);
}
inline constexpr bool real = false;
}
#endif
