#include "vsched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace vs {
namespace {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s = 1;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint32_t below(uint32_t n) { return uint32_t((next() >> 32) * uint64_t(n) >> 32); }
};

using Clk = uint32_t;
struct VC {
    Clk c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// shadow of one byte
struct Sh {
    Clk pr[MAXT];       // plain reads
    Clk aw[MAXT];       // atomic writes
    Clk ar[MAXT];       // atomic reads
    Clk w;              // last plain write
    uint8_t wt;
    const void* wpc;
};

constexpr size_t ARENA = 1 << 20;
constexpr size_t STACK = 256 << 10;
char* arena;            // heap of an execution
Sh* shadow;             // ARENA entries
uint8_t* astate;        // per byte: 0 never allocated, 1 allocated, 2 freed
size_t brk_;            // bump pointer

struct Block { uint32_t off, size; uint8_t st; uint8_t ft; VC vc; const void* fpc; };
constexpr int MAXB = 1 << 14;
Block blocks[MAXB];
int nblocks;
int* block_of;          // per 16 bytes of arena

struct Fiber {
    void* sp;
    char* stack;
    void (*fn)(void*);
    void* arg;
    bool used, done;
    const void* waiting;    // mutex
    VC vc, acq, frel;
    bool has_frel;
    int prio;
    uint64_t stalled;       // until this step
};
Fiber fib[MAXT];
int nfib;
int cur;
bool active;            // an execution is running
int mon_depth;
bool joining;

Options opt;
Stats st;
Rng rng;
ViolFn viol;
uint64_t ihash;
uint64_t clock_;
uint64_t pct_points[16];
int npct;
uint64_t est_len = 300;
uint64_t streak;
VC scvc;

// atomic locations
struct Store { uint64_t val; int tid; Clk clk; VC rel; bool has_rel; };
constexpr int HIST = 12;
struct ALoc {
    uintptr_t addr;
    uint8_t size;
    uint32_t gen;
    uint32_t total;     // number of stores so far; the last HIST are kept
    Store h[HIST];
    struct Rd { int tid; Clk clk; uint32_t idx; } rd[48];
    int nrd;
    bool rd_full;
    uint8_t stale_streak[MAXT];
};
constexpr int ALOCS = 1 << 12;
ALoc alocs[ALOCS];
uint32_t gen = 1;

// shadow for globals
struct GSh { uintptr_t addr; uint32_t gen; Sh s; };
constexpr int GSHS = 1 << 12;
GSh gsh[GSHS];
int ngsh;

struct Mtx { uintptr_t addr; uint32_t gen; int owner; int rec; VC vc; };
Mtx mtxs[256];

[[noreturn]] __attribute__((format(printf, 2, 3))) void fail(const char* key, const char* f, ...) {
    char b[700];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    ++mon_depth;
    active = false;
    viol(key, b);
    _exit(12);
}

bool in_arena(const void* p) { return p >= arena && p < arena + ARENA; }
bool in_globals(const void* p) { return p >= &__data_start && p < &_end; }

// ---------------------------------------------------------------- switching
extern "C" void vs_switch(void** save, void* to);
__asm__(
    ".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size vs_switch,.-vs_switch\n");

void reschedule(bool must);
void fiber_main() {
    Fiber& f = fib[cur];
    f.fn(f.arg);
    f.done = true;
    reschedule(true);
    abort();
}

void switch_to(int t) {
    if (t == cur) return;
    int from = cur;
    cur = t;
    ++st.switches;
    ihash = mix(ihash ^ uint64_t(t + 1));
    vs_switch(&fib[from].sp, fib[t].sp);
}

bool runnable(int i) {
    Fiber& f = fib[i];
    if (f.done || f.waiting || f.stalled > st.steps) return false;
    if (i == 0 && joining) {
        for (int k = 1; k < nfib; ++k) if (!fib[k].done) return false;
    }
    return true;
}

// pick who runs next; must: the current thread cannot continue
void reschedule(bool must) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nfib; ++i) if (runnable(i)) c[n++] = i;
    if (!n) {
        for (int i = 0; i < nfib; ++i) fib[i].stalled = 0;
        for (int i = 0; i < nfib; ++i) if (runnable(i)) c[n++] = i;
    }
    if (!n) fail("progress.deadlock", "deadlock: no thread can continue");
    int to = cur;
    if (opt.strategy == 1) {
        int best = c[0];
        for (int i = 1; i < n; ++i) if (fib[c[i]].prio > fib[best].prio) best = c[i];
        to = best;
    }
    else {
        to = c[rng.below(uint32_t(n))];
        if (must && to == cur && n > 1) while (to == cur) to = c[rng.below(uint32_t(n))];
    }
    if (to != cur) streak = 0;
    switch_to(to);
}

int low_prio;
void point(bool atomic) {
    if (!active || mon_depth) return;
    ++st.steps;
    ++clock_;
    if (st.steps > opt.max_steps) fail("progress.livelock", "no completion within %llu steps under a fair schedule", (unsigned long long)opt.max_steps);
    if (nfib == 1) return;
    ++streak;
    if (st.steps == opt.stall_at && cur) {
        ++st.stalls;
        fib[cur].stalled = st.steps + opt.stall_len;
        reschedule(true);
        return;
    }
    bool fair = st.steps > opt.max_steps / 2;
    if (fair) {
        // round robin in the second half: spinning is excused only if it ends under fairness
        if (streak > 20) {
            streak = 0;
            int t = cur;
            do t = (t + 1) % nfib; while (!runnable(t));
            switch_to(t);
        }
        return;
    }
    if (opt.strategy == 1) {
        bool change = false;
        for (int i = 0; i < npct; ++i) if (pct_points[i] == st.steps) { fib[cur].prio = --low_prio; change = true; }
        if (streak > 60) { fib[cur].prio = --low_prio; change = true; }   // probably spinning
        if (change) reschedule(false);
        return;
    }
    if (streak > 200) { streak = 0; reschedule(true); return; }
    if (rng.below(opt.switch_den) == 0) reschedule(false);
    (void)atomic;
}

Clk tick() { return ++fib[cur].vc.c[cur]; }
bool hb(int t, Clk c) { return c <= fib[cur].vc.c[t]; }

// ---------------------------------------------------------------- shadow
Sh* sh_of(uintptr_t a) {
    if (a - uintptr_t(arena) < ARENA) return shadow + (a - uintptr_t(arena));
    if (in_globals(reinterpret_cast<void*>(a))) {
        size_t i = mix(a) & (GSHS - 1);
        while (gsh[i].gen == gen && gsh[i].addr != a) i = (i + 1) & (GSHS - 1);
        if (gsh[i].gen != gen) {
            if (ngsh > GSHS / 2) return nullptr;
            ++ngsh;
            memset(&gsh[i], 0, sizeof gsh[i]);
            gsh[i].gen = gen;
            gsh[i].addr = a;
        }
        return &gsh[i].s;
    }
    return nullptr;
}

const char* where(const void* p) {
    static char b[200];
    if (in_arena(p)) {
        size_t off = size_t(static_cast<const char*>(p) - arena);
        int bi = block_of[off / 16];
        if (bi >= 0) snprintf(b, sizeof b, "heap block #%d of %u bytes, offset %zu (%s)", bi, blocks[bi].size, off - blocks[bi].off, blocks[bi].st == 1 ? "allocated" : "freed");
        else snprintf(b, sizeof b, "heap, outside any block");
    }
    else if (in_globals(p)) snprintf(b, sizeof b, "global");
    else snprintf(b, sizeof b, "other memory");
    return b;
}

void check_alive(const void* p, size_t n, const void* pc, const char* what) {
    if (!in_arena(p)) return;
    size_t off = size_t(static_cast<const char*>(p) - arena);
    for (size_t i = 0; i < n; ++i) {
        if (astate[off + i] != 1) fail(astate[off + i] == 2 ? "memory.use_after_free" : "memory.out_of_bounds", "thread %d: %s at %s, pc=%p", cur, what, where(p), pc);
    }
}

[[noreturn]] void race(const void* p, const char* a, int other, const char* b, const void* pc, const void* opc) {
    fail("race", "data race: %s by thread %d (pc=%p) is not ordered with %s by thread %d (pc=%p) at %s", a, cur, pc, b, other, opc, where(p));
}

void plain(const void* p, size_t n, bool write, const void* pc) {
    if (!active || mon_depth) return;
    uintptr_t a = uintptr_t(p);
    bool ar = in_arena(p);
    if (!ar && !in_globals(p)) return;
    ++st.plain;
    if (opt.plain_den && rng.below(opt.plain_den) == 0) point(false);
    if (ar) check_alive(p, n, pc, write ? "write" : "read");
    for (size_t i = 0; i < n; ++i) {
        Sh* s = sh_of(a + i);
        if (!s) return;
        if (s->w && !hb(s->wt, s->w)) race(p, write ? "write" : "read", s->wt, "a write", pc, s->wpc);
        for (int t = 0; t < nfib; ++t) {
            if (t == cur) continue;
            if (s->aw[t] && !hb(t, s->aw[t])) race(p, write ? "write" : "read", t, "an atomic write", pc, nullptr);
            if (write) {
                if (s->pr[t] && !hb(t, s->pr[t])) race(p, "write", t, "a read", pc, nullptr);
                if (s->ar[t] && !hb(t, s->ar[t])) race(p, "write", t, "an atomic read", pc, nullptr);
            }
        }
        Clk c = fib[cur].vc.c[cur];
        if (write) { s->w = c; s->wt = uint8_t(cur); s->wpc = pc; }
        else s->pr[cur] = c;
    }
    if (write) {
        // a plain (re)initialisation of an atomic starts a new history
        for (size_t k = 0; k < n; ++k) {
            size_t i = mix(a + k) & (ALOCS - 1);
            while (alocs[i].gen == gen) {
                if (alocs[i].addr == a + k) { alocs[i].total = 0; alocs[i].nrd = 0; alocs[i].rd_full = false; break; }
                i = (i + 1) & (ALOCS - 1);
            }
        }
    }
}

// ---------------------------------------------------------------- atomics
ALoc* aloc(uintptr_t a, uint8_t size, uint64_t val) {
    size_t i = mix(a) & (ALOCS - 1);
    while (alocs[i].gen == gen && alocs[i].addr != a) i = (i + 1) & (ALOCS - 1);
    ALoc& l = alocs[i];
    if (l.gen != gen) {
        l.gen = gen;
        l.addr = a;
        l.size = size;
        l.total = 0;
        l.nrd = 0;
        l.rd_full = false;
        memset(l.stale_streak, 0, sizeof l.stale_streak);
    }
    if (l.total == 0) {
        // initial value: whoever initialised it did so by a plain write (race-checked as such)
        l.total = 1;
        Store& s = l.h[0];
        s.val = val;
        s.tid = -1;
        s.clk = 0;
        s.has_rel = false;
    }
    return &l;
}

void atomic_shadow(const void* p, size_t n, bool read, bool write, const void* pc) {
    uintptr_t a = uintptr_t(p);
    check_alive(p, n, pc, write ? "atomic write" : "atomic read");
    Clk c = fib[cur].vc.c[cur];
    for (size_t i = 0; i < n; ++i) {
        Sh* s = sh_of(a + i);
        if (!s) return;
        if (s->w && !hb(s->wt, s->w)) race(p, write ? "atomic write" : "atomic read", s->wt, "a plain write", pc, s->wpc);
        if (write) for (int t = 0; t < nfib; ++t) if (t != cur && s->pr[t] && !hb(t, s->pr[t])) race(p, "atomic write", t, "a plain read", pc, nullptr);
        if (read) s->ar[cur] = c;
        if (write) s->aw[cur] = c;
    }
}

bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void acquire_from(const Store& s, int mo) {
    if (!s.has_rel) return;
    if (is_acq(mo)) fib[cur].vc.join(s.rel);
    else fib[cur].acq.join(s.rel);
}
void push_store(ALoc* l, uint64_t val, int mo, bool rmw) {
    Store prev = l->h[(l->total - 1) % HIST];
    Store& s = l->h[l->total % HIST];
    ++l->total;
    s.val = val;
    s.tid = cur;
    s.clk = fib[cur].vc.c[cur];
    s.has_rel = false;
    s.rel.clear();
    if (rmw && prev.has_rel) { s.rel = prev.rel; s.has_rel = true; }
    if (is_rel(mo)) { s.rel.join(fib[cur].vc); s.has_rel = true; }
    else if (fib[cur].has_frel) { s.rel.join(fib[cur].frel); s.has_rel = true; }
}
void note_read(ALoc* l, uint32_t idx) {
    if (l->nrd == int(sizeof l->rd / sizeof *l->rd)) { l->rd_full = true; return; }
    l->rd[l->nrd++] = {cur, fib[cur].vc.c[cur], idx};
}

template <typename T>
uint64_t as_u(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof(T) < 8 ? sizeof(T) : 8); return u; }

template <typename T>
T a_load(const volatile T* p, int mo, const void* pc) {
    if (!active || mon_depth) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    ++st.atomics;
    point(true);
    atomic_shadow(const_cast<const T*>(p), sizeof(T), true, false, pc);
    T v = *p;
    if (!in_arena(const_cast<const T*>(p)) && !in_globals(const_cast<const T*>(p))) {
        // still synchronises
    }
    ALoc* l = aloc(uintptr_t(p), sizeof(T), as_u(v));
    uint32_t idx = l->total - 1;
    if (opt.stale && mo != __ATOMIC_SEQ_CST && !l->rd_full && l->size == sizeof(T) && l->stale_streak[cur] < 3 && l->total > 1 && rng.below(3) == 0) {
        uint32_t lo = l->total > HIST ? l->total - HIST : 0;
        for (uint32_t i = l->total; i-- > lo;) {
            const Store& s = l->h[i % HIST];
            if (s.tid < 0 || hb(s.tid, s.clk)) { lo = i; break; }
        }
        for (int r = 0; r < l->nrd; ++r) if (hb(l->rd[r].tid, l->rd[r].clk) && l->rd[r].idx > lo) lo = l->rd[r].idx;
        if (lo < idx) {
            idx = lo + rng.below(idx - lo + 1);
            if (idx != l->total - 1) {
                ++st.stale_reads;
                ++l->stale_streak[cur];
                uint64_t u = l->h[idx % HIST].val;
                memcpy(&v, &u, sizeof(T) < 8 ? sizeof(T) : 8);
            }
        }
    }
    if (idx == l->total - 1) l->stale_streak[cur] = 0;
    acquire_from(l->h[idx % HIST], mo);
    tick();
    note_read(l, idx);
    ihash = mix(ihash ^ 0x11);
    return v;
}
template <typename T>
void a_store(volatile T* p, T v, int mo, const void* pc) {
    if (!active || mon_depth) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    ++st.atomics;
    point(true);
    atomic_shadow(const_cast<T*>(p), sizeof(T), false, true, pc);
    ALoc* l = aloc(uintptr_t(p), sizeof(T), as_u(T(*p)));
    push_store(l, as_u(v), mo, false);
    tick();
    *p = v;
    ihash = mix(ihash ^ 0x22);
}
template <typename T, typename F>
T a_rmw(volatile T* p, F f, int mo, const void* pc) {
    if (active && !mon_depth) {
        ++st.atomics;
        point(true);
        atomic_shadow(const_cast<T*>(p), sizeof(T), true, true, pc);
        T old = *p;
        ALoc* l = aloc(uintptr_t(p), sizeof(T), as_u(old));
        acquire_from(l->h[(l->total - 1) % HIST], mo);
        T nv = f(old);
        push_store(l, as_u(nv), mo, true);
        tick();
        note_read(l, l->total - 1);
        *p = nv;
        ihash = mix(ihash ^ 0x33);
        return old;
    }
    T old = *p;
    *p = f(old);
    return old;
}
template <typename T>
bool a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, const void* pc) {
    if (!active || mon_depth) {
        T old = *p;
        if (old == *exp) { *p = des; return true; }
        *exp = old;
        return false;
    }
    ++st.atomics;
    point(true);
    T old = *p;
    bool ok = old == *exp;
    if (ok && weak && opt.spurious && rng.below(6) == 0) { ok = false; ++st.spurious; }
    atomic_shadow(const_cast<T*>(p), sizeof(T), true, ok, pc);
    ALoc* l = aloc(uintptr_t(p), sizeof(T), as_u(old));
    acquire_from(l->h[(l->total - 1) % HIST], ok ? mo : fmo);
    if (ok) push_store(l, as_u(des), mo, true);
    tick();
    note_read(l, l->total - 1);
    if (ok) *p = des;
    else *exp = old;
    ihash = mix(ihash ^ (ok ? 0x44 : 0x55));
    return ok;
}

// ---------------------------------------------------------------- heap
void* vs_alloc(size_t n, size_t align) {
    if (!active || mon_depth) {
        void* p = nullptr;
        if (align <= 16) p = malloc(n ? n : 1);
        else if (posix_memalign(&p, align, n ? n : 1)) p = nullptr;
        return p;
    }
    ++st.allocs;
    point(false);
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    if (opt.reuse) {
        for (int i = nblocks; i-- > 0;) {
            Block& b = blocks[i];
            if (b.st == 2 && b.size == n && b.off % align == 0) {
                // allocators order a free before the reuse of the block
                fib[cur].vc.join(b.vc);
                b.st = 1;
                memset(astate + b.off, 1, n);
                memset(static_cast<void*>(shadow + b.off), 0, n * sizeof(Sh));
                for (size_t k = 0; k < n; ++k) {
                    uintptr_t a = uintptr_t(arena) + b.off + k;
                    size_t j = mix(a) & (ALOCS - 1);
                    while (alocs[j].gen == gen) {
                        if (alocs[j].addr == a) { alocs[j].total = 0; alocs[j].nrd = 0; break; }
                        j = (j + 1) & (ALOCS - 1);
                    }
                }
                memset(arena + b.off, 0xcd, n);
                tick();
                return arena + b.off;
            }
        }
    }
    size_t off = (brk_ + 32 + align - 1) & ~(align - 1);     // red zone before
    if (off + n + 32 > ARENA || nblocks >= MAXB) { fprintf(stderr, "vsched: arena exhausted\n"); _exit(13); }
    brk_ = (off + n + 15) & ~size_t(15);
    Block& b = blocks[nblocks];
    b.off = uint32_t(off);
    b.size = uint32_t(n);
    b.st = 1;
    for (size_t k = off / 16; k < brk_ / 16; ++k) block_of[k] = nblocks;
    ++nblocks;
    memset(astate + off, 1, n);
    memset(arena + off, 0xcd, n);
    return arena + off;
}
void vs_free(void* p, const void* pc) {
    if (!p) return;
    if (!in_arena(p)) { free(p); return; }
    if (!active) return;    // left over after the execution
    if (!mon_depth) point(false);
    ++st.frees;
    size_t off = size_t(static_cast<char*>(p) - arena);
    int bi = block_of[off / 16];
    if (bi < 0 || blocks[bi].off != off) fail("memory.bad_free", "thread %d frees an address which is not the start of a block: %s pc=%p", cur, where(p), pc);
    Block& b = blocks[bi];
    if (b.st != 1) fail("memory.double_free", "thread %d frees again: %s pc=%p", cur, where(p), pc);
    if (!mon_depth) {
        // freeing counts as a write to all of it
        for (size_t i = 0; i < b.size; ++i) {
            Sh* s = shadow + off + i;
            if (s->w && !hb(s->wt, s->w)) race(arena + off + i, "free", s->wt, "a write", pc, s->wpc);
            for (int t = 0; t < nfib; ++t) {
                if (t == cur) continue;
                if (s->pr[t] && !hb(t, s->pr[t])) race(arena + off + i, "free", t, "a read", pc, nullptr);
                if (s->ar[t] && !hb(t, s->ar[t])) race(arena + off + i, "free", t, "an atomic read", pc, nullptr);
                if (s->aw[t] && !hb(t, s->aw[t])) race(arena + off + i, "free", t, "an atomic write", pc, nullptr);
            }
        }
    }
    b.st = 2;
    b.ft = uint8_t(cur);
    b.vc = fib[cur].vc;
    b.fpc = pc;
    memset(astate + off, 2, b.size);
    memset(arena + off, 0xdd, b.size);
    tick();
}

void* dummy_thread(void*) { return nullptr; }

Mtx* mtx_of(void* p) {
    size_t i = mix(uintptr_t(p)) & 255;
    while (mtxs[i].gen == gen && mtxs[i].addr != uintptr_t(p)) i = (i + 1) & 255;
    if (mtxs[i].gen != gen) {
        mtxs[i] = Mtx{};
        mtxs[i].gen = gen;
        mtxs[i].addr = uintptr_t(p);
        mtxs[i].owner = -1;
        mtxs[i].vc.clear();
    }
    return &mtxs[i];
}

} // namespace

// ---------------------------------------------------------------- public
void init(ViolFn f) {
    viol = f;
    arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    shadow = static_cast<Sh*>(mmap(nullptr, ARENA * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    astate = static_cast<uint8_t*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    block_of = static_cast<int*>(malloc(ARENA / 16 * sizeof(int)));
    memset(block_of, 0xff, ARENA / 16 * sizeof(int));
    for (int i = 1; i < MAXT; ++i)
        fib[i].stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    // so that libstdc++ does not take its single-threaded shortcuts
    pthread_t t;
    pthread_create(&t, nullptr, dummy_thread, nullptr);
    pthread_join(t, nullptr);
}

void begin(const Options& o) {
    // forget the previous execution
    if (brk_) {
        size_t n = brk_ + 64;
        if (n > ARENA) n = ARENA;
        memset(static_cast<void*>(shadow), 0, n * sizeof(Sh));
        memset(astate, 0, n);
        memset(block_of, 0xff, (n / 16) * sizeof(int));
    }
    brk_ = 0;
    nblocks = 0;
    ++gen;
    ngsh = 0;
    opt = o;
    st = Stats{};
    rng.s = mix(o.seed);
    ihash = 7;
    nfib = 1;
    cur = 0;
    joining = false;
    mon_depth = 0;
    low_prio = 0;
    streak = 0;
    scvc.clear();
    for (auto& f : fib) {
        f.used = f.done = false;
        f.waiting = nullptr;
        f.vc.clear();
        f.acq.clear();
        f.frel.clear();
        f.has_frel = false;
        f.prio = 1000;
        f.stalled = 0;
    }
    fib[0].used = true;
    fib[0].vc.c[0] = 1;
    if (opt.stall_at) opt.stall_at = 1 + rng.below(uint32_t(est_len));
    npct = o.depth < 16 ? o.depth : 16;
    for (int i = 0; i < npct; ++i) pct_points[i] = 1 + rng.below(uint32_t(est_len));
    active = true;
}

int spawn(void (*fn)(void*), void* arg) {
    Mon m;
    if (nfib >= MAXT) abort();
    int t = nfib;
    Fiber& f = fib[t];
    f.used = true;
    f.done = false;
    f.fn = fn;
    f.arg = arg;
    fib[0].vc.c[0]++;
    f.vc = fib[cur].vc;
    f.vc.c[t] = 1;
    fib[cur].vc.c[cur]++;
    f.prio = 100 + int(rng.below(1000));
    f.stalled = 0;
    void** sp = reinterpret_cast<void**>(f.stack + STACK);
    *--sp = nullptr;    // alignment: rsp%16==8 at the entry of fiber_main
    *--sp = reinterpret_cast<void*>(&fiber_main);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
    ++nfib;
    return t;
}

void join_all() {
    joining = true;
    bool left = false;
    for (int k = 1; k < nfib; ++k) if (!fib[k].done) left = true;
    if (left) reschedule(true);
    joining = false;
    for (int k = 1; k < nfib; ++k) fib[0].vc.join(fib[k].vc);
    est_len = (est_len * 7 + st.steps) / 8 + 1;
    nfib = 1;   // sequential from here on (shadow of finished threads is ordered before us)
}

Stats end(bool leaks) {
    if (leaks) {
        for (int i = 0; i < nblocks; ++i) if (blocks[i].st == 1) fail("memory.leak", "heap block #%d of %u bytes was never freed", i, blocks[i].size);
    }
    active = false;
    return st;
}
uint64_t now() { return ++clock_; }
int self() { return cur; }
uint64_t interleaving_hash() { return ihash; }
void yield_point() { point(true); }
int live(const void* p) {
    if (!in_arena(p)) return -1;
    return astate[static_cast<const char*>(p) - arena] == 1;
}
long live_blocks() {
    long n = 0;
    for (int i = 0; i < nblocks; ++i) n += blocks[i].st == 1;
    return n;
}
Mon::Mon() { ++mon_depth; }
Mon::~Mon() { --mon_depth; }

} // namespace vs

using namespace vs;
#define PC __builtin_return_address(0)

// ---------------------------------------------------------------- instrumentation ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { plain(p, n, false, PC); } \
    void __tsan_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { plain(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { plain(p, n, false, PC); plain(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { plain(p, n, false, PC); plain(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { plain(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); else plain(p, 8, false, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain(s, n, false, PC); plain(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain(d, n, true, PC); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T) { return v; }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o + v); }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o - v); }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o & v); }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o | v); }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(o ^ v); }, mo, PC); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return T(~(o & v)); }, mo, PC); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, PC); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, false, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (!active || mon_depth) return;
    ++st.atomics;
    point(true);
    Fiber& f = fib[cur];
    if (is_acq(mo)) f.vc.join(f.acq);
    if (mo == __ATOMIC_SEQ_CST) { f.vc.join(scvc); scvc.join(f.vc); }
    if (is_rel(mo)) { f.frel = f.vc; f.has_frel = true; }
    tick();
}
void __tsan_atomic_signal_fence(int) {}

// blocking primitives which a lock may be built from
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active || mon_depth) return 0;
    point(true);
    Mtx* x = mtx_of(m);
    while (x->owner >= 0) {
        ++st.blocked;
        fib[cur].waiting = m;
        reschedule(true);
    }
    x->owner = cur;
    fib[cur].vc.join(x->vc);
    tick();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active || mon_depth) return 0;
    point(true);
    Mtx* x = mtx_of(m);
    if (x->owner >= 0) return EBUSY;
    x->owner = cur;
    fib[cur].vc.join(x->vc);
    tick();
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active || mon_depth) return 0;
    Mtx* x = mtx_of(m);
    x->owner = -1;
    x->vc.join(fib[cur].vc);
    tick();
    for (int i = 0; i < nfib; ++i) if (fib[i].waiting == m) fib[i].waiting = nullptr;
    point(true);
    return 0;
}
int sched_yield() {
    if (active && !mon_depth) {
        ++st.steps;
        if (st.steps > opt.max_steps) fail("progress.livelock", "no completion within %llu steps", (unsigned long long)opt.max_steps);
        if (nfib > 1) { fib[cur].prio = --low_prio; reschedule(true); }
    }
    return 0;
}
// waiting on an atomic (C++20) sleeps in the kernel
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && active && !mon_depth) {
        int* addr = reinterpret_cast<int*>(a[0]);
        int op = int(a[1]) & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(true);
            if (*addr != int(a[2])) { errno = EAGAIN; return -1; }
            if (a[3]) return sched_yield();     // has a timeout
            ++st.blocked;
            fib[cur].waiting = addr;
            reschedule(true);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long n = 0;
            for (int i = 0; i < nfib && n < a[2]; ++i) if (fib[i].waiting == addr) { fib[i].waiting = nullptr; ++n; }
            point(true);
            return n;
        }
    }
    long ret;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = int(-ret); return -1; }
    return ret;
}
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }
} // extern "C"

void* operator new(size_t n) { void* p = vs_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vs_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vs_alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = vs_alloc(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = vs_alloc(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { vs_free(p, PC); }
void operator delete[](void* p) noexcept { vs_free(p, PC); }
void operator delete(void* p, size_t) noexcept { vs_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { vs_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { vs_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { vs_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vs_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vs_free(p, PC); }
