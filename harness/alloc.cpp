// Allocators: sizes, alignments, overflow, placement of shared objects, user-supplied allocators.
#include "heapmon.hpp"
#include "policies.hpp"
#include <vector>
#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    include <sanitizer/asan_interface.h>
#    define HV_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#    define HV_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#  endif
#endif
#ifndef HV_POISON
#  define HV_POISON(p, n) (void)0
#  define HV_UNPOISON(p, n) (void)0
#endif
using namespace hv;

static char ctx[300];
[[noreturn]] static void fail(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* key, const char* f, ...) {
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    out.violation(key, "%s: %s", ctx, b);
}
static long n_direct, n_over, n_huge, n_groups, n_arena_groups, n_place, n_ops, n_poly;

// ------------------------------------------------------------------ direct use of the allocator
template <size_t S, size_t A>
struct alignas(A) Raw { unsigned char c[S]; };

template <typename T>
static void direct(Rng& r, char* smp) {
    const size_t M = size_t(-1) / sizeof(T);
    size_t n = 0;
    bool over = false;
    switch (r.below(11)) {
    case 0: n = r.below(4); break;
    case 1: n = r.below(64); break;
    case 2: n = r.below(5000); break;
    case 3: n = M; break;
    case 4: n = M + 1; over = sizeof(T) > 1; if (!over) n = M; break;
    case 5: n = M + 1 + r.below(100); over = sizeof(T) > 1; if (!over) n = M; break;
    case 6: n = size_t(-1) - r.below(50); over = n > M; break;
    case 7: n = (size_t(1) << (32 + r.below(32))) + r.below(3); over = n > M; break;
    case 8: n = size_t(r.next()) | size_t(1) << 62; over = n > M; break;
    default: n = sizeof(T) > 1 ? M + 1 + size_t(r.next()) % (size_t(-1) - M) : r.below(300); over = n > M; break;
    }
    snprintf(ctx, sizeof ctx, "allocator for elements of size %zu, alignment %zu: allocate(%zu)", sizeof(T), alignof(T), n);
    strcpy(smp, ctx);
    out.hash(mix(sizeof(T) * 131 + alignof(T)) ^ mix(n));
    xmem::allocator<T> a;
    long h0 = hm::live;
    hm::last_size = 0;
    T* p = nullptr;
    bool threw = false;
    try { p = a.allocate(n); }
    catch (const std::bad_alloc&) { threw = true; }
    catch (const std::exception&) { threw = true; }
    if (over) {
        ++n_over;
        if (!threw) {
            auto* b = hm::find(p);
            fail("alloc.overflow", "yields a block of %zu bytes instead of failing", b ? b->size : size_t(0));
        }
        // a request which wrapped around, and which only this heap refuses
        if (hm::last_size && hm::last_size <= size_t(-1) / 2) fail("alloc.overflow", "asks the heap for %zu bytes", hm::last_size);
        if (hm::live != h0) fail("alloc.leak", "failed but holds memory");
        return;
    }
    size_t bytes = n * sizeof(T);
    if (threw) {
        if (bytes <= hm::limit) fail("alloc.failed", "fails");
        if (hm::last_size && hm::last_size < bytes) fail("alloc.size", "asks for %zu bytes", hm::last_size);
        if (hm::live != h0) fail("alloc.leak", "failed but holds memory");
        ++n_huge;
        return;
    }
    if (bytes > hm::limit) {
        auto* b = hm::find(p);
        fail("alloc.size", "yields a block of %zu bytes", b ? b->size : size_t(0));
    }
    ++n_direct;
    if (n && !p) fail("alloc.null", "yields null");
    if (uintptr_t(p) % alignof(T)) fail("alloc.align", "yields %p", static_cast<void*>(p));
    if (auto* b = hm::find(p)) {
        if (b->size < bytes) fail("alloc.size", "yields a block of %zu bytes", b->size);
    }
    unsigned char* c = reinterpret_cast<unsigned char*>(p);
    for (size_t i = 0; i < bytes; ++i) c[i] = static_cast<unsigned char>(i * 7 + 1);
    // a second block must not overlap
    xmem::allocator<char> other(a);
    xmem::allocator<T> b2(other);
    size_t n2 = r.below(5);
    T* q = b2.allocate(n2);
    memset(static_cast<void*>(q), 0x11, n2 * sizeof(T));
    for (size_t i = 0; i < bytes; ++i) if (c[i] != static_cast<unsigned char>(i * 7 + 1)) fail("alloc.overlap", "block changed by another one");
    if (r.chance(1, 2)) { b2.deallocate(p, n); a.deallocate(q, n2); }
    else { std::allocator_traits<xmem::allocator<T>>::deallocate(a, q, n2); a.deallocate(p, n); }
    if (hm::live != h0) fail("alloc.leak", "memory was not given back");
}
using DirectFn = void (*)(Rng&, char*);
static const DirectFn directs[] = {
    direct<Raw<1, 1>>, direct<Raw<2, 1>>, direct<Raw<3, 1>>, direct<Raw<2, 2>>, direct<Raw<6, 2>>, direct<Raw<4, 4>>, direct<Raw<12, 4>>,
    direct<Raw<8, 8>>, direct<Raw<24, 8>>, direct<Raw<40, 8>>, direct<Raw<1, 16>>, direct<Raw<16, 16>>, direct<Raw<48, 16>>, direct<Raw<32, 32>>, direct<Raw<1, 32>>,
    direct<Raw<64, 64>>, direct<Raw<100, 64>>, direct<Raw<128, 128>>, direct<Raw<1, 256>>, direct<Raw<512, 512>>, direct<Raw<1000, 1>>, direct<Raw<1024, 1024>>,
    direct<Raw<5, 2048>>, direct<Raw<4096, 4096>>, direct<Raw<100000, 8>>, direct<char>, direct<int>, direct<void*>, direct<long double>, direct<Raw<65537, 1>>};
constexpr int NDIRECT = sizeof directs / sizeof *directs;

// ------------------------------------------------------------------ groups
struct Arena {
    int id = 0;
    static constexpr int MAXR = 64;
    struct R { char* p; size_t n, size, align, bytes; int group; bool live; } r[MAXR];
    int nr = 0;
    long calls = 0, frees = 0;
    alignas(8192) char buf[1 << 19];
    size_t used = 0;
    void reset(int i) { id = i; nr = 0; calls = frees = 0; HV_UNPOISON(buf, sizeof buf); used = 0; }
};
static Arena arenas[3];
static long alloc_instances;
static int cur_group = -1;
static bool creating;

struct Group {
    bool live = false;      // exists in the model
    int arena = -1;
    bool obj_alive = false;
    int owners = 0, weaks = 0;
    bool arena_freed = false;
    int arena_allocs = 0;
};
static Group G[64];
static int nG;

// stateful allocator which lives in an arena and knows when it is used after its death
template <typename T, int K>
struct CA {
    using value_type = T;
    Arena* a;
    const CA* self;
    explicit CA(Arena* x) noexcept : a(x), self(this) { ++alloc_instances; }
    CA(const CA& o) noexcept : a(o.chk()), self(this) { ++alloc_instances; }
    template <typename U> CA(const CA<U, K>& o) noexcept : a(o.chk()), self(this) { ++alloc_instances; }
    CA& operator=(const CA& o) noexcept { a = o.chk(); return *this; }
    ~CA() { chk(); --alloc_instances; self = nullptr; a = nullptr; }
    Arena* chk() const {
        if (self != this) fail("alloc.dead_allocator", "an allocator which does not exist (any more) is used");
        return a;
    }
    T* allocate(size_t n) {
        chk();
        if (!creating) fail("alloc.unexpected", "the allocator is asked for memory outside of a creating operation");
        if (n == 0) fail("alloc.size", "allocate(0)");
        ++a->calls;
        ++G[cur_group].arena_allocs;
        // aligned as asked for, and not more
        uintptr_t u = uintptr_t(a->buf) + a->used + 64;
        u = (u + alignof(T) - 1) & ~uintptr_t(alignof(T) - 1);
        if (!(u & alignof(T))) u += alignof(T);
        char* p = reinterpret_cast<char*>(u);
        size_t bytes = n * sizeof(T);
        if (p + bytes + 64 > a->buf + sizeof a->buf || a->nr >= Arena::MAXR) { fprintf(stderr, "arena full\n"); _exit(3); }
        a->used = size_t(p + bytes + 64 - a->buf);
        memset(p - 64 < a->buf ? a->buf : p - 64, 0xE7, 64);
        memset(p, 0xC9, bytes);
        memset(p + bytes, 0xE7, 64);
        HV_POISON(p + bytes, 64);
        a->r[a->nr++] = {p, n, sizeof(T), alignof(T), bytes, cur_group, true};
        return reinterpret_cast<T*>(p);
    }
    void deallocate(T* ptr, size_t n) {
        chk();
        ++a->frees;
        char* p = reinterpret_cast<char*>(const_cast<std::remove_cv_t<T>*>(ptr));
        for (int i = 0; i < a->nr; ++i) {
            auto& r = a->r[i];
            if (r.p != p) continue;
            if (!r.live) fail("alloc.double_free", "a block is deallocated twice");
            if (r.n != n) fail("alloc.dealloc_size", "allocated %zu elements, deallocates %zu", r.n, n);
            if (r.size != sizeof(T) || r.align != alignof(T)) fail("alloc.dealloc_type", "allocated as size %zu align %zu, deallocated as size %zu align %zu", r.size, r.align, sizeof(T), alignof(T));
            Group& g = G[r.group];
            if (g.obj_alive) fail("alloc.early", "memory of group %d deallocated although its object exists", r.group);
            if (g.owners || g.weaks) fail("alloc.early", "memory of group %d deallocated although %d owners and %d weak pointers refer to it", r.group, g.owners, g.weaks);
            if (g.arena_freed) fail("alloc.double_free", "second deallocation of group %d", r.group);
            g.arena_freed = true;
            r.live = false;
            HV_UNPOISON(p + r.bytes, 64);
            for (int k = 0; k < 64; ++k) if (static_cast<unsigned char>(p[int(r.bytes) + k]) != 0xE7) fail("alloc.overrun", "memory behind a block of the allocator was written");
            memset(p, 0xDD, r.bytes);
            HV_POISON(p, r.bytes);
            return;
        }
        fail("alloc.wrong_allocator", "a block is deallocated through an allocator which did not provide it");
    }
    template <typename U> friend bool operator==(const CA& x, const CA<U, K>& y) { return x.a == y.a; }
    template <typename U> friend bool operator!=(const CA& x, const CA<U, K>& y) { return x.a != y.a; }
};
template <typename T> using Alloc0 = CA<T, 0>;
// (rebinding in xmem wants a template with a single parameter)
template <typename T>
struct UA : CA<T, 1> {
    using CA<T, 1>::CA;
    UA(const UA&) noexcept = default;
    template <typename U> UA(const UA<U>& o) noexcept : CA<T, 1>(static_cast<const CA<U, 1>&>(o)) {}
};

static void obj_gone(int g) {
    if (g < 0 || g >= nG || !G[g].obj_alive) fail("destroy.garbage", "an object is destroyed which does not exist");
    if (G[g].owners) fail("destroy.early", "object of group %d destroyed while it has %d owners", g, G[g].owners);
    G[g].obj_alive = false;
}

struct ObjBase {
    virtual bool ok() const = 0;
    int g = cur_group;
    virtual ~ObjBase() = default;
};
template <size_t S, size_t A>
struct alignas(A) Obj : ObjBase {
    unsigned char c[S];
    Obj() { for (size_t i = 0; i < S; ++i) c[i] = static_cast<unsigned char>(i * 3 + size_t(this->g)); }
    bool ok() const override {
        if (uintptr_t(this) % A) return false;
        for (size_t i = 0; i < S; ++i) if (c[i] != static_cast<unsigned char>(i * 3 + size_t(this->g))) return false;
        return true;
    }
    ~Obj() override {
        if (!ok()) fail("place.content", "the content of an object was changed before its destruction");
        obj_gone(this->g);
        memset(c, 0x99, S);
    }
};

struct Del {
    int tag;
    long pad[3];
    template <typename T> void operator()(T* p) const { if (tag != 7171) fail("deleter.garbage", "deleter lost its content"); delete p; }
};
template <typename T>
struct EDel { void operator()(T* p) const { delete p; } };

template <typename P>
struct Run {
    using SP = typename P::template sp<ObjBase>;
    using WP = typename P::template wp<ObjBase>;
    SP s[10];
    WP w[8];
    int sg[10], wg[8];
    uint64_t h = 1;
    Rng& r;
    explicit Run(Rng& r) : r(r) { for (auto& x : sg) x = -1; for (auto& x : wg) x = -1; }

    template <typename T>
    SP create(int way, int arena, const char*& n) {
        using S = typename P::template sp<T>;
        using cbf = typename P::cbf;
        UA<char> a(&arenas[arena < 0 ? 0 : arena]);
        switch (way) {
        case 0: n = "make"; { S x = P::template make<T>(); return x; }
        case 1: n = "make_for_overwrite"; { S x = P::template make_ow<T>(); return x; }
        case 2: n = "raw"; { S x(new T); return x; }
        case 3: n = "raw+deleter"; { S x(new T, Del{7171, {}}); return x; }
        case 4: n = "unique"; { S x(xmem::make_unique<T>()); return x; }
        case 5: n = "allocator"; { S x(cbf::template make_resource_cb<T>(a)); return x; }
        case 6: n = "allocator, for overwrite"; { S x(cbf::template make_resource_cb_for_overwrite<T>(a)); return x; }
        case 7: n = "allocator, unique"; { auto u = xmem::make_unique<T>(); S x(cbf::make_uptr_cb(u, a)); return x; }
        case 8: n = "allocator, unique+deleter"; { xmem::unique_ptr<T, Del> u(new T, Del{7171, {}}); S x(cbf::make_uptr_cb(u, a)); return x; }
        default: n = "allocator, unique+empty deleter"; { xmem::unique_ptr<T, EDel<T>> u(new T); S x(cbf::make_uptr_cb(u, a)); return x; }
        }
    }
    void drop(int g, int& c) {
        (void)c;
        if (g < 0) return;
    }
    void rel_s(int i) { if (sg[i] >= 0) --G[sg[i]].owners; sg[i] = -1; }
    void rel_w(int i) { if (wg[i] >= 0) --G[wg[i]].weaks; wg[i] = -1; }
    void check() {
        for (int i = 0; i < 10; ++i) {
            if (sg[i] < 0) continue;
            if (!s[i]->ok()) fail(uintptr_t(dynamic_cast<void*>(s[i].get())) % 16 ? "place.align" : "place.content", "object of group %d misaligned or overwritten", sg[i]);
            if (s[i]->g != sg[i]) fail("place.content", "object of group %d overwritten", sg[i]);
            if (s[i].use_count() != G[sg[i]].owners) fail("place.content", "use count of group %d is %ld instead of %d", sg[i], s[i].use_count(), G[sg[i]].owners);
        }
        for (int g = 0; g < nG; ++g) {
            Group& x = G[g];
            if (!x.live) continue;
            if (!x.owners && x.obj_alive) fail("destroy.missing", "object of group %d is left", g);
            if (x.arena >= 0) {
                if (!x.owners && !x.weaks && !x.arena_freed) fail("alloc.late", "memory of group %d was not given back when the last reference went", g);
            }
            if (!x.owners && !x.weaks) x.live = false;
        }
    }
    template <typename T>
    void op_create(int i) {
        if (nG >= 60) return;
        int way = int(r.below(10)), ar = way >= 5 ? int(r.below(3)) : -1;
        int g = nG++;
        // the previous value goes when the new one is assigned
        int old = sg[i];
        G[g] = Group();
        G[g].live = true;
        G[g].arena = ar;
        cur_group = g;
        G[g].obj_alive = true;
        const char* n = "";
        long t0 = hm::total;
        {
            creating = true;
            SP x = create<T>(way, ar, n);
            creating = false;
            snprintf(ctx, sizeof ctx, "[%s] object of size %zu, alignment %zu created by: %s", P::name, sizeof(T), alignof(T), n);
            long extra = way >= 7 ? 1 : way >= 5 ? 0 : way >= 2 ? 2 : 1;
            if (ar >= 0 && G[g].arena_allocs != 1) fail("alloc.pieces", "%d allocations through the allocator", G[g].arena_allocs);
            if (way >= 5 && hm::total - t0 != extra) fail("alloc.bypassed", "%ld allocations past the allocator", hm::total - t0 - extra);
            if (uintptr_t(dynamic_cast<void*>(x.get())) % alignof(T)) fail("place.align", "object at %p", dynamic_cast<void*>(x.get()));
            ++n_groups;
            if (ar >= 0) ++n_arena_groups;
            if (alignof(T) > 16) ++n_place;
            G[g].owners = 1;
            sg[i] = g;
            if (old >= 0) --G[old].owners;
            s[i] = std::move(x);
        }
        cur_group = -1;
        h = mix(h ^ (sizeof(T) * 31 + alignof(T)) ^ uint64_t(way) << 20 ^ uint64_t(i) << 32);
    }
    using Fn = void (Run::*)(int);
    void step() {
        static const Fn fns[] = {&Run::op_create<Obj<1, 8>>, &Run::op_create<Obj<8, 8>>, &Run::op_create<Obj<40, 8>>, &Run::op_create<Obj<16, 16>>, &Run::op_create<Obj<1, 32>>,
                                 &Run::op_create<Obj<64, 32>>, &Run::op_create<Obj<5, 64>>, &Run::op_create<Obj<200, 128>>, &Run::op_create<Obj<7, 256>>, &Run::op_create<Obj<1, 512>>,
                                 &Run::op_create<Obj<1, 1024>>, &Run::op_create<Obj<2000, 8>>, &Run::op_create<Obj<1, 4096>>, &Run::op_create<Obj<3, 2048>>};
        ++n_ops;
        int i = int(r.below(10)), j = int(r.below(10)), k = int(r.below(8)), l = int(r.below(8));
        uint32_t op = r.below(12);
        h = mix(h ^ op ^ uint64_t(i) << 8 ^ uint64_t(j) << 16 ^ uint64_t(k) << 24);
        switch (op) {
        case 0: case 1: case 2: (this->*fns[r.below(14)])(i); break;
        case 3: if (i != j) { if (sg[j] >= 0) ++G[sg[j]].owners; int g = sg[j]; rel_s(i); sg[i] = g; s[i] = s[j]; } break;
        case 4: if (i != j) { rel_s(i); sg[i] = sg[j]; sg[j] = -1; s[i] = std::move(s[j]); } break;
        case 5: rel_s(i); s[i].reset(); break;
        case 6: rel_w(k); if (sg[i] >= 0) ++G[sg[i]].weaks; wg[k] = sg[i]; w[k] = s[i]; break;
        case 7: rel_w(k); w[k].reset(); break;
        case 8: if (k != l) { if (wg[l] >= 0) ++G[wg[l]].weaks; int g = wg[l]; rel_w(k); wg[k] = g; w[k] = w[l]; } break;
        case 9: if (k != l) { rel_w(k); wg[k] = wg[l]; wg[l] = -1; w[k] = std::move(w[l]); } break;
        case 10: {
            int g = wg[k] >= 0 && G[wg[k]].owners ? wg[k] : -1;
            SP x = w[k].lock();
            if (bool(x) != (g >= 0)) fail("place.content", "lock of group %d", wg[k]);
            if (g >= 0) ++G[g].owners;
            rel_s(i);
            sg[i] = g;
            s[i] = std::move(x);
            break;
        }
        case 11: s[i].swap(s[j]); std::swap(sg[i], sg[j]); break;
        }
        snprintf(ctx, sizeof ctx, "[%s] after operation %u", P::name, op);
        check();
    }
    void finish() {
        int order[18];
        for (int i = 0; i < 18; ++i) order[i] = i;
        for (int i = 17; i > 0; --i) std::swap(order[i], order[r.below(uint32_t(i + 1))]);
        for (int o : order) {
            if (o < 10) { rel_s(o); s[o].reset(); }
            else { rel_w(o - 10); w[o - 10].reset(); }
            check();
        }
    }
};

template <typename P>
static void groups(Rng& r, char* smp) {
    for (int i = 0; i < 3; ++i) arenas[i].reset(i);
    nG = 0;
    cur_group = -1;
    creating = false;
    long ai = alloc_instances, h0 = hm::live;
    int n = 20 + int(r.below(60));
    {
        Run<P> x(r);
        for (int i = 0; i < n; ++i) x.step();
        x.finish();
        out.hash(x.h);
    }
    snprintf(ctx, sizeof ctx, "[%s] after everything is gone", P::name);
    for (auto& a : arenas) {
        if (a.calls != a.frees) fail("alloc.leak", "%ld allocations but %ld deallocations", a.calls, a.frees);
    }
    if (alloc_instances != ai) fail("alloc.instances", "%ld copies of the allocator were not destroyed", alloc_instances - ai);
    if (hm::live != h0) fail("alloc.leak", "%ld blocks left", hm::live - h0);
    snprintf(smp, 300, "[%s] history of %d operations over %d ownership groups, %ld allocations through 3 arenas", P::name, n, nG, arenas[0].calls + arenas[1].calls + arenas[2].calls);
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    hm::limit = size_t(1) << 26;
    out.before_finish = [] {
        out.stat("direct_allocations", n_direct);
        out.stat("overflowing_requests", n_over);
        out.stat("huge_requests", n_huge);
        out.stat("ownership_groups", n_groups);
        out.stat("groups_through_user_allocator", n_arena_groups);
        out.stat("overaligned_objects_placed", n_place);
        out.stat("operations", n_ops);
        out.stat("heap_blocks_monitored", hm::total);
    };
    bool d = out.args.is("direct");
    out.run([&](long c) {
        char smp[400] = "";
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (d) directs[c % NDIRECT](r, smp);
        else {
            switch (c % 3) {
            case 0: groups<PAtomic>(r, smp); break;
            case 1: groups<PLocal>(r, smp); break;
            case 2: groups<PTrack>(r, smp); break;
            }
        }
        if (out.want_sample()) out.sample(smp);
        out.stat("cases");
    });
    return 0;
}
