// Very many owners and observers of one object: no count may wrap, saturate or be cut off within its 32 bits.
// Profile many: arrays of up to 2^24 pointers, released one by one, the object and the bookkeeping watched at every step.
// Profile leak: more than 2^31 pointers, made in the same storage over and over (their destructors never run).
#include "common.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <memory>
#include <new>
using namespace hv;

static long n_checks, n_strong, n_weak, n_released, n_leaked, n_above;
static long live_blocks;
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
void* operator new(size_t n) { ++live_blocks; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { ++live_blocks; void* p = aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live_blocks; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live_blocks; free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) --live_blocks; free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) --live_blocks; free(p); }

static volatile long destroyed;
struct Base { long a = 1; };
struct Obj : Base {
    long b = 2;
    ~Obj() { destroyed = destroyed + 1; }
};
static char ctx[200];
#define FAIL(key, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); out.violation(key, "%s: %s", ctx, b_); } while (0)

struct Atomic {
    static constexpr const char* name = "atomic";
    template <typename T> using sp = xmem::shared_ptr<T>;
    template <typename T> using wp = xmem::weak_ptr<T>;
    static sp<Obj> make() { return xmem::make_shared<Obj>(); }
};
struct Local {
    static constexpr const char* name = "local";
    template <typename T> using sp = xmem::local_shared_ptr<T>;
    template <typename T> using wp = xmem::local_weak_ptr<T>;
    static sp<Obj> make() { return xmem::make_local_shared<Obj>(); }
};
struct Std {
    static constexpr const char* name = "std";
    template <typename T> using sp = std::shared_ptr<T>;
    template <typename T> using wp = std::weak_ptr<T>;
    static sp<Obj> make() { return std::make_shared<Obj>(); }
};

static bool near_pow2(uint64_t n) {
    for (int d = -2; d <= 2; ++d) { uint64_t x = n + uint64_t(d); if (x && !(x & (x - 1))) return true; }
    return false;
}

// the object has n owners
template <typename P, typename S, typename W>
static void look(const S& s, const W& w, uint64_t n) {
    ++n_checks;
    if (n > 0x7fffffff) ++n_above;
    if (destroyed) FAIL("destroy.early", "object destroyed while it has %llu owners", (unsigned long long)n);
    if (uint64_t(s.use_count()) != n) FAIL("strong.count", "use_count() is %ld with %llu owners", s.use_count(), (unsigned long long)n);
    if (uint64_t(w.use_count()) != n) FAIL("weak.count", "use_count() of a weak pointer is %ld with %llu owners", w.use_count(), (unsigned long long)n);
    if (w.expired()) FAIL("weak.expired", "expired with %llu owners", (unsigned long long)n);
    if (n + 2 < 0xffffffffu) {
        auto l = w.lock();
        if (l.get() != s.get()) FAIL("weak.lock", "lock failed with %llu owners", (unsigned long long)n);
        auto c = l;
        if (uint64_t(s.use_count()) != n + 2) FAIL("strong.count", "use_count() is %ld with %llu owners", s.use_count(), (unsigned long long)n + 2);
    }
    if (uint64_t(s.use_count()) != n) FAIL("strong.count", "use_count() is %ld with %llu owners", s.use_count(), (unsigned long long)n);
    if (destroyed) FAIL("destroy.early", "object destroyed while it has %llu owners", (unsigned long long)n);
}

template <typename P>
static void many_strong(Rng& r, size_t n) {
    using S = typename P::template sp<Obj>;
    using W = typename P::template wp<Obj>;
    snprintf(ctx, sizeof ctx, "%zu owners, %s", n, P::name);
    auto* a = static_cast<S*>(malloc(n * sizeof(S)));
    long before = live_blocks;
    destroyed = 0;
    {
        W w;
        {
            new (&a[0]) S(P::make());
            w = a[0];
            int how = int(r.below(4));
            for (size_t i = 1; i < n; ++i) {
                if (how == 0 || (how == 3 && i % 3 == 0)) new (&a[i]) S(w.lock());
                else if (how == 1) { S t(a[i - 1]); new (&a[i]) S(std::move(t)); }
                else new (&a[i]) S(a[i / 2]);
                if (near_pow2(i + 1)) look<P>(a[0], w, i + 1);
            }
            n_strong += long(n);
            // released from either end or in another order
            size_t step = r.chance(1, 2) ? 1 : (r.below(1000) * 2 + 1);
            while (n % step == 0 && step > 1) step += 2;
            auto gcd = [](size_t x, size_t y) { while (y) { size_t t = x % y; x = y; y = t; } return x; };
            while (gcd(n, step) != 1) ++step;
            size_t at = r.below(uint32_t(n));
            for (size_t k = n; k; --k) {
                if (near_pow2(k)) look<P>(a[at], w, k);
                if (destroyed) FAIL("destroy.early", "object destroyed while it has %zu owners", k);
                if (r.s & k & 1) { S t; t = std::move(a[at]); } else a[at].reset();
                a[at].~S();
                at = (at + step) % n;
            }
            n_released += long(n);
        }
        if (destroyed != 1) FAIL(destroyed ? "destroy.twice" : "destroy.missing", "object destroyed %ld times when all owners are gone", destroyed);
        if (!w.expired() || w.use_count() != 0) FAIL("weak.expired", "not expired, use_count() %ld", w.use_count());
        if (w.lock()) FAIL("weak.lock", "lock succeeded without owners");
        if (live_blocks == before) FAIL("cb.freed_early", "bookkeeping released while there is a weak pointer");
    }
    if (live_blocks != before) FAIL("cb.freed_late", "%ld blocks left", live_blocks - before);
    free(a);
}

template <typename P>
static void many_weak(Rng& r, size_t n) {
    using S = typename P::template sp<Obj>;
    using W = typename P::template wp<Base>;
    snprintf(ctx, sizeof ctx, "%zu weak pointers, %s", n, P::name);
    auto* a = static_cast<W*>(malloc(n * sizeof(W)));
    long before = live_blocks;
    destroyed = 0;
    {
        S s = P::make();
        bool expired_half = r.chance(1, 2);
        int how = int(r.below(3));
        for (size_t i = 0; i < n; ++i) {
            if (i == 0 || (s && how == 0)) new (&a[i]) W(s);
            else if (how == 1) { W t(a[i - 1]); new (&a[i]) W(std::move(t)); }
            else new (&a[i]) W(a[i / 2]);
            if (near_pow2(i + 1)) {
                ++n_checks;
                if (s) look<P>(s, a[i], 1);
                else if (!a[i].expired() || a[i].lock()) FAIL("weak.expired", "not expired");
            }
            if (expired_half && i == n / 2) {
                s.reset();
                if (destroyed != 1) FAIL(destroyed ? "destroy.twice" : "destroy.missing", "object destroyed %ld times when all owners are gone", destroyed);
            }
        }
        if (s) look<P>(s, a[n - 1], 1);
        n_weak += long(n);
    }
    if (destroyed != 1) FAIL(destroyed ? "destroy.twice" : "destroy.missing", "object destroyed %ld times when all owners are gone", destroyed);
    for (size_t k = n; k; --k) {
        if (live_blocks == before) FAIL("cb.freed_early", "bookkeeping released while there are %zu weak pointers", k);
        if (near_pow2(k) && (!a[k - 1].expired() || a[k - 1].lock() || a[k - 1].use_count())) FAIL("weak.expired", "not expired");
        a[k - 1].~W();
    }
    n_released += long(n);
    if (live_blocks != before) FAIL("cb.freed_late", "%ld blocks left", live_blocks - before);
    if (destroyed != 1) FAIL("destroy.twice", "object destroyed %ld times", destroyed);
    free(a);
}

template <typename P, typename T>
static void leaked(uint64_t& have, uint64_t to, T& from) {
    alignas(T) char buf[sizeof(T)];
    for (uint64_t i = have; i < to; ++i) new (buf) T(from);
    n_leaked += long(to - have);
    have = to;
}
template <typename P>
static void leak(bool weak, uint64_t top) {
    using S = typename P::template sp<Obj>;
    using W = typename P::template wp<Obj>;
    snprintf(ctx, sizeof ctx, "%llu %s pointers, %s", (unsigned long long)top, weak ? "weak" : "shared", P::name);
    long before = live_blocks;
    destroyed = 0;
    static const uint64_t at[] = {1u << 8, 1u << 15, 1u << 16, 1u << 20, 1u << 24, 1u << 28, 1u << 29, 1u << 30, 3ull << 29, 1ull << 31, 5ull << 29, 3ull << 30, 7ull << 29, 15ull << 28, ~0ull};
    alignas(S) char sb[sizeof(S)];
    alignas(W) char wb[sizeof(W)];
    S& s = *new (sb) S(P::make());
    W& w = *new (wb) W(s);
    uint64_t have = 1;
    for (uint64_t x : at) {
        for (int d = -3; d <= 3; ++d) {
            uint64_t to = x == ~0ull ? top - 3 + uint64_t(d) : x + uint64_t(d);
            if (to > top || to < have) continue;
            if (weak) { leaked<P>(have, to, w); look<P>(s, w, 1); }
            else { leaked<P>(have, to, s); look<P>(s, w, have); }
            if (live_blocks == before) FAIL("cb.freed_early", "bookkeeping released");
        }
    }
    if (weak) {
        s.reset();
        if (destroyed != 1) FAIL(destroyed ? "destroy.twice" : "destroy.missing", "object destroyed %ld times when all owners are gone", destroyed);
        for (int i = 0; i < 10; ++i) { W t(w); W u(std::move(t)); u.reset(); }
        if (!w.expired() || w.lock()) FAIL("weak.expired", "not expired");
        if (live_blocks == before) FAIL("cb.freed_early", "bookkeeping released while there are weak pointers");
    }
    else {
        for (int i = 0; i < 10; ++i) { S t(s); S u(std::move(t)); u.reset(); }
        look<P>(s, w, have);
    }
    live_blocks = before;
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("count_checks", n_checks);
        out.stat("owners_created", n_strong);
        out.stat("observers_created", n_weak);
        out.stat("references_released", n_released);
        out.stat("references_never_released", n_leaked);
        out.stat("checks_above_2_31_owners", n_above);
    };
    bool lk = out.args.is("leak"), st = out.args.is("std");
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (lk) {
            uint64_t top = c < 4 ? (1ull << 31) + 5 : 0xfffffff0ull;
            if (c & 1) leak<Local>(c & 2, top); else leak<Atomic>(c & 2, top);
            out.hash(mix(uint64_t(c) + 77));
        }
        else {
            int bits = c < 4 ? 24 : 8 + int(r.below(14));
            size_t n = (size_t(1) << bits) + r.below(7) - 3;
            if (c >= 4 && r.chance(1, 3)) n += r.below(uint32_t(n));
            if (st) { if (c & 2) many_weak<Std>(r, n); else many_strong<Std>(r, n); }
            else if (c & 1) { if (c & 2) many_weak<Local>(r, n); else many_strong<Local>(r, n); }
            else { if (c & 2) many_weak<Atomic>(r, n); else many_strong<Atomic>(r, n); }
            out.hash(mix(n * 4 + uint64_t(c & 3)));
        }
        if (out.want_sample()) out.sample(ctx);
        out.stat("cases");
    });
    return 0;
}
