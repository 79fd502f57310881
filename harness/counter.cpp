// Reference counters: sequential exactness over the whole 32 bit range (profiles seq and full), and on real threads (mt).
#include "common.hpp"
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>
#include <thread>
#include <vector>
#include <new>
#include <type_traits>
using namespace hv;

static long n_ops, n_zero_nz, n_nz, n_full, n_preset, n_zero_seen, n_mt_ops, n_mt_nz_fail, n_hi;

#define FAIL(key, ...) out.violation(key, __VA_ARGS__)

template <typename C> static const char* cname();
template <> const char* cname<xmem::atomic_ref_count>() { return "atomic"; }
template <> const char* cname<xmem::local_ref_count>() { return "local"; }

template <typename C> struct Holder {
    alignas(64) unsigned char raw[64];
    C* c;
    Holder(int fill) { memset(raw, fill, sizeof raw); c = new (raw) C; }
    // put the counter at a value without counting there, if its representation lets us
    bool preset(uint32_t v) {
        if (sizeof(C) != 4 || !std::is_trivially_destructible_v<C>) return false;
        memcpy(raw, &v, 4);
        if (c->count() != v) { c = new (raw) C; return false; }
        return true;
    }
};

template <typename C> static uint64_t seq_case(Rng& r) {
    Holder<C> h(int(r.below(256)));
    C& c = *h.c;
    uint64_t m = 1;
    uint64_t hh = 7;
    if (c.count() != 1) FAIL("counter.start", "a new %s counter is at %u", cname<C>(), c.count());
    static const uint32_t at[] = {1, 2, 127, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffff0u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffff00u};
    int ops = 200;
    for (int i = 0; i < ops; ++i) {
        uint32_t k = r.below(40);
        if (k == 0) {
            uint32_t v = r.chance(1, 3) ? uint32_t(r.next()) : at[r.below(14)] + r.below(8) - 4;
            if (v < 0xffffff80u && v > 0 && h.preset(v)) { m = v; ++n_preset; if (v >> 31) ++n_hi; hh = mix(hh ^ v); }
            else { c.~C(); h.c = new (h.raw) C; m = 1; }
            continue;
        }
        if (m == 0) {
            if (k < 30) {
                uint32_t x = c.inc_nz();
                ++n_zero_nz;
                if (x != 0) FAIL("counter.inc_nz", "%s counter: conditional increment of zero returns %u", cname<C>(), x);
                if (c.count() != 0) FAIL("counter.inc_nz", "%s counter: conditional increment of zero leaves %u", cname<C>(), c.count());
            }
            else { c.~C(); h.c = new (h.raw) C; m = 1; }
        }
        else if (k < 14) {
            uint32_t x = c.inc();
            ++m;
            hh = mix(hh ^ 1);
            if (x != m) FAIL("counter.inc", "%s counter: increment returns %u instead of %llu", cname<C>(), x, (unsigned long long)m);
        }
        else if (k < 24) {
            uint32_t x = c.inc_nz();
            ++m;
            ++n_nz;
            hh = mix(hh ^ 2);
            if (x != m) FAIL("counter.inc_nz", "%s counter: conditional increment returns %u instead of %llu", cname<C>(), x, (unsigned long long)m);
        }
        else {
            uint32_t x = c.dec();
            --m;
            hh = mix(hh ^ 3);
            if (x != m) FAIL("counter.dec", "%s counter: decrement returns %u instead of %llu", cname<C>(), x, (unsigned long long)m);
        }
        ++n_ops;
        if (c.count() != m) FAIL("counter.count", "%s counter is at %u instead of %llu", cname<C>(), c.count(), (unsigned long long)m);
        if (static_cast<const C&>(c).count() != m) FAIL("counter.count", "count changes the %s counter", cname<C>());
    }
    // down to zero from wherever it is
    if (m > 4096 && h.preset(3)) m = 3;
    while (m && m <= 4096) {
        uint32_t x = c.dec();
        --m;
        if (x != m) FAIL("counter.dec", "%s counter: decrement returns %u instead of %llu", cname<C>(), x, (unsigned long long)m);
        ++n_ops;
    }
    if (m == 0) {
        if (c.inc_nz() != 0 || c.count() != 0) FAIL("counter.inc_nz", "%s counter revived", cname<C>());
        ++n_zero_seen;
    }
    return hh;
}

// really counts up to the largest value and down again
template <typename C> static void full_case(bool nz) {
    Holder<C> h(0xee);
    C& c = *h.c;
    uint32_t m = 1;
    const uint32_t top = 0xffffffffu;
    while (m != top) {
        uint32_t x = nz ? c.inc_nz() : c.inc();
        ++m;
        asm volatile("" : : "r"(&c) : "memory");
        if (__builtin_expect(x != m, 0)) FAIL(nz ? "counter.inc_nz" : "counter.inc", "%s counter: %sincrement returns %u instead of %u", cname<C>(), nz ? "conditional " : "", x, m);
        if ((m & 0xfffff) == 0 && c.count() != m) FAIL("counter.count", "%s counter is at %u instead of %u", cname<C>(), c.count(), m);
    }
    if (c.count() != top) FAIL("counter.count", "%s counter is at %u instead of %u", cname<C>(), c.count(), top);
    while (m != 0) {
        uint32_t x = c.dec();
        --m;
        asm volatile("" : : "r"(&c) : "memory");
        if (__builtin_expect(x != m, 0)) FAIL("counter.dec", "%s counter: decrement returns %u instead of %u", cname<C>(), x, m);
        if ((m & 0xfffff) == 0 && c.count() != m) FAIL("counter.count", "%s counter is at %u instead of %u", cname<C>(), c.count(), m);
    }
    if (c.inc_nz() != 0 || c.count() != 0) FAIL("counter.inc_nz", "%s counter revived", cname<C>());
    n_full += 2 * (long long)(top - 1);
}

// up and down over the boundaries of one of the 4096 ranges of 2^20 values
template <typename C> static void sweep_case(uint32_t range) {
    Holder<C> h(0x11);
    C& c = *h.c;
    uint32_t lo = range << 20;
    uint32_t starts[4] = {lo > 4000 ? lo - 4000 : 1, lo + 60000, lo + (1u << 19) - 3000, lo + (1u << 20) - 9000};
    for (uint32_t v : starts) {
        if (v == 0) v = 1;
        if (!h.preset(v)) { if (range == 4095) full_case<C>(false); return; }
        ++n_preset;
        uint32_t m = v;
        for (int i = 0; i < 8000; ++i) {
            uint32_t x = i & 1 ? c.inc() : c.inc_nz();
            ++m;
            if (x != m) FAIL(i & 1 ? "counter.inc" : "counter.inc_nz", "%s counter: %sincrement returns %u instead of %u", cname<C>(), i & 1 ? "" : "conditional ", x, m);
            if (c.count() != m) FAIL("counter.count", "%s counter is at %u instead of %u", cname<C>(), c.count(), m);
        }
        for (int i = 0; i < 8500 && m > 1; ++i) {
            uint32_t x = c.dec();
            --m;
            if (x != m) FAIL("counter.dec", "%s counter: decrement returns %u instead of %u", cname<C>(), x, m);
            if (c.count() != m) FAIL("counter.count", "%s counter is at %u instead of %u", cname<C>(), c.count(), m);
        }
        n_ops += 16500;
        if (m >> 31) ++n_hi;
    }
}

// real threads: owners which count up and down, and observers which only try to count up from non-zero
static uint64_t mt_case(Rng& r) {
    using C = xmem::atomic_ref_count;
    Holder<C> h(0x5a);
    C& c = *h.c;
    int owners = 1 + int(r.below(4)), obs = int(r.below(3));
    uint32_t base[8];
    uint64_t total = 0;
    for (int i = 0; i < owners; ++i) { base[i] = 1 + r.below(6); total += base[i]; }
    for (uint64_t i = 1; i < total; ++i) c.inc();
    int iters = 50 + int(r.below(400));
    uint64_t seed = r.next();
    struct alignas(64) Res { long inc = 0, dec = 0, nz = 0, nzfail = 0, zeros = 0, badnz = 0, wrong = 0; } res[8];
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (int t = 0; t < owners + obs; ++t) th.emplace_back([&, t] {
        Rng q(seed + uint64_t(t) * 77);
        Res& R = res[t];
        go.fetch_add(1);
        while (go.load() < owners + obs) {}
        uint32_t own = t < owners ? base[t] : 0;
        bool dead = false;
        for (int i = 0; i < iters; ++i) {
            uint32_t k = q.below(6);
            if (own == 0) {
                // does not own anything: may only try
                uint32_t x = c.inc_nz();
                if (x) { if (dead) ++R.badnz; ++R.nz; own = 1; if (x < 2) ++R.wrong; }
                else { dead = true; ++R.nzfail; }
            }
            else if (k < 2) { if (c.inc() < own + 1) ++R.wrong; ++own; ++R.inc; }
            else if (k < 3) { uint32_t x = c.inc_nz(); if (x < own + 1) ++R.wrong; ++own; ++R.nz; }
            else { uint32_t x = c.dec(); --own; ++R.dec; if (x == 0) ++R.zeros; if (x < own) ++R.wrong; }
        }
        while (own) { uint32_t x = c.dec(); --own; ++R.dec; if (x == 0) ++R.zeros; if (x < own) ++R.wrong; }
    });
    for (auto& t : th) t.join();
    long zeros = 0, bad = 0, wrong = 0;
    long long sum = (long long)total;
    for (auto& R : res) {
        zeros += R.zeros;
        bad += R.badnz;
        wrong += R.wrong;
        sum += R.inc + R.nz - R.dec;
        n_mt_ops += R.inc + R.nz + R.dec + R.nzfail;
        n_mt_nz_fail += R.nzfail;
    }
    if (sum != 0) FAIL("harness", "sum %lld", sum);
    if (c.count() != 0) FAIL("counter.lost", "%u left after as many decrements as references", c.count());
    if (zeros != 1) FAIL("counter.zero", "%ld decrements observed zero", zeros);
    if (bad) FAIL("counter.revived", "conditional increment succeeded after it had failed");
    if (wrong) FAIL("counter.value", "%ld operations returned less than the references held by the caller", wrong);
    if (c.inc_nz() != 0) FAIL("counter.revived", "revived");
    ++n_zero_seen;
    uint64_t hh = mix(uint64_t(owners * 100 + obs));
    for (auto& R : res) hh = mix(hh ^ uint64_t(R.inc * 1000003 + R.nz * 1009 + R.dec * 31 + R.nzfail));
    return hh;
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("counter_operations", n_ops + n_mt_ops);
        out.stat("conditional_increments_of_zero", n_zero_nz + n_mt_nz_fail);
        out.stat("conditional_increments", n_nz);
        out.stat("full_range_steps", n_full);
        out.stat("started_at_chosen_values", n_preset);
        out.stat("started_above_2_31", n_hi);
        out.stat("counters_run_down_to_zero", n_zero_seen);
    };
    bool full = out.args.is("full"), mt = out.args.is("mt"), sweep = out.args.is("sweep");
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (full) {
            switch (c & 3) {
            case 0: full_case<xmem::atomic_ref_count>(false); break;
            case 1: full_case<xmem::local_ref_count>(false); break;
            case 2: full_case<xmem::atomic_ref_count>(true); break;
            case 3: full_case<xmem::local_ref_count>(true); break;
            }
            out.hash(mix(uint64_t(c) + 99));
            if (out.want_sample()) out.sample(c & 1 ? "local counter counted up to 2^32-1 and down to 0" : "atomic counter counted up to 2^32-1 and down to 0");
        }
        else if (sweep) {
            sweep_case<xmem::atomic_ref_count>(uint32_t(c) & 4095);
            sweep_case<xmem::local_ref_count>(uint32_t(c) & 4095);
            out.hash(mix(uint64_t(c) + 12345));
        }
        else if (mt) out.hash(mt_case(r));
        else out.hash(c & 1 ? seq_case<xmem::local_ref_count>(r) : seq_case<xmem::atomic_ref_count>(r));
        out.stat("cases");
    });
    return 0;
}
