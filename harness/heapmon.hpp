// Replaces the global operator new/delete by monitored ones.
//  * every block is recorded with its size, alignment and kind (object/array, aligned or not)
//    and must be given back once, in the same kind, with the same alignment and size;
//  * blocks are exactly as aligned as requested and not more, end where the underlying
//    block ends (so that ASan sees overruns), start after a guard, and are filled with garbage;
//  * allocations can be made to fail.
// Include in exactly one translation unit of a program.
#pragma once
#include "common.hpp"
#include <new>
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    define HM_MSAN 1
#    include <sanitizer/msan_interface.h>
#  endif
#endif

namespace hm {
struct Blk {
    void* p;
    char* base;
    size_t size, align;
    bool arr, al;
    long seq;
};
constexpr size_t CAP = 1 << 15;
inline Blk tab[CAP];
inline long live = 0, total = 0, freed = 0, nseq = 0;
inline size_t last_size = 0, last_align = 0;
inline size_t limit = size_t(1) << 28;      // larger requests fail
inline bool (*fail_hook)() = nullptr;       // should this allocation fail?
inline unsigned char fill = 0xCD;
inline bool log_on = false;
constexpr size_t GUARD = 32;

// (array cookies are poisoned by ASan)
__attribute__((no_sanitize("address"), noinline)) inline void fill_raw(void* p, int c, size_t n) {
    volatile unsigned char* q = static_cast<unsigned char*>(p);
    while (n--) *q++ = static_cast<unsigned char>(c);
}
inline size_t slot(const void* p) { return hv::mix(uint64_t(p)) & (CAP - 1); }
inline Blk* find(const void* p) {
    for (size_t i = slot(p); tab[i].p; i = (i + 1) & (CAP - 1)) if (tab[i].p == p) return &tab[i];
    return nullptr;
}
inline void erase(Blk* b) {
    size_t i = size_t(b - tab), j = i;
    for (;;) {
        tab[i].p = nullptr;
        for (;;) {
            j = (j + 1) & (CAP - 1);
            if (!tab[j].p) return;
            size_t k = slot(tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        tab[i] = tab[j];
        i = j;
    }
}
// the block containing p
inline Blk* containing(const void* p) {
    for (auto& b : tab) if (b.p && p >= b.p && static_cast<const char*>(p) < static_cast<char*>(b.p) + (b.size ? b.size : 1)) return &b;
    return nullptr;
}
inline void* get(size_t size, size_t align, bool arr, bool al) noexcept {
    last_size = size;
    last_align = align;
    if (fail_hook && fail_hook()) return nullptr;
    if (size > limit) return nullptr;
    if (align & (align - 1)) hv::out.violation("heap.align", "alignment %zu requested", align);
    // choose an address with exactly this alignment whose block ends with the allocation
    size_t slack = 2 * align + GUARD;
    size_t asz = (size + 15) & ~size_t(15);
    char* base = static_cast<char*>(malloc(asz + slack));
    if (!base) return nullptr;
    uintptr_t end = uintptr_t(base) + asz + slack;
    uintptr_t u = (end - size) & ~uintptr_t(align - 1);
    if (!(u & align)) u -= align;
    if (u < uintptr_t(base) + GUARD) u += 2 * align;
    char* p = reinterpret_cast<char*>(u);
    if (p < base + GUARD || p + size > base + asz + slack) { fprintf(stderr, "heapmon\n"); _exit(3); }
    // the guard before and after, and the garbage within
    memset(base, 0xA5, size_t(p - base));
#ifndef HM_MSAN
    memset(p, fill, size);
#else
    __msan_poison(p, size);
#endif
    memset(p + size, 0xA5, size_t(base + asz + slack - (p + size)));
    size_t i = slot(p);
    while (tab[i].p) i = (i + 1) & (CAP - 1);
    tab[i] = Blk{p, base, size, align, arr, al, ++nseq};
    ++live;
    ++total;
    if (live > long(CAP / 2)) { fprintf(stderr, "heapmon full\n"); _exit(3); }
    return p;
}
inline bool guards_ok(Blk* b) {
    char* e = static_cast<char*>(b->p) + b->size;
    size_t slack = 2 * b->align + GUARD, asz = (b->size + 15) & ~size_t(15);
    for (char* q = b->base; q < b->p; ++q) if (static_cast<unsigned char>(*q) != 0xA5) return false;
    for (char* q = e; q < b->base + asz + slack; ++q) if (static_cast<unsigned char>(*q) != 0xA5) return false;
    return true;
}
inline void put(void* p, bool arr, bool al, size_t align, bool sized, size_t size) noexcept {
    if (!p) return;
    Blk* b = find(p);
    if (!b) hv::out.violation("heap.bad_free", "%p given back which is not allocated (any more)", p);
    if (b->arr != arr) hv::out.violation("heap.mismatch", "%s memory given back as %s memory", b->arr ? "array" : "object", arr ? "array" : "object");
    if (b->al != al || (al && b->align != align)) hv::out.violation("heap.mismatch", "memory of alignment %zu%s given back with %zu%s", b->align, b->al ? "" : " (default)", align, al ? "" : " (default)");
    if (sized && b->size != size) hv::out.violation("heap.size", "memory of size %zu given back with size %zu", b->size, size);
    if (!guards_ok(b)) hv::out.violation("heap.overrun", "memory next to a block of %zu bytes was written", b->size);
    char* base = b->base;
#ifndef HM_MSAN
    fill_raw(p, 0xDD, b->size);
#endif
    erase(b);
    --live;
    ++freed;
    free(base);
}
inline void* must(size_t s, size_t a, bool arr, bool al) {
    if (void* p = get(s, a, arr, al)) return p;
    throw std::bad_alloc();
}
constexpr size_t DEF = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
} // namespace hm

void* operator new(size_t s) { return hm::must(s, hm::DEF, false, false); }
void* operator new[](size_t s) { return hm::must(s, hm::DEF, true, false); }
void* operator new(size_t s, std::align_val_t a) { return hm::must(s, size_t(a), false, true); }
void* operator new[](size_t s, std::align_val_t a) { return hm::must(s, size_t(a), true, true); }
void* operator new(size_t s, const std::nothrow_t&) noexcept { return hm::get(s, hm::DEF, false, false); }
void* operator new[](size_t s, const std::nothrow_t&) noexcept { return hm::get(s, hm::DEF, true, false); }
void* operator new(size_t s, std::align_val_t a, const std::nothrow_t&) noexcept { return hm::get(s, size_t(a), false, true); }
void* operator new[](size_t s, std::align_val_t a, const std::nothrow_t&) noexcept { return hm::get(s, size_t(a), true, true); }
void operator delete(void* p) noexcept { hm::put(p, false, false, 0, false, 0); }
void operator delete[](void* p) noexcept { hm::put(p, true, false, 0, false, 0); }
void operator delete(void* p, size_t s) noexcept { hm::put(p, false, false, 0, true, s); }
void operator delete[](void* p, size_t s) noexcept { hm::put(p, true, false, 0, true, s); }
void operator delete(void* p, std::align_val_t a) noexcept { hm::put(p, false, true, size_t(a), false, 0); }
void operator delete[](void* p, std::align_val_t a) noexcept { hm::put(p, true, true, size_t(a), false, 0); }
void operator delete(void* p, size_t s, std::align_val_t a) noexcept { hm::put(p, false, true, size_t(a), true, s); }
void operator delete[](void* p, size_t s, std::align_val_t a) noexcept { hm::put(p, true, true, size_t(a), true, s); }
void operator delete(void* p, const std::nothrow_t&) noexcept { hm::put(p, false, false, 0, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { hm::put(p, true, false, 0, false, 0); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { hm::put(p, false, true, size_t(a), false, 0); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { hm::put(p, true, true, size_t(a), false, 0); }
