// The pointer families the engines are instantiated with.
#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
#include <type_traits>
#include <new>

#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/std_helpers.hpp>
#include <memory>

namespace hv {

// ---------------------------------------------------------------- stateful allocator
// All memory of every ownership group made with it goes through one arena object.
struct ArenaLog {
    int id = 0;
    long allocs = 0, deallocs = 0;
    struct Rec { void* p; size_t n; size_t size; size_t align; bool live; };
    static constexpr int MAX = 512;
    Rec rec[MAX];
    int nrec = 0;
    const char* error = nullptr;
};

template <typename T>
struct ArenaAlloc {
    using value_type = T;
    ArenaLog* a;
    explicit ArenaAlloc(ArenaLog* l) noexcept : a(l) {}
    ArenaAlloc(const ArenaAlloc&) noexcept = default;
    template <typename U>
    ArenaAlloc(const ArenaAlloc<U>& o) noexcept : a(o.a) {}
    T* allocate(size_t n) {
        void* p = ::operator new(n * sizeof(T), std::align_val_t{alignof(T)});
        ++a->allocs;
        int i = -1;
        for (int k = 0; k < a->nrec; ++k) if (!a->rec[k].live) { i = k; break; }
        if (i < 0 && a->nrec < ArenaLog::MAX) i = a->nrec++;
        if (i >= 0) a->rec[i] = {p, n, sizeof(T), alignof(T), true};
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n) {
        ++a->deallocs;
        bool found = false;
        for (int k = 0; k < a->nrec; ++k) {
            auto& r = a->rec[k];
            if (r.live && r.p == p) {
                found = true;
                r.live = false;
                if (r.n != n) a->error = "deallocated with a different element count";
                if (r.size != sizeof(T) || r.align != alignof(T)) a->error = "deallocated as a different type";
                break;
            }
        }
        if (!found) { a->error = "deallocated an address which this allocator did not provide"; return; }
        ::operator delete(p, std::align_val_t{alignof(T)});
    }
    friend bool operator==(const ArenaAlloc& x, const ArenaAlloc& y) { return x.a == y.a; }
    friend bool operator!=(const ArenaAlloc& x, const ArenaAlloc& y) { return x.a != y.a; }
};

// ---------------------------------------------------------------- recording control block
// A user-supplied control block which does all the counting itself and keeps
// a record of the addresses of the pointers referring to it.
struct TrackRec {
    static constexpr int MAX = 96;
    const void* addr[MAX];
    int cnt[MAX];
    int n = 0;
    bool overflow = false;
    void add(const void* p, int d) {
        for (int i = 0; i < n; ++i) {
            if (addr[i] == p) {
                cnt[i] += d;
                if (cnt[i] == 0) { addr[i] = addr[n - 1]; cnt[i] = cnt[n - 1]; --n; }
                return;
            }
        }
        if (n == MAX) { overflow = true; return; }
        addr[n] = p;
        cnt[n] = d;
        ++n;
    }
};

inline const char* g_track_error = nullptr;
inline long g_track_events = 0;
inline long g_track_cbs = 0;

struct TrackCB {
    uint32_t strong = 1, weak = 1;
    TrackRec srec, wrec;
    bool inited = false;
    TrackCB() { ++g_track_cbs; }
    TrackCB(const TrackCB&) = delete;

    void init_strong(const void* p) noexcept {
        ++g_track_events;
        if (inited) g_track_error = "init_strong called twice";
        inited = true;
        srec.add(p, 1);
    }
    void inc_strong_ref(const void* p) noexcept {
        ++g_track_events;
        if (strong == 0) g_track_error = "strong reference added to a dead group";
        ++strong;
        srec.add(p, 1);
    }
    void dec_strong_ref(const void* p) noexcept {
        ++g_track_events;
        srec.add(p, -1);
        if (strong == 0) { g_track_error = "strong reference released from a dead group"; return; }
        if (--strong == 0) {
            if (srec.n && !srec.overflow) g_track_error = "strong references on record when the last owner went";
            destroy_resource();
            dec_weak();
        }
    }
    bool inc_strong_ref_nz(const void* p) noexcept {
        ++g_track_events;
        if (strong == 0) return false;
        ++strong;
        srec.add(p, 1);
        return true;
    }
    long strong_ref_count() const noexcept { return long(strong); }
    void transfer_strong(const void* to, const void* from) noexcept {
        ++g_track_events;
        srec.add(from, -1);
        srec.add(to, 1);
    }
    void inc_weak_ref(const void* p) noexcept {
        ++g_track_events;
        ++weak;
        wrec.add(p, 1);
    }
    void dec_weak_ref(const void* p) noexcept {
        ++g_track_events;
        wrec.add(p, -1);
        dec_weak();
    }
    void transfer_weak(const void* to, const void* from) noexcept {
        ++g_track_events;
        wrec.add(from, -1);
        wrec.add(to, 1);
    }

protected:
    void dec_weak() noexcept {
        if (weak == 0) { g_track_error = "weak reference released from a dead group"; return; }
        if (--weak == 0) {
            if (wrec.n && !wrec.overflow) g_track_error = "weak references on record when the control block is destroyed";
            if (srec.n && !srec.overflow) g_track_error = "strong references on record when the control block is destroyed";
            --g_track_cbs;
            destroy_self();
        }
    }
    virtual void destroy_resource() noexcept = 0;
    virtual void destroy_self() noexcept = 0;
};

using TrackCBF = xmem::control_block_factory<TrackCB>;

// ---------------------------------------------------------------- policies

struct PXmemBase {
    static constexpr bool is_std = false;
    static constexpr bool tracking = false;
    template <typename T, typename D = xmem::default_delete<T>> using up = xmem::unique_ptr<T, D>;
    template <typename T> static auto make_unique() { return xmem::make_unique<T>(); }

    template <typename X, typename Y> static bool same_owner(const X& x, const Y& y) { return xmem::same_owner(x, y); }
    template <typename X> static bool no_owner(const X& x) { return xmem::no_owner(x); }
    template <typename S, typename T> static auto make_aliased(const S& s, T* p) { return xmem::make_aliased(s, p); }
    template <typename T, typename S> static auto static_cast_(const S& s) { return xmem::static_pointer_cast<T>(s); }
    template <typename T, typename S> static auto dynamic_cast_(const S& s) { return xmem::dynamic_pointer_cast<T>(s); }
    template <typename T, typename S> static auto const_cast_(const S& s) { return xmem::const_pointer_cast<T>(s); }
    template <typename T, typename S> static auto reinterpret_cast_(const S& s) { return xmem::reinterpret_pointer_cast<T>(s); }
};

struct PAtomic : PXmemBase {
    static constexpr const char* name = "atomic";
    using cbf = xmem::atomic_control_block_factory;
    template <typename T> using sp = xmem::shared_ptr<T>;
    template <typename T> using wp = xmem::weak_ptr<T>;
    template <typename T> using storage = xmem::atomic_shared_ptr_storage<T>;
    using esf = xmem::enable_shared_from;
    template <typename T> using esft = xmem::enable_shared_from_this<T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static sp<T> make_ow() { return xmem::make_shared_for_overwrite<T>(); }
    template <typename T, typename... A> static sp<T> alloc(ArenaLog* l, A&&... a) {
        return sp<T>(cbf::make_resource_cb<T>(ArenaAlloc<char>(l), std::forward<A>(a)...));
    }
    template <typename T, typename U> static sp<T> alloc_uptr(ArenaLog* l, U&& u) {
        return sp<T>(cbf::make_uptr_cb(u, ArenaAlloc<char>(l)));
    }
};

struct PLocal : PXmemBase {
    static constexpr const char* name = "local";
    using cbf = xmem::local_control_block_factory;
    template <typename T> using sp = xmem::local_shared_ptr<T>;
    template <typename T> using wp = xmem::local_weak_ptr<T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<cbf, T>;
    using esf = xmem::enable_local_shared_from;
    template <typename T> using esft = xmem::enable_local_shared_from_this<T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
    template <typename T> static sp<T> make_ow() { return xmem::make_local_shared_for_overwrite<T>(); }
    template <typename T, typename... A> static sp<T> alloc(ArenaLog* l, A&&... a) {
        return sp<T>(cbf::make_resource_cb<T>(ArenaAlloc<char>(l), std::forward<A>(a)...));
    }
    template <typename T, typename U> static sp<T> alloc_uptr(ArenaLog* l, U&& u) {
        return sp<T>(cbf::make_uptr_cb(u, ArenaAlloc<char>(l)));
    }
};

struct PTrack : PXmemBase {
    static constexpr const char* name = "tracking";
    static constexpr bool tracking = true;
    using cbf = TrackCBF;
    template <typename T> using sp = xmem::basic_shared_ptr<cbf, T>;
    template <typename T> using wp = xmem::basic_weak_ptr<cbf, T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<cbf, T>;
    using esf = xmem::basic_enable_shared_from<cbf>;
    template <typename T> using esft = xmem::basic_enable_shared_from_this<cbf, T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) {
        return sp<T>(cbf::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...));
    }
    template <typename T> static sp<T> make_ow() { return sp<T>(cbf::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
    template <typename T, typename... A> static sp<T> alloc(ArenaLog* l, A&&... a) {
        return sp<T>(cbf::make_resource_cb<T>(ArenaAlloc<char>(l), std::forward<A>(a)...));
    }
    template <typename T, typename U> static sp<T> alloc_uptr(ArenaLog* l, U&& u) {
        return sp<T>(cbf::make_uptr_cb(u, ArenaAlloc<char>(l)));
    }
};

// the standard pointers with xmem's helpers for them
struct PStd {
    static constexpr const char* name = "std";
    static constexpr bool is_std = true;
    static constexpr bool tracking = false;
    template <typename T> using sp = std::shared_ptr<T>;
    template <typename T> using wp = std::weak_ptr<T>;
    template <typename T> using storage = xstd::atomic_shared_ptr_storage<T>;
    template <typename T, typename D = std::default_delete<T>> using up = std::unique_ptr<T, D>;
    struct esf : xstd::enable_shared_from {};
    template <typename T> using esft = std::enable_shared_from_this<T>;
    template <typename T> static auto make_unique() { return std::make_unique<T>(); }
    template <typename T, typename... A> static sp<T> make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static sp<T> make_ow() { return std::shared_ptr<T>(new T); }
    template <typename T, typename... A> static sp<T> alloc(ArenaLog* l, A&&... a) {
        return std::allocate_shared<T>(ArenaAlloc<T>(l), std::forward<A>(a)...);
    }
    template <typename T, typename U> static sp<T> alloc_uptr(ArenaLog* l, U&& u) {
        auto d = u.get_deleter();
        return sp<T>(u.release(), d, ArenaAlloc<char>(l));
    }
    template <typename X, typename Y> static bool same_owner(const X& x, const Y& y) { return xstd::same_owner(x, y); }
    template <typename X> static bool no_owner(const X& x) { return xstd::no_owner(x); }
    template <typename S, typename T> static auto make_aliased(const S& s, T* p) { return xstd::make_aliased(s, p); }
    template <typename T, typename S> static auto static_cast_(const S& s) { return std::static_pointer_cast<T>(s); }
    template <typename T, typename S> static auto dynamic_cast_(const S& s) { return std::dynamic_pointer_cast<T>(s); }
    template <typename T, typename S> static auto const_cast_(const S& s) { return std::const_pointer_cast<T>(s); }
    template <typename T, typename S> static auto reinterpret_cast_(const S& s) { return std::reinterpret_pointer_cast<T>(s); }
};

} // namespace hv
