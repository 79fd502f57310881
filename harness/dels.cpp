// Deleters of all kinds: move-only, stateful, overloaded, over-aligned, callable in odd ways, owning other things.
// Each object must be handed once, with the pointer it was created with, to the deleter which came with it, alive and intact.
#include "heapmon.hpp"
#include "policies.hpp"
#include <functional>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
using namespace hv;

static char ctx[300];
#define FAIL(key, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); out.violation(key, "%s: %s", ctx, b_); } while (0)
static long n_calls, n_ways, n_instances, n_unique, n_shared, n_arrays, n_kinds[64];

// ------------------------------------------------------------------ objects
struct Base {
    long a = 1;
    int id;
    explicit Base(int i) : id(i) {}
    virtual ~Base();
};
struct Pad { long pad[2] = {}; virtual ~Pad() = default; };
struct Derived : Pad, Base { using Base::Base; };

// what is to happen and what happened
struct Rec { void* raw; Base* base; int cookie; int type; int called; int destroyed; };
static Rec rec[64];
static int nrec;
static bool in_call;
Base::~Base() {
    Rec& r = rec[id];
    if (r.destroyed++) FAIL("destroy.twice", "object %d destroyed twice", id);
    if (r.called != 1) FAIL("destroy.unexpected", "object %d destroyed after %d calls of its deleter", id, r.called);
}
static void expect_calls(int n, const char* when) {
    int c = 0;
    for (int i = 0; i < nrec; ++i) c += rec[i].called;
    if (c != n) FAIL(c < n ? "destroy.missing" : "destroy.early", "%d objects disposed of %s, must be %d", c, when, n);
}
enum { T_BASE, T_DERIVED, T_VOID, T_ARRAY };
// called by every deleter
static Rec& called(void* p, int cookie, int type, const char* who) {
    ++n_calls;
    if (!p) FAIL("deleter.null", "%s called with null", who);
    if (in_call) FAIL("deleter.unexpected", "%s called within a deleter", who);
    // the newest object first: memory of disposed objects may have been used again
    for (int i = nrec; i--; ) {
        Rec& r = rec[i];
        void* want = type == T_BASE ? static_cast<void*>(r.base) : r.raw;
        if (want != p) continue;
        if (r.called++) FAIL("deleter.twice", "%s called twice for object %d", who, i);
        if (r.cookie != cookie) FAIL("deleter.wrong", "object %d disposed of by the deleter of object %d (%s)", i, cookie, who);
        if (r.type != type) FAIL("deleter.type", "%s called with a pointer of another type (%d) than the object was created with (%d)", who, type, r.type);
        return r;
    }
    FAIL("deleter.pointer", "%s called with %p, which is no object", who, p);
    abort();
}

// ------------------------------------------------------------------ lives of the deleters
struct Life {
    static long live;
    const Life* self;
    Life() : self(this) { ++live; ++n_instances; }
    Life(const Life& o) : self(this) { o.chk(); ++live; ++n_instances; }
    Life(Life&& o) noexcept : self(this) { o.chk(); ++live; ++n_instances; }
    Life& operator=(const Life& o) { o.chk(); chk(); return *this; }
    ~Life() { chk(); self = nullptr; --live; }
    void chk() const { if (self != this) FAIL("deleter.garbage", "a deleter is used which does not exist (any more)"); }
};
long Life::live;

struct MoveOnly : Life {            // knows when it was moved from
    static constexpr const char* name = "move-only";
    std::unique_ptr<int> c;
    explicit MoveOnly(int i) : c(new int(i)) {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    template <typename T> void operator()(T* p) { chk(); if (!c) FAIL("deleter.state", "%s: its state is gone", name); called(p, *c, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name); delete p; }
};
struct Content : Life {             // copied or moved with its content
    static constexpr const char* name = "with a string";
    std::string s;
    explicit Content(int i) : s("the deleter of the object with number " + std::to_string(i)) {}
    template <typename T> void operator()(T* p) const {
        chk();
        if (s.compare(0, 38, "the deleter of the object with number ")) FAIL("deleter.state", "%s: its state is gone", name);
        called(p, atoi(s.c_str() + 38), std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name);
        delete p;
    }
};
struct Mutable : Life {             // only callable when not const, counts its calls
    static constexpr const char* name = "callable when not const";
    int i, n = 0;
    explicit Mutable(int i) : i(i) {}
    void operator()(Base* p) { chk(); ++n; called(p, i, T_BASE, name); delete p; }
    void operator()(Derived* p) { chk(); ++n; called(p, i, T_DERIVED, name); delete p; }
    void operator()(Base*) const { FAIL("deleter.wrong", "the const overload is called"); }
    void operator()(Derived*) const { FAIL("deleter.wrong", "the const overload is called"); }
};
struct LvalueOnly : Life {          // tells lvalues from rvalues
    static constexpr const char* name = "callable as an lvalue";
    int i;
    explicit LvalueOnly(int i) : i(i) {}
    void operator()(Base* p) & { chk(); called(p, i, T_BASE, name); delete p; }
    void operator()(Derived* p) & { chk(); called(p, i, T_DERIVED, name); delete p; }
    void operator()(Base*) && { FAIL("deleter.wrong", "called as an rvalue"); }
    void operator()(Derived*) && { FAIL("deleter.wrong", "called as an rvalue"); }
};
struct Overloaded : Life {
    static constexpr const char* name = "overloaded";
    int i;
    explicit Overloaded(int i) : i(i) {}
    int operator()(Base* p) const { chk(); called(p, i, T_BASE, name); delete p; return 5; }
    bool operator()(Derived* p) const { chk(); called(p, i, T_DERIVED, name); delete p; return false; }
    void operator()(void* p) const { called(p, i, T_VOID, name); }
    void operator()(const void* p) const { called(const_cast<void*>(p), i, T_VOID, name); }
};
struct alignas(64) Aligned : Life {
    static constexpr const char* name = "over-aligned";
    int i;
    char fill[50];
    explicit Aligned(int i) : i(i) { memset(fill, i + 1, sizeof fill); }
    template <typename T> void operator()(T* p) const {
        chk();
        if (reinterpret_cast<uintptr_t>(this) % 64) FAIL("alloc.align", "deleter at %p, which is not aligned to 64", (const void*)this);
        for (char c : fill) if (c != char(i + 1)) FAIL("deleter.state", "%s: its state is gone", name);
        called(p, i, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name);
        delete p;
    }
};
struct Big : Life {
    static constexpr const char* name = "big";
    int v[200];
    explicit Big(int i) { for (int k = 0; k < 200; ++k) v[k] = i * 1000 + k; }
    template <typename T> void operator()(T* p) const {
        chk();
        for (int k = 0; k < 200; ++k) if (v[k] != v[0] + k) FAIL("deleter.state", "%s: its state is gone", name);
        called(p, v[0] / 1000, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name);
        delete p;
    }
};
struct Odd : Life {                 // overloads what should not matter
    static constexpr const char* name = "with odd operators";
    int i;
    explicit Odd(int i) : i(i) {}
    Odd* operator&() const { FAIL("deleter.wrong", "its address is taken"); return nullptr; }
    explicit operator bool() const { return false; }
    template <typename X> void operator,(X&&) const { FAIL("deleter.wrong", "operator, is used"); }
    template <typename T> void operator()(T* p) const { chk(); called(p, i, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name); delete p; }
};
template <typename P> struct Owner : Life {         // keeps another object alive as long as it exists
    static constexpr const char* name = "which owns something";
    struct Thing { static long live; int cookie; explicit Thing(int c) : cookie(c) { ++live; } ~Thing() { --live; cookie = -5; } };
    typename P::template sp<Thing> t;
    explicit Owner(int i) : t(P::template make<Thing>(i)) {}
    template <typename T> void operator()(T* p) const {
        chk();
        if (!t || t.use_count() < 1) FAIL("deleter.state", "%s: it owns nothing", name);
        called(p, t->cookie, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name);
        delete p;
    }
};
template <typename P> long Owner<P>::Thing::live;
struct Weird : Life {               // the first base is not where the state is
    static constexpr const char* name = "with virtual functions";
    int i;
    explicit Weird(int i) : i(i) {}
    Weird(const Weird&) = default;
    Weird& operator=(const Weird&) = default;
    virtual ~Weird() = default;
    virtual int cookie() const { return i; }
    template <typename T> void operator()(T* p) const { chk(); called(p, cookie(), std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name); delete p; }
};
struct Empty {                      // no state
    static constexpr const char* name = "empty";
    explicit Empty(int) {}
    template <typename T> void operator()(T* p) const { called(p, -1, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name); delete p; }
};
struct ToBase : Life {              // derived pointers are converted on the call
    static constexpr const char* name = "taking a pointer to the base";
    int i;
    explicit ToBase(int i) : i(i) {}
    void operator()(Base* p) const { chk(); called(p, i, T_BASE, name); delete p; }
};
static void fn_base(Base* p) { called(p, -1, T_BASE, "function"); delete p; }
static void fn_derived(Derived* p) { called(p, -1, T_DERIVED, "function"); delete p; }
static int fn_int(Base* p) { called(p, -1, T_BASE, "function returning int"); delete p; return 3; }

// ------------------------------------------------------------------ making them
template <typename D> struct Kind {
    static constexpr const char* name = D::name;
    static D make(int i) { return D(i); }
    static int type(bool derived) { return std::is_same_v<D, ToBase> ? T_BASE : derived ? T_DERIVED : T_BASE; }
    static int cookie(int i) { return std::is_same_v<D, Empty> ? -1 : i; }
};
struct KLambda {
    static constexpr const char* name = "lambda";
    static auto make(int i) { std::string s = std::to_string(i) + " and some text which does not fit"; return [l = Life(), s](auto* p) mutable { l.chk(); called(p, atoi(s.c_str()), std::is_same_v<decltype(p), Base*> ? T_BASE : T_DERIVED, name); delete p; }; }
    static int type(bool derived) { return derived ? T_DERIVED : T_BASE; }
    static int cookie(int i) { return i; }
};
struct KFunction {
    static constexpr const char* name = "std::function";
    static std::function<void(Base*)> make(int i) { return [l = Life(), i, b = std::vector<int>(20, i)](Base* p) { l.chk(); if (b[19] != i) FAIL("deleter.state", "gone"); called(p, i, T_BASE, name); delete p; }; }
    static int type(bool) { return T_BASE; }
    static int cookie(int i) { return i; }
};
struct KFnPtr {
    static constexpr const char* name = "function pointer";
    static auto make(int) { return &fn_base; }
    static int type(bool) { return T_BASE; }
    static int cookie(int) { return -1; }
};

static Derived* new_derived(int type, int cookie) {
    int i = nrec++;
    Derived* d = new Derived(i);
    rec[i] = {d, d, cookie, type, 0, 0};
    return d;
}
static Base* new_base(int cookie) {
    int i = nrec++;
    Base* d = new Base(i);
    rec[i] = {d, d, cookie, T_BASE, 0, 0};
    return d;
}

// ------------------------------------------------------------------ shared pointers
static ArenaLog g_arena;
static int disposed() { int c = 0; for (int i = 0; i < nrec; ++i) c += rec[i].called; return c; }

template <typename P, typename K> static typename P::template sp<Base> make_shared_way(int way) {
    using B = typename P::template sp<Base>;
    using DS = typename P::template sp<Derived>;
    using V = typename P::template sp<void>;
    using D = decltype(K::make(0));
    using UD = typename P::template up<Derived, D>;
    using UB = typename P::template up<Base, D>;
    int i = nrec;
    int ck = K::cookie(i);
    int td = K::type(true);
    ++n_ways;
    switch (way) {
    case 0: return B(new_derived(td, ck), K::make(i));
    case 1: { DS d(new_derived(td, ck), K::make(i)); return d; }
    case 2: { B b; b.reset(new_derived(td, ck), K::make(i)); return b; }
    case 3: { UD u(new_derived(td, ck), K::make(i)); return B(std::move(u)); }
    case 4: { UD u(new_derived(td, ck), K::make(i)); B b; b = std::move(u); if (u) FAIL("unique.moved", "unique pointer not empty after it became shared"); return b; }
    case 5: { UB u(new_base(ck), K::make(i)); return B(std::move(u)); }
    case 6: { UD u(new_derived(td, ck), K::make(i)); return P::template alloc_uptr<Derived>(&g_arena, std::move(u)); }
    case 7: return B(new_base(ck), K::make(i));
    case 8: { Derived* d = new_derived(td, ck); V v(d, K::make(i)); return B(v, d); }
    case 9: {
        Base* b = new_base(ck);
        UB u(b, K::make(i));
        UB w(std::move(u));
        if (u || w.get() != b) FAIL("unique.moved", "a move went wrong");
        return B(std::move(w));
    }
    case 10: {      // an existing pointer is assigned: the old object goes with its own deleter
        B b(new_base(ck), K::make(i));
        int before = disposed();
        int k = nrec;
        b.reset(new_derived(td, K::cookie(k)), K::make(k));
        if (disposed() != before + 1 || !rec[i].called) FAIL("destroy.missing", "the object owned before was not disposed of");
        return b;
    }
    default: {
        DS d;
        d = UD(new_derived(td, ck), K::make(i));
        V v = d;
        d.reset();
        return P::template static_cast_<Derived>(v);
    }
    }
}
template <typename P, typename K> static void shared(Rng& r) {
    ++n_shared;
    using B = typename P::template sp<Base>;
    using W = typename P::template wp<Base>;
    snprintf(ctx, sizeof ctx, "%s pointers, deleter: %s", P::name, K::name);
    uint64_t h = 77;
    std::vector<B> own;
    std::vector<int> id;
    std::vector<W> weak;
    int n = 1 + int(r.below(5));
    for (int i = 0; i < n; ++i) {
        int way = int(r.below(12));
        snprintf(ctx, sizeof ctx, "%s pointers, deleter: %s, creation %d", P::name, K::name, way);
        h = mix(h * 31 + uint64_t(way));
        int before = disposed();
        own.push_back(make_shared_way<P, K>(way));
        if (disposed() != before + (way == 10)) FAIL("destroy.early", "an object was disposed of while it was created");
        B& b = own.back();
        id.push_back(nrec - 1);
        if (b.get() != rec[nrec - 1].base || b.use_count() != 1) FAIL("strong.get", "pointer to %p with count %ld", (void*)b.get(), b.use_count());
    }
    {   // null pointers with a deleter: it is never called, and destroyed
        B z(nullptr, K::make(33));
        B y(static_cast<Derived*>(nullptr), K::make(34));
        if (z || y) FAIL("strong.get", "not null");
        B x = z;
    }
    int done = disposed();
    int steps = int(r.below(20));
    for (int s = 0; s < steps && !own.empty(); ++s) {
        uint32_t k = r.below(8);
        h = mix(h ^ k);
        uint32_t a = r.below(uint32_t(own.size()));
        switch (k) {
        case 0: own.push_back(own[a]); id.push_back(id[a]); break;
        case 1: weak.push_back(own[a]); break;
        case 2: if (!weak.empty()) weak.erase(weak.begin() + r.below(uint32_t(weak.size()))); break;
        case 3: std::swap(own[a], own[0]); std::swap(id[a], id[0]); break;
        case 4: own[a].swap(own.back()); std::swap(id[a], id.back()); break;
        default: {
            int o = id[a];
            bool last = std::count(id.begin(), id.end(), o) == 1;
            id.erase(id.begin() + a);
            own.erase(own.begin() + a);
            done += last;
            if (rec[o].called != last) FAIL(last ? "destroy.missing" : "destroy.early", "object %d disposed of %d times, %d owners left", o, rec[o].called, int(std::count(id.begin(), id.end(), o)));
        }
        }
        expect_calls(done, "in between");
    }
    if (r.chance(1, 2)) weak.clear();
    own.clear();
    expect_calls(nrec, "at the end");
    for (auto& w : weak) if (w.lock()) FAIL("weak.expired", "not expired");
    weak.clear();
    out.hash(mix(h ^ uint64_t(P::name[0]) << 32 ^ uint64_t(K::name[0]) * 131 ^ uint64_t(strlen(K::name))));
}

// ------------------------------------------------------------------ unique pointers
template <typename K> static void unique(Rng& r) {
    ++n_unique;
    using D = decltype(K::make(0));
    using U = xmem::unique_ptr<Derived, D>;
    using UB = xmem::unique_ptr<Base, D>;
    snprintf(ctx, sizeof ctx, "unique pointers, deleter: %s", K::name);
    uint64_t h = 78;
    int td = K::type(true);
    struct S { U u; int ck; int obj; };        // deleter's cookie, object (-1: none)
    std::vector<std::unique_ptr<S>> v;
    int n = 1 + int(r.below(4));
    for (int i = 0; i < n; ++i) {
        int k = nrec;
        v.emplace_back(new S{U(new_derived(td, K::cookie(k)), K::make(k)), k, k});
    }
    int done = 0;
    int steps = int(r.below(24));
    auto make_for = [&](int ck) { return new_derived(td, K::cookie(ck)); };
    for (int s = 0; s < steps; ++s) {
        uint32_t k = r.below(11), a = r.below(uint32_t(v.size())), b = r.below(uint32_t(v.size()));
        h = mix(h * 31 + k);
        S &x = *v[a], &y = *v[b];
        switch (k) {
        case 0: if (x.obj >= 0) { x.u.reset(); x.obj = -1; ++done; } break;
        case 1: { done += x.obj >= 0; int o = nrec; x.u.reset(make_for(x.ck)); x.obj = o; break; }
        case 2: if constexpr (std::is_move_assignable_v<D>) { if (a != b && y.obj >= 0) { done += x.obj >= 0; x.u = std::move(y.u); x.obj = y.obj; x.ck = y.ck; v.erase(v.begin() + b); } } break;
        case 3: if constexpr (std::is_move_assignable_v<D>) { if (a != b) { x.u.swap(y.u); std::swap(x.obj, y.obj); std::swap(x.ck, y.ck); } } break;
        case 4: if (x.obj >= 0) { Derived* p = x.u.release(); if (x.u) FAIL("unique.released", "not empty"); x.obj = -1; x.u.get_deleter()(p); ++done; } break;
        case 5: if (x.obj >= 0) { U t(std::move(x.u)); if (x.u) FAIL("unique.moved", "not empty after a move"); v.erase(v.begin() + a); if (!t) FAIL("unique.get", "empty"); ++done; } break;
        case 6: if (x.obj >= 0) {
            if (K::type(true) == K::type(false)) {
                if constexpr (std::is_move_assignable_v<D>) if (r.chance(1, 2)) {
                    int o = nrec;
                    UB t(new_base(K::cookie(o)), K::make(o));
                    t = std::move(x.u);
                    ++done;
                    expect_calls(done, "after a converting move assignment");
                    if (x.u || t.get() != rec[x.obj].base) FAIL("unique.get", "converted to %p", (void*)t.get());
                    ++done;
                    t.reset();
                    expect_calls(done, "after reset");
                    v.erase(v.begin() + a);
                    break;
                }
                UB t(std::move(x.u));
                if (x.u || t.get() != rec[x.obj].base) FAIL("unique.get", "converted to %p", (void*)t.get());
                ++done;
                v.erase(v.begin() + a);
            }
            else {
                rec[x.obj].type = T_BASE;       // from now on
                rec[x.obj].raw = rec[x.obj].base;
                if constexpr (std::is_move_assignable_v<D>) if (r.chance(1, 2)) {
                    int o = nrec;
                    UB t(new_base(K::cookie(o)), K::make(o));
                    t = std::move(x.u);
                    ++done;
                    expect_calls(done, "after a converting move assignment");
                    if (x.u || t.get() != rec[x.obj].base) FAIL("unique.get", "converted to %p", (void*)t.get());
                    ++done;
                    t.reset();
                    expect_calls(done, "after reset");
                    v.erase(v.begin() + a);
                    break;
                }
                UB t(std::move(x.u));
                if (x.u || t.get() != rec[x.obj].base) FAIL("unique.get", "converted to %p", (void*)t.get());
                ++done;
                v.erase(v.begin() + a);
            }
            break;
        }
        case 7: if (x.obj >= 0) { x.u = nullptr; x.obj = -1; ++done; } break;
        case 8: { int o = nrec; v.emplace_back(new S{U(make_for(o), K::make(o)), o, o}); break; }
        case 9: if (x.obj >= 0) { xmem::shared_ptr<Base> s2(std::move(x.u)); if (s2.get() != rec[x.obj].base) FAIL("strong.get", "another object"); v.erase(v.begin() + a); ++done; } break;
        case 10: if (x.obj >= 0) { xmem::local_shared_ptr<void> s2; s2 = std::move(x.u); v.erase(v.begin() + a); ++done; } break;
        }
        if (v.empty()) { int o = nrec; v.emplace_back(new S{U(make_for(o), K::make(o)), o, o}); }
        if (nrec > 50) break;
        expect_calls(done, "in between");
        for (auto& z : v) if (z->u.get() != (z->obj < 0 ? nullptr : rec[z->obj].raw)) FAIL("unique.get", "another pointer");
    }
    v.clear();
    expect_calls(nrec, "at the end");
    out.hash(mix(h ^ uint64_t(K::name[0]) * 131 ^ uint64_t(strlen(K::name))));
}

// ------------------------------------------------------------------ deleters which become others
struct From : Life {
    static constexpr const char* name = "before conversion";
    std::unique_ptr<int> c;
    explicit From(int i) : c(new int(i)) {}
    From(From&&) = default;
    From& operator=(From&&) = default;
    void operator()(Derived* p) { chk(); if (!c) FAIL("deleter.state", "%s: its state is gone", name); called(p, *c, T_DERIVED, name); delete p; }
};
struct FromC : Life {
    static constexpr const char* name = "before conversion, referred to";
    std::string s;
    explicit FromC(int i) : s(std::to_string(i) + " in a string which takes memory") {}
    void operator()(Derived* p) const { chk(); if (s.empty()) FAIL("deleter.state", "%s: its state is gone", name); called(p, atoi(s.c_str()), T_DERIVED, name); delete p; }
};
struct To : Life {
    static constexpr const char* name = "after conversion";
    std::unique_ptr<int> c;
    explicit To(int i) : c(new int(i)) {}
    To(To&&) = default;
    To& operator=(To&&) = default;
    To(From&& f) : c(std::move(f.c)) { f.chk(); }
    To(FromC&& f) : c(new int(atoi(f.s.c_str()))) { f.chk(); f.s.clear(); }
    To(const FromC& f) : c(new int(atoi(f.s.c_str()))) { f.chk(); }
    template <typename T> void operator()(T* p) { chk(); if (!c) FAIL("deleter.state", "%s: its state is gone", name); called(p, *c, std::is_same_v<T, Base> ? T_BASE : T_DERIVED, name); delete p; }
};
static void become(Rng& r) {
    ++n_unique;
    snprintf(ctx, sizeof ctx, "unique pointers, deleters converted to others");
    using UT = xmem::unique_ptr<Base, To>;
    using UF = xmem::unique_ptr<Derived, From>;
    using UR = xmem::unique_ptr<Derived, FromC&>;
    using UC = xmem::unique_ptr<Derived, FromC>;
    int done = 0;
    uint64_t h = 79;
    std::vector<std::unique_ptr<UT>> v;
    std::vector<int> obj;       // -1: empty
    auto fresh = [&] { int o = nrec; v.emplace_back(new UT(new_base(o), To(o))); obj.push_back(o); };
    fresh();
    auto convert = [&](int o) { rec[o].type = T_BASE; rec[o].raw = rec[o].base; };
    FromC ref(7);
    for (int n = int(r.below(12)); n; --n) {
        uint32_t k = r.below(8), a = r.below(uint32_t(v.size()));
        h = mix(h * 31 + k);
        int o = nrec;
        switch (k) {
        case 0: fresh(); break;
        case 1: { UF u(new_derived(T_DERIVED, o), From(o)); convert(o); v.emplace_back(new UT(std::move(u))); obj.push_back(o); if (u) FAIL("unique.moved", "not empty"); break; }
        case 2: { UF u(new_derived(T_DERIVED, o), From(o)); convert(o); *v[a] = std::move(u); done += obj[a] >= 0; obj[a] = o; if (u) FAIL("unique.moved", "not empty"); break; }
        case 3: { UR u(new_derived(T_DERIVED, 7), ref); convert(o); v.emplace_back(new UT(std::move(u))); obj.push_back(o); break; }
        case 4: { UR u(new_derived(T_DERIVED, 7), ref); convert(o); *v[a] = std::move(u); done += obj[a] >= 0; obj[a] = o; break; }
        case 5: { UC u(new_derived(T_DERIVED, o), FromC(o)); convert(o); *v[a] = std::move(u); done += obj[a] >= 0; obj[a] = o; if (!u.get_deleter().s.empty()) FAIL("deleter.state", "a deleter was copied instead of moved"); break; }
        case 6: { UC u(new_derived(T_DERIVED, o), FromC(o)); convert(o); v.emplace_back(new UT(std::move(u))); obj.push_back(o); if (!u.get_deleter().s.empty()) FAIL("deleter.state", "a deleter was copied instead of moved"); break; }
        case 7: v[a]->reset(); done += obj[a] >= 0; obj[a] = -1; break;
        }
        expect_calls(done, "in between");
        if (ref.s.empty()) FAIL("deleter.state", "a deleter which is only referred to was moved from");
        for (size_t i = 0; i < v.size(); ++i) if (v[i]->get() != (obj[i] < 0 ? nullptr : rec[obj[i]].base)) FAIL("unique.get", "another pointer");
    }
    v.clear();
    expect_calls(nrec, "at the end");
    out.hash(mix(h));
}

// ------------------------------------------------------------------ deleters referred to
template <typename P, typename D> static void by_ref(Rng& r) {
    ++n_shared;
    snprintf(ctx, sizeof ctx, "%s pointers, reference to a deleter: %s", P::name, Kind<D>::name);
    D d(0), e(1);
    long inst = n_instances;
    int td = Kind<D>::type(true);
    auto mk = [&](int ck) { return new_derived(td, Kind<D>::cookie(ck)); };
    using U = typename P::template up<Derived, D&>;
    typename P::template wp<Derived> w;
    {
        U u(mk(0), d);
        U v(mk(1), e);
        if (&reinterpret_cast<char&>(u.get_deleter()) != &reinterpret_cast<char&>(d)) FAIL("unique.deleter", "not a reference to the deleter");
        uint32_t k = r.below(6);
        switch (k) {
        case 0: break;
        case 1: u.swap(v); u.reset(); expect_calls(1, "after reset"); break;
        case 2: u = std::move(v); expect_calls(1, "after move assignment"); u.reset(mk(1)); expect_calls(2, "after reset"); break;
        case 3: { typename P::template sp<Derived> s(std::move(u)); w = s; auto t = s; s.reset(); expect_calls(0, "with an owner"); t = std::move(v); expect_calls(1, "after assignment"); break; }
        case 4: { typename P::template sp<void> s(std::move(v)); s = std::move(u); expect_calls(1, "after assignment"); s.reset(); expect_calls(2, "after reset"); break; }
        case 5: { U t(std::move(v)); u.swap(t); break; }
        }
        out.hash(mix(k + 500) ^ uint64_t(Kind<D>::name[0]) * 131 ^ uint64_t(P::name[0]) << 32 ^ uint64_t(strlen(Kind<D>::name)));
    }
    expect_calls(nrec, "at the end");
    if (n_instances != inst) FAIL("unique.deleter", "a deleter which is referred to was copied");
}
template <typename P> static void functions(Rng& r) {
    snprintf(ctx, sizeof ctx, "%s pointers, functions", P::name);
    ++n_shared;
    using B = typename P::template sp<Base>;
    uint32_t k = r.below(6);
    B b;
    switch (k) {
    case 0: b = B(new_derived(T_DERIVED, -1), fn_derived); break;
    case 1: b = B(new_derived(T_BASE, -1), fn_base); break;
    case 2: b.reset(new_derived(T_DERIVED, -1), &fn_derived); break;
    case 3: { typename P::template up<Derived, void (*)(Base*)> u(new_derived(T_BASE, -1), fn_base); b = std::move(u); break; }
    case 4: { typename P::template up<Base, void (*)(Base*)> u(new_base(-1), fn_base); typename P::template up<Base, void (*)(Base*)> t(&fn_base); t = std::move(u); b = B(std::move(t)); break; }
    default: { typename P::template up<Derived, void (*)(Base*)> u(new_derived(T_BASE, -1), fn_base); typename P::template up<Base, void (*)(Base*)> t(std::move(u)); if (r.chance(1, 2)) b = std::move(t); break; }
    }
    auto c = b;
    b.reset();
    c.reset();
    expect_calls(nrec, "at the end");
    out.hash(mix(k + 900) ^ uint64_t(P::name[0]) << 32);
    (void)fn_int;
}

template <typename K> static void kind(int w, Rng& r, int no) {
    ++n_kinds[no];
    switch (w) {
    case 0: shared<PAtomic, K>(r); break;
    case 1: shared<PLocal, K>(r); break;
    case 2: shared<PTrack, K>(r); break;
    default: unique<K>(r);
    }
}
template <typename P> static void more(Rng& r) {
    switch (r.below(10)) {
    case 8: case 9: become(r); break;
    case 0: by_ref<P, MoveOnly>(r); break;
    case 1: by_ref<P, Content>(r); break;
    case 2: by_ref<P, LvalueOnly>(r); break;
    case 3: by_ref<P, Overloaded>(r); break;
    case 4: by_ref<P, Aligned>(r); break;
    case 5: by_ref<P, Odd>(r); break;
    case 6: by_ref<P, Owner<P>>(r); break;
    default: functions<P>(r); break;
    }
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("deleter_calls", n_calls);
        out.stat("ownership_creations", n_ways);
        out.stat("deleter_instances_traced", n_instances);
        out.stat("unique_pointer_rounds", n_unique);
        out.stat("shared_pointer_rounds", n_shared);
        int k = 0;
        for (long x : n_kinds) k += x > 0;
        out.stat("deleter_kinds", k);
        out.stat("heap_blocks_monitored", hm::total);
    };
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        hm::fill = static_cast<unsigned char>(1 + r.below(254));
        long h0 = hm::live;
        memset(static_cast<void*>(rec), 0, sizeof rec);
        nrec = 0;
        int w = int(r.below(5));
        if (w == 4) {
            switch (r.below(3)) { case 0: more<PAtomic>(r); break; case 1: more<PLocal>(r); break; default: more<PTrack>(r); }
        }
        else switch (c % 16) {
        case 0: kind<Kind<MoveOnly>>(w, r, 0); break;
        case 1: kind<Kind<Content>>(w, r, 1); break;
        case 2: kind<Kind<Mutable>>(w, r, 2); break;
        case 3: kind<Kind<LvalueOnly>>(w, r, 3); break;
        case 4: kind<Kind<Overloaded>>(w, r, 4); break;
        case 5: kind<Kind<Aligned>>(w, r, 5); break;
        case 6: kind<Kind<Big>>(w, r, 6); break;
        case 7: kind<Kind<Odd>>(w, r, 7); break;
        case 8: kind<Kind<Owner<PAtomic>>>(w, r, 8); break;
        case 9: kind<Kind<Owner<PLocal>>>(w, r, 9); break;
        case 10: kind<Kind<Weird>>(w, r, 10); break;
        case 11: kind<Kind<Empty>>(w, r, 11); break;
        case 12: kind<Kind<ToBase>>(w, r, 12); break;
        case 13: kind<KLambda>(w, r, 13); break;
        case 14: kind<KFunction>(w, r, 14); break;
        default: if (w < 3) kind<KFnPtr>(w, r, 15); else kind<KLambda>(w, r, 13); break;
        }
        for (int i = 0; i < nrec; ++i) if (rec[i].called != 1 || rec[i].destroyed != 1) FAIL("destroy.missing", "object %d: deleter called %d times, destroyed %d times", i, rec[i].called, rec[i].destroyed);
        if (Life::live) FAIL("leak", "%ld deleters left", Life::live);
        if (Owner<PAtomic>::Thing::live || Owner<PLocal>::Thing::live || Owner<PTrack>::Thing::live) FAIL("leak", "something a deleter owned is left");
        if (g_arena.allocs != g_arena.deallocs) FAIL("leak", "%ld blocks of the allocator left", g_arena.allocs - g_arena.deallocs);
        if (g_arena.error) FAIL("alloc.arena", "%s", g_arena.error);
        if (hm::live != h0) FAIL("leak", "%ld blocks left", hm::live - h0);
        if (g_track_error) FAIL("track.error", "%s", g_track_error);
        if (out.want_sample()) out.sample(ctx);
        out.stat("cases");
    });
    return 0;
}
