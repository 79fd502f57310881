// Conversions and casts of shared, weak and unique pointers over a type lattice with multiple and virtual
// bases, checked against the same conversions of the raw pointers. -DPOLICY=...
#include "heapmon.hpp"
#include "policies.hpp"
using namespace hv;
using P = POLICY;

static char ctx[400];
[[noreturn]] static void fail(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* key, const char* f, ...) {
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    out.violation(key, "%s: %s", ctx, b);
}

static char trace[4000];
static size_t tlen;
static void note_step() {
    size_t n = strlen(ctx);
    if (tlen + n + 3 < sizeof trace) { memcpy(trace + tlen, ctx, n); tlen += n; trace[tlen++] = ';'; trace[tlen++] = ' '; trace[tlen] = 0; }
    if (out.args.verbose) fprintf(stderr, "%s\n", ctx);
}
// ------------------------------------------------------------------ the lattice
static int cur_obj;             // object under construction
static unsigned dead_mask[64];  // destructors which ran, per object
static int dead_seq[64];
enum Bit { bB1 = 1, bB2 = 2, bNB = 4, bVB = 8, bD = 16, bV1 = 32, bV2 = 64, bX = 128, bND = 256 };
static void died(int id, unsigned bit) {
    if (id < 0 || id >= 64) fail("destroy.garbage", "a destructor ran on something which is no object");
    if (dead_mask[id] & bit) fail("destroy.twice", "destructor %x of object %d ran again", bit, id);
    dead_mask[id] |= bit;
}
struct Pad1 { char c[24]; virtual ~Pad1() = default; };
struct Pad2 { long l[3]; };
struct B1 { int id = cur_obj; int m = 0x11; B1() = default; virtual ~B1() { died(id, bB1); id = -9; } };
struct B2 { int id = cur_obj; int m = 0x22; B2() = default; virtual ~B2() { died(id, bB2); id = -9; } virtual int f() = 0; };
struct NB { int id = cur_obj; int m = 0x33; ~NB() { died(id, bNB); id = -9; } };
struct VB { int id = cur_obj; int m = 0x44; VB() = default; virtual ~VB() { died(id, bVB); id = -9; } };
struct D : B1, B2, NB { int id = cur_obj; int m = 0x55; int f() override { return 2; } ~D() { died(id, bD); id = -9; } };
struct V1 : virtual VB { int id = cur_obj; int m = 0x66; ~V1() { died(id, bV1); id = -9; } };
struct V2 : virtual VB { int id = cur_obj; int m = 0x77; ~V2() { died(id, bV2); id = -9; } virtual void g() {} };
struct X : Pad1, V1, V2, D { int id = cur_obj; int m = 0x88; ~X() { died(id, bX); id = -9; } };
struct ND : Pad2, NB { int id = cur_obj; int m = 0x99; ~ND() { died(id, bND); id = -9; } };

template <int I> struct type_of;
#define TY(i, t) template <> struct type_of<i> { using type = t; static constexpr const char* name = #t; }
TY(0, void); TY(1, const void); TY(2, B1); TY(3, B2); TY(4, NB); TY(5, VB); TY(6, D); TY(7, const D); TY(8, V1); TY(9, V2); TY(10, X); TY(11, ND);
TY(12, const B2); TY(13, int); TY(14, const volatile B1); TY(15, const NB); TY(16, const V2);
static constexpr int NT = 17;
template <int I> using T_ = typename type_of<I>::type;
static const char* tname(int i) {
    static const char* const n[] = {"void", "const void", "B1", "B2", "NB", "VB", "D", "const D", "V1", "V2", "X", "ND", "const B2", "int", "const volatile B1", "const NB", "const V2"};
    return n[i];
}
template <int I> struct ic { static constexpr int value = I; };
template <typename F, size_t... I> static void with_seq(int i, F&& f, std::index_sequence<I...>) { ((int(I) == i ? (f(ic<int(I)>{}), 0) : 0), ...); }
template <typename F> static void with(int i, F&& f) { with_seq(i, f, std::make_index_sequence<NT>{}); }

template <typename F> struct lazy { template <typename Q> using t = Q; };
template <typename A, typename B, typename = void> struct can_static : std::false_type {};
template <typename A, typename B> struct can_static<A, B, std::void_t<decltype(static_cast<B*>(std::declval<A*>()))>> : std::true_type {};
template <typename A, typename B, typename = void> struct can_dynamic : std::false_type {};
template <typename A, typename B> struct can_dynamic<A, B, std::void_t<decltype(dynamic_cast<B*>(std::declval<A*>()))>> : std::true_type {};
template <typename A, typename B, typename = void> struct can_const : std::false_type {};
template <typename A, typename B> struct can_const<A, B, std::void_t<decltype(const_cast<B*>(std::declval<A*>()))>> : std::true_type {};
template <typename A, typename B, typename = void> struct can_rein : std::false_type {};
template <typename A, typename B> struct can_rein<A, B, std::void_t<decltype(reinterpret_cast<B*>(std::declval<A*>()))>> : std::true_type {};
template <typename T> static void* vp(T* p) { return const_cast<void*>(static_cast<const volatile void*>(p)); }

template <typename T> using sp = P::sp<T>;
template <typename T> using wp = P::wp<T>;
#if defined(CONV_STD)
template <typename T, typename D> using up = std::unique_ptr<T, D>;
template <typename T> using dd = std::default_delete<T>;
#else
template <typename T, typename D> using up = xmem::unique_ptr<T, D>;
template <typename T> using dd = xmem::default_delete<T>;
#endif

// ------------------------------------------------------------------ state
struct Obj {
    bool has[NT];       // the object is a T ...
    void* at[NT];       // ... here
    unsigned full;      // destructors which have to run
    int strong, weak;
    int kind;           // how it has to be disposed of: 0 plain, 1 deleter, 2 by a function
    bool deleter_ran, dying_ok, gone;
    int id;
    const void* owner;
    void* orig;
    int alive_ints;
};
static Obj objs[64];
static int nobjs;
struct Box { bool used, strong; int t; int o; void* raw; alignas(16) unsigned char mem[32]; };
static Box boxes[10];
static long n_conv, n_casts, n_dyn_fail, n_dead, n_virtual, n_unique, n_checks, n_disp, n_roundtrips, n_erased, n_locks, n_lockfail, n_failed_unique;
static uint64_t hsh;

template <int I> static sp<T_<I>>& S(Box& b) { return *reinterpret_cast<sp<T_<I>>*>(b.mem); }
template <int I> static wp<T_<I>>& W(Box& b) { return *reinterpret_cast<wp<T_<I>>*>(b.mem); }

static int expect_dead = -1;    // object which the current operation has to dispose of
static void settle(const char* what) {
    for (int i = 0; i < nobjs; ++i) {
        Obj& o = objs[i];
        if (o.gone) continue;
        if (o.strong == 0) {
            if (o.kind && !o.deleter_ran) fail("destroy.missing", "%s: object %d not given to its deleter", what, i);
            if (dead_mask[i] != o.full) fail("conv.dispose", "%s: object %d disposed of as something else (destructors %x, must be %x)", what, i, dead_mask[i], o.full);
            o.gone = true;
            ++n_disp;
        }
        else {
            if (dead_mask[i] || o.deleter_ran) fail("destroy.early", "%s: object %d disposed of, it has %d owners", what, i, o.strong);
        }
    }
}
static void on_deleter(int o, void* p) {
    if (o < 0 || o >= nobjs) fail("deleter.garbage", "garbage deleter called");
    if (objs[o].deleter_ran) fail("deleter.twice", "deleter of object %d called again", o);
    if (p != objs[o].orig) fail("deleter.pointer", "deleter of object %d got %p, must get %p", o, p, objs[o].orig);
    objs[o].deleter_ran = true;
}
template <typename K> struct Del {      // deletes through the type it was made for
    int o;
    explicit Del(int i) : o(i) {}
    template <typename Q> Del(const Del<Q>& d) : o(d.o) {}
    void operator()(K* p) const { on_deleter(o, vp(p)); delete p; }
};
struct Generic {
    int o;
    template <typename K> void operator()(K* p) const { on_deleter(o, vp(p)); delete p; }
};
template <typename B> struct BaseDel {  // deletes any derived object as a B
    int o;
    explicit BaseDel(int i) : o(i) {}
    void operator()(B* p) const { on_deleter(o, vp(p)); delete p; }
};
static int fn_obj;
template <typename B> static void fn_del(B* p) { on_deleter(p->id, vp(p)); delete p; }

template <int I> static void check_box(Box& b) {
    ++n_checks;
    Obj* o = b.o >= 0 ? &objs[b.o] : nullptr;
    long want = o ? o->strong : 0;
    if (b.strong) {
        auto& p = S<I>(b);
        if (vp(p.get()) != b.raw) fail("conv.strong", "shared_ptr<%s> stores %p, the raw pointer is %p", tname(I), vp(p.get()), b.raw);
        if (p.use_count() != want) fail("strong.count", "use_count %ld, %ld owners", p.use_count(), want);
        if (P::no_owner(p) != (b.o < 0)) fail("strong.no_owner", "shared_ptr<%s>", tname(I));
        if constexpr (!std::is_void_v<T_<I>> && !std::is_volatile_v<T_<I>>) {
            if (p && o && !o->gone && o->has[I] && o->at[I] == b.raw) {
                if constexpr (std::is_class_v<T_<I>>) { if (p->id != b.o) fail("conv.strong", "shared_ptr<%s> refers to something else", tname(I)); }
            }
        }
#if !defined(CONV_STD)
        if (o && p.owner() != o->owner) fail("strong.owner", "another owner");
#endif
    }
    else {
        auto& p = W<I>(b);
        if (p.use_count() != want || p.expired() != (want == 0)) fail("weak.count", "use_count %ld, %ld owners", p.use_count(), want);
        if (P::no_owner(p) != (b.o < 0)) fail("weak.no_owner", "weak_ptr<%s>", tname(I));
#if !defined(CONV_STD)
        if (o && p.owner() != o->owner) fail("weak.owner", "another owner");
#endif
        auto l = p.lock();
        if (want) {
            ++n_locks;
            if (vp(l.get()) != b.raw) fail("conv.weak", "locked weak_ptr<%s> gives %p, the raw pointer is %p", tname(I), vp(l.get()), b.raw);
            if (l.use_count() != want + 1) fail("strong.count", "use_count %ld after lock, %ld owners", l.use_count(), want + 1);
        }
        else {
            ++n_lockfail;
            if (l || l.use_count() || !P::no_owner(l)) fail("weak.lock", "lock of an expired weak_ptr<%s> is not empty", tname(I));
        }
    }
}
static void check_all() {
    for (auto& b : boxes) if (b.used) with(b.t, [&](auto t) { check_box<decltype(t)::value>(b); });
}
static void drop(Box& b) {
    if (!b.used) return;
    b.used = false;
    if (b.o >= 0) --(b.strong ? objs[b.o].strong : objs[b.o].weak);
    with(b.t, [&](auto t) {
        constexpr int I = decltype(t)::value;
        using SP = sp<T_<I>>;
        using WP = wp<T_<I>>;
        if (b.strong) S<I>(b).~SP();
        else W<I>(b).~WP();
    });
}
static void take(Box& b, bool strong, int t, int o, void* raw) {
    b.used = true; b.strong = strong; b.t = t; b.o = o; b.raw = raw;
    if (o >= 0) ++(strong ? objs[o].strong : objs[o].weak);
}

// is the raw pointer of a box to a T a pointer to such an object, so that it may be cast down to U?
static bool down_ok(const Obj& o, int t, int u, void* raw) {
    if (!raw) return true;
    if (!o.has[u]) return false;
    if (t <= 1) return o.at[u] == raw;
    return o.has[t] && o.at[t] == raw;
}
// may the raw pointer be read as a T (conversions to virtual bases, dynamic casts)?
static bool readable(const Box& b) {
    if (!b.raw) return true;
    if (b.o < 0) return false;
    const Obj& o = objs[b.o];
    return o.strong > 0 && o.has[b.t] && o.at[b.t] == b.raw;
}

// ------------------------------------------------------------------ creation
static constexpr int kinds[] = {2, 6, 7, 8, 10, 11, 13, 5, 9};
static constexpr bool creatable(int k) { for (int x : kinds) if (x == k) return true; return false; }
template <int K> static unsigned full_mask() {
    using T = std::remove_cv_t<T_<K>>;
    if constexpr (std::is_same_v<T, B1>) return bB1;
    else if constexpr (std::is_same_v<T, D>) return bB1 | bB2 | bNB | bD;
    else if constexpr (std::is_same_v<T, V1>) return bVB | bV1;
    else if constexpr (std::is_same_v<T, V2>) return bVB | bV2;
    else if constexpr (std::is_same_v<T, VB>) return bVB;
    else if constexpr (std::is_same_v<T, X>) return bVB | bV1 | bV2 | bX | bB1 | bB2 | bNB | bD;
    else if constexpr (std::is_same_v<T, ND>) return bNB | bND;
    else return 0;
}
template <int K, size_t... I> static void map_obj(Obj& o, T_<K>* p, std::index_sequence<I...>) {
    ((o.has[I] = std::is_convertible_v<std::remove_cv_t<T_<K>>*, T_<int(I)>*> && I > 1,
      o.at[I] = [&]() -> void* { if constexpr (std::is_convertible_v<std::remove_cv_t<T_<K>>*, T_<int(I)>*>) { T_<int(I)>* q = const_cast<std::remove_cv_t<T_<K>>*>(p); return vp(q); } else return nullptr; }()), ...);
    if constexpr (K != 13) { o.has[13] = true; o.at[13] = const_cast<int*>(&static_cast<std::conditional_t<K == 13, B1, std::remove_cv_t<T_<K>>>*>(const_cast<std::remove_cv_t<T_<K>>*>(p))->m); }
}
static int new_obj() {
    int o = nobjs++;
    objs[o] = Obj{};
    objs[o].id = o;
    dead_mask[o] = 0;
    cur_obj = o;
    return o;
}
template <int K> static T_<K>* mk() {
    if constexpr (K == 13) return new int(cur_obj);
    else return new T_<K>();
}
template <int U> static void created(Box& b, sp<T_<U>>&& p, int o, void* raw) {
    new (b.mem) sp<T_<U>>(std::move(p));
    take(b, true, U, o, raw);
#if !defined(CONV_STD)
    objs[o].owner = S<U>(b).owner();
    if (!objs[o].owner) fail("strong.owner", "a pointer which owns an object reports no owner");
#endif
}
static constexpr bool vdtor(int t) { return t == 2 || t == 3 || t == 5 || t == 6 || t == 7 || t == 8 || t == 9 || t == 10 || t == 12 || t == 16; }

// creation of a K, held as some U it converts to
template <int K, int U> static void create_as(Box& b, Rng& r) {
    using TK = T_<K>;
    using TU = T_<U>;
    if constexpr (std::is_convertible_v<TK*, TU*> && !std::is_volatile_v<TU>) {
        int o = new_obj();
        Obj& O = objs[o];
        O.full = full_mask<K>();
        uint32_t how = r.below(13);
        snprintf(ctx, sizeof ctx, "creation %u of %s as %s", how, tname(K), tname(U));
        auto set = [&](TK* p) { map_obj<K>(O, p, std::make_index_sequence<NT>{}); O.orig = vp(p); TU* u = p; return vp(u); };
        switch (how) {
        case 0: { TK* p = mk<K>(); void* w = set(p); created<U>(b, sp<TU>(p), o, w); break; }
        case 1: { TK* p = mk<K>(); void* w = set(p); O.kind = 1; created<U>(b, sp<TU>(p, Del<TK>(o)), o, w); break; }
        case 2: { TK* p = mk<K>(); void* w = set(p); O.kind = 1; created<U>(b, sp<TU>(p, Generic{o}), o, w); break; }
        case 3: {
            auto m = P::template make<TK>();
            void* w = set(m.get());
            if constexpr (K == 13) *m = o;
            created<U>(b, std::move(m), o, w);
            break;
        }
        case 4: { TK* p = mk<K>(); void* w = set(p); up<TK, dd<TK>> u(p); sp<TU> s(std::move(u)); if (u) fail("unique.moved", "not empty"); created<U>(b, std::move(s), o, w); break; }
        case 5: { TK* p = mk<K>(); void* w = set(p); sp<TU> s; s.reset(p); created<U>(b, std::move(s), o, w); break; }
        case 6: { TK* p = mk<K>(); void* w = set(p); O.kind = 1; sp<TU> s; s.reset(p, Del<TK>(o)); created<U>(b, std::move(s), o, w); break; }
        case 7: {   // a unique pointer which is converted first
            if constexpr (vdtor(U) && vdtor(K)) {
                TK* p = mk<K>();
                void* w = set(p);
                up<TK, dd<TK>> u(p);
                up<TU, dd<TU>> v(std::move(u));
                ++n_unique;
                if (u || vp(v.get()) != w) fail("conv.unique", "unique_ptr<%s> from unique_ptr<%s> stores %p, the raw pointer is %p", tname(U), tname(K), vp(v.get()), w);
                created<U>(b, sp<TU>(std::move(v)), o, w);
            }
            else { sp<TU> s(nullptr); TK* p = mk<K>(); void* w = set(p); s = up<TK, dd<TK>>(p); created<U>(b, std::move(s), o, w); }
            break;
        }
        case 8: {
            TK* p = mk<K>();
            void* w = set(p);
            if constexpr (vdtor(U) && vdtor(K)) {
                up<TK, dd<TK>> u(p);
                up<TU, dd<TU>> v;
                v = std::move(u);
                ++n_unique;
                if (u || vp(v.get()) != w) fail("conv.unique", "unique_ptr<%s> assigned from unique_ptr<%s>", tname(U), tname(K));
                created<U>(b, sp<TU>(std::move(v)), o, w);
            }
            else created<U>(b, sp<TU>(up<TK, dd<TK>>(p)), o, w);
            break;
        }
        case 9: {   // a deleter for the base, converted along
            TK* p = mk<K>();
            void* w = set(p);
            O.kind = 1;
            if constexpr (vdtor(U) && vdtor(K) && !std::is_const_v<TU>) {
                O.orig = w;
                up<TK, BaseDel<TU>> u(p, BaseDel<TU>(o));
                up<TU, BaseDel<TU>> v(std::move(u));
                ++n_unique;
                if (u || vp(v.get()) != w) fail("conv.unique", "unique_ptr<%s> from unique_ptr<%s> with a deleter", tname(U), tname(K));
                created<U>(b, sp<TU>(std::move(v)), o, w);
            }
            else created<U>(b, sp<TU>(up<TK, Del<TK>>(p, Del<TK>(o))), o, w);
            break;
        }
        case 10: {  // a function for the base
            TK* p = mk<K>();
            void* w = set(p);
            if constexpr (vdtor(U) && vdtor(K) && !std::is_const_v<TU> && !std::is_const_v<TK>) {
                O.kind = 1;
                O.orig = w;
                up<TK, void (*)(TU*)> u(p, fn_del<TU>);
#if defined(CONV_STD)
                up<TU, void (*)(TU*)> v(std::move(u));
#else
                up<TU, void (*)(TU*)> v(std::move(u));
#endif
                ++n_unique;
                if (u || vp(v.get()) != w) fail("conv.unique", "unique_ptr<%s> from unique_ptr<%s> with a function", tname(U), tname(K));
                created<U>(b, sp<TU>(std::move(v)), o, w);
            }
            else created<U>(b, sp<TU>(p), o, w);
            break;
        }
        case 11: {  // already as a pointer to the (perhaps abstract) base
            TK* p = mk<K>();
            void* w = set(p);
            if constexpr (vdtor(U) && vdtor(K)) {
                TU* u = p;
                sp<TU> s;
                if (o & 1) s.reset(u);
                else s = sp<TU>(u);
                created<U>(b, std::move(s), o, w);
            }
            else created<U>(b, sp<TU>(p), o, w);
            break;
        }
        default: {
            TK* p = mk<K>();
            void* w = set(p);
            sp<TK> s(p);
            sp<TU> t;
            t = std::move(s);
            created<U>(b, std::move(t), o, w);
        }
        }
        hsh = mix(hsh ^ (how * 400 + K * 20 + U));
        if (U <= 1) ++n_erased;
        if (std::is_same_v<TU, VB> && K != 5) ++n_virtual;
        check_all();
        settle("creation");
    }
}

// ------------------------------------------------------------------ operations
static Box* free_box() { for (auto& b : boxes) if (!b.used) return &b; return nullptr; }
static Box* any(Rng& r, bool strong, int t = -1) {
    Box* c[10];
    uint32_t n = 0;
    for (auto& b : boxes) if (b.used && b.strong == strong && (t < 0 || b.t == t)) c[n++] = &b;
    return n ? c[r.below(n)] : nullptr;
}
template <int A, int U> static constexpr bool to_virtual() {
    using F = std::remove_cv_t<T_<A>>;
    return std::is_same_v<std::remove_cv_t<T_<U>>, VB> && (std::is_same_v<F, V1> || std::is_same_v<F, V2> || std::is_same_v<F, X>);
}
// implicit conversion of box a to a U, into b (which is free, or holds a pointer to U of the same strength)
template <int A, int U> static bool implicit(Box& a, Box* b, bool strong, uint32_t how, Rng&) {
    using TA = T_<A>;
    using TU = T_<U>;
    if constexpr (std::is_convertible_v<TA*, TU*>) {
        bool dead = a.o >= 0 && objs[a.o].strong == 0;
        // converting to a virtual base reads the object: the raw pointer has to refer to one
        if (to_virtual<A, U>() && !dead && !readable(a)) return false;
        void* w;
        if (to_virtual<A, U>() && dead) { w = nullptr; ++n_dead; }
        else { TA* pa = static_cast<TA*>(a.raw); TU* pu = pa; w = vp(pu); }
        if (dead) ++n_dead;
        if (to_virtual<A, U>()) ++n_virtual;
        if (U <= 1) ++n_erased;
        bool move = how & 1, assign = how & 2;
        if (!strong && a.strong) move = false;
        if (assign && (!b->used || b == &a)) return false;
        if (!assign && b->used) return false;
        if (!strong && !a.strong && A == U) move = move && true;
        snprintf(ctx, sizeof ctx, "%s %s of %s<%s> to %s<%s>%s", move ? "move" : "copy", assign ? "assignment" : "construction", a.strong ? "shared" : "weak", tname(A),
            strong ? "shared" : "weak", tname(U), dead ? " (expired)" : "");
        hsh = mix(hsh ^ (how + 4 * strong + 8 * a.strong + 16 * unsigned(A) + 512 * unsigned(U) + 16384 * dead));
        int o = a.o;
        int bo = assign ? b->o : -1;
        if (assign && bo >= 0) --(strong ? objs[bo].strong : objs[bo].weak);
        take(*b, strong, U, o, w);
        if (strong) {
            auto& src = S<A>(a);
            if (move) { if (o >= 0) --objs[o].strong; a.o = -1; a.raw = nullptr; }
            if (assign) { if (move) S<U>(*b) = std::move(src); else S<U>(*b) = src; }
            else { if (move) new (b->mem) sp<TU>(std::move(src)); else new (b->mem) sp<TU>(src); }
        }
        else if (a.strong) {
            auto& src = S<A>(a);
            if (assign) W<U>(*b) = src;
            else new (b->mem) wp<TU>(src);
        }
        else {
            auto& src = W<A>(a);
            if (move) { if (o >= 0) --objs[o].weak; a.o = -1; a.raw = nullptr; }
            if (assign) { if (move) W<U>(*b) = std::move(src); else W<U>(*b) = src; }
            else { if (move) new (b->mem) wp<TU>(std::move(src)); else new (b->mem) wp<TU>(src); }
        }
        ++n_conv;
        return true;
    }
    else return false;
}
template <int A, int U> static bool cast(Box& a, Box& b, uint32_t how) {
    using TA = T_<A>;
    using TU = T_<U>;
    auto& src = S<A>(a);
    TA* ra = static_cast<TA*>(a.raw);
#if defined(CONV_STD)
    if (a.o < 0 && a.raw) return false;
#endif
    auto put = [&](auto&& res, int o, void* w) {
        if (o < 0) w = nullptr;     // no owner: the cast gives an empty pointer
        new (b.mem) sp<TU>(std::move(res));
        take(b, true, U, o, w);
        ++n_casts;
        hsh = mix(hsh ^ (77 + how + 16 * unsigned(A) + 512 * unsigned(U)));
    };
    snprintf(ctx, sizeof ctx, "cast %u of shared<%s> to shared<%s>", how, tname(A), tname(U));
    switch (how) {
    case 0:
        if constexpr (can_static<TA, TU>::value) {
            if (!std::is_convertible_v<TA*, TU*>) {
                if (a.o < 0 ? a.raw != nullptr : !down_ok(objs[a.o], A, U, a.raw)) return false;
            }
            else if (to_virtual<A, U>() && !readable(a)) return false;
            TU* w = static_cast<TU*>(ra);
            put(P::template static_cast_<TU>(src), a.o, vp(w));
            return true;
        }
        break;
    case 1:
        if constexpr (can_dynamic<TA, TU>::value) {
            if (!readable(a)) return false;
            TU* w = dynamic_cast<TU*>(ra);
            if (!w) ++n_dyn_fail;
            put(P::template dynamic_cast_<TU>(src), w ? a.o : -1, vp(w));
            return true;
        }
        break;
    case 2:
        if constexpr (can_const<TA, TU>::value) {
            put(P::template const_cast_<TU>(src), a.o, a.raw);
            return true;
        }
        break;
    default:
        if constexpr (can_rein<TA, TU>::value && can_rein<TU, TA>::value) {
            // there and back again
            ++n_roundtrips;
            auto mid = P::template reinterpret_cast_<TU>(src);
            void* w = a.o < 0 ? nullptr : a.raw;
            if (vp(mid.get()) != w) fail("conv.cast", "reinterpret cast gives %p instead of %p", vp(mid.get()), w);
            if (!P::same_owner(mid, src)) fail("conv.cast", "reinterpret cast changes the owner");
            if (a.o >= 0 && mid.use_count() != objs[a.o].strong + 1) fail("strong.count", "use_count %ld", mid.use_count());
            auto back = P::template reinterpret_cast_<TA>(mid);
            if (vp(back.get()) != w || !P::same_owner(back, src)) fail("conv.cast", "reinterpret cast and back");
            return true;
        }
        break;
    }
    return false;
}

static void run_case(Rng& r) {
    nobjs = 0;
    hsh = 1;
    tlen = 0;
    trace[0] = ctx[0] = 0;
    for (auto& b : boxes) b.used = false;
    int ops = 30 + int(r.below(60));
    for (int i = 0; i < ops; ++i) {
        uint32_t k = r.below(20);
        int used = 0;
        for (auto& x : boxes) used += x.used;
        if (used >= 9 && r.chance(2, 3)) k = 19;
        if (used <= 2 && r.chance(1, 2)) k = 0;
        Box* b = free_box();
        if (k == 0 || (i == 0 && b)) {
            if (!b || nobjs >= 60) continue;
            int kk = kinds[r.below(sizeof kinds / sizeof *kinds)];
            uint32_t uu = r.chance(1, 3) ? uint32_t(kk) : r.below(NT);
            int n0 = nobjs;
            with(kk, [&](auto K) { with(int(uu), [&](auto U) { if constexpr (creatable(decltype(K)::value)) create_as<decltype(K)::value, decltype(U)::value>(*b, r); }); });
            if (nobjs == n0) continue;
        }
        else if (k < 10) {
            bool strong = r.chance(1, 2);
            bool from_strong = strong || r.chance(1, 3);
            Box* a = any(r, from_strong);
            if (!a) continue;
            uint32_t how = r.below(4);
            if (!strong && !from_strong) for (int t = 0; t < 4 && !(a->o >= 0 && !objs[a->o].strong); ++t) a = any(r, false);
            // prefer real conversions
            int u = a->t;
            for (int t = 0; t < 14; ++t) {
                u = int(r.below(NT));
                bool ok = false;
                with(a->t, [&](auto A) { with(u, [&](auto U) { ok = std::is_convertible_v<T_<decltype(A)::value>*, T_<decltype(U)::value>*>; }); });
                if (ok && (u != a->t || r.chance(1, 4))) break;
            }
            Box* t = how & 2 ? any(r, strong, u) : b;
            if (!t) { t = b; how &= 1; }
            if (!t) continue;
            with(a->t, [&](auto A) { with(u, [&](auto U) { implicit<decltype(A)::value, decltype(U)::value>(*a, t, strong, how, r); }); });
        }
        else if (k < 14) {
            if (!b) continue;
            Box* a = any(r, true);
            if (!a) continue;
            for (int t = 0; t < 24; ++t) {
                int u = int(r.below(NT));
                bool ok = false;
                uint32_t how = r.below(7);
                if (how > 3) how = how == 4 ? 0 : 1;
                with(a->t, [&](auto A) { with(u, [&](auto U) { ok = cast<decltype(A)::value, decltype(U)::value>(*a, *b, how); }); });
                if (ok) break;
            }
        }
        else if (k == 14) {
            // lock or alias
            if (!b) continue;
            if (r.chance(1, 2)) {
                Box* w = any(r, false);
                if (!w) continue;
                with(w->t, [&](auto A) {
                    constexpr int I = decltype(A)::value;
                    snprintf(ctx, sizeof ctx, "lock of weak<%s>", tname(I));
                    bool live = w->o >= 0 && objs[w->o].strong > 0;
                    new (b->mem) sp<T_<I>>(W<I>(*w).lock());
                    take(*b, true, I, live ? w->o : -1, live ? w->raw : nullptr);
                });
            }
            else {
                Box* a = any(r, true);
                if (!a || a->o < 0) continue;
                int u = int(r.below(NT));
                Obj& o = objs[a->o];
                bool null = r.chance(1, 10);
                if (!null && !o.has[u]) continue;
                with(a->t, [&](auto A) { with(u, [&](auto U) {
                    constexpr int I = decltype(A)::value, J = decltype(U)::value;
                    snprintf(ctx, sizeof ctx, "alias of shared<%s> as %s", tname(I), tname(J));
                    T_<J>* ap = null ? nullptr : static_cast<T_<J>*>(o.at[J]);
                    if (r.chance(1, 2)) new (b->mem) sp<T_<J>>(S<I>(*a), ap);
                    else new (b->mem) sp<T_<J>>(P::make_aliased(S<I>(*a), ap));
                    take(*b, true, J, a->o, vp(ap));
                }); });
            }
        }
        else {
            Box* a = any(r, r.chance(4, 5));
            if (!a) continue;
            snprintf(ctx, sizeof ctx, "release of %s<%s>", a->strong ? "shared" : "weak", tname(a->t));
            drop(*a);
        }
        note_step();
        settle(ctx);
        check_all();
    }
    for (int i = 9; i >= 0; --i) { snprintf(ctx, sizeof ctx, "final release"); drop(boxes[i]); settle("final release"); check_all(); }
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("implicit_conversions", n_conv);
        out.stat("pointer_casts", n_casts);
        out.stat("failed_dynamic_casts", n_dyn_fail);
        out.stat("reinterpret_round_trips", n_roundtrips);
        out.stat("conversions_of_expired_weak", n_dead);
        out.stat("conversions_to_virtual_bases", n_virtual);
        out.stat("unique_conversions", n_unique);
        out.stat("erasures_to_void", n_erased);
        out.stat("pointer_state_checks", n_checks);
        out.stat("disposals_observed", n_disp);
        out.stat("locks_successful", n_locks);
        out.stat("locks_failed", n_lockfail);
    };
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        hm::fill = static_cast<unsigned char>(1 + r.below(254));
        long h0 = hm::live;
        run_case(r);
        if (hm::live != h0) { strcpy(ctx, "conversions"); fail("leak", "%ld blocks left", hm::live - h0); }
        if (n_disp) out.hash(hsh);
        if (out.want_sample()) { trace[700] = 0; out.sample(trace); }
        out.stat("cases");
    });
    return 0;
}
