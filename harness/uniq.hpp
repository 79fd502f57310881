// Model-based engine for unique pointers: the real library runs in lockstep with a model of
// who owns what and which deleter goes with it.
#pragma once
#include "policies.hpp"
#include "common.hpp"

namespace hv {

struct LX {
    static constexpr const char* name = "xmem";
    static constexpr bool is_std = false;
    template <typename T, typename D = xmem::default_delete<T>> using up = xmem::unique_ptr<T, D>;
    template <typename T> using sp = xmem::shared_ptr<T>;
    template <typename T> using lsp = xmem::local_shared_ptr<T>;
    template <typename T, typename... A> static auto make(A&&... a) { return xmem::make_unique<T>(std::forward<A>(a)...); }
};
struct LS {
    static constexpr const char* name = "std";
    static constexpr bool is_std = true;
    template <typename T, typename D = std::default_delete<T>> using up = std::unique_ptr<T, D>;
    template <typename T> using sp = std::shared_ptr<T>;
    template <typename T> using lsp = std::shared_ptr<T>;
    template <typename T, typename... A> static auto make(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
};

template <typename L> struct UEng;
template <typename L> inline UEng<L>* ue = nullptr;

template <typename L> struct UBase;
template <typename L> struct UDer;

enum { TAG_DEFAULT = 1, TAG_FN_A = 2, TAG_FN_B = 3, TAG_ARR = 4, TAG_FIRST = 10 };

// stateful deleter; counts as "moved from" when its content was moved out
template <typename L, typename T>
struct USD {
    int tag;
    int* self;          // detects bitwise copies and use of garbage
    explicit USD(int t = 5) : tag(t), self(&tag) {}
    USD(const USD& o) : tag(o.tag), self(&tag) { o.chk(); }
    USD(USD&& o) noexcept : tag(o.tag), self(&tag) { o.chk(); }
    template <typename U> USD(const USD<L, U>& o) : tag(o.tag), self(&tag) { o.chk(); }
    template <typename U> USD(USD<L, U>&& o) noexcept : tag(o.tag), self(&tag) { o.chk(); }
    USD& operator=(const USD& o) { chk(); o.chk(); tag = o.tag; return *this; }
    USD& operator=(USD&& o) noexcept { chk(); o.chk(); tag = o.tag; return *this; }
    template <typename U> USD& operator=(const USD<L, U>& o) { chk(); o.chk(); tag = o.tag; return *this; }
    template <typename U> USD& operator=(USD<L, U>&& o) noexcept { chk(); o.chk(); tag = o.tag; return *this; }
    ~USD() { chk(); self = nullptr; }
    void chk() const { if (self != &tag) out.violation("unique.deleter", "a deleter which does not exist (any more) is used"); }
    void operator()(T* p) const {
        chk();
        ue<L>->deleter(tag, const_cast<void*>(static_cast<const void*>(static_cast<const UBase<L>*>(p))));
        delete p;
    }
};
// move-only deleter which knows when it was moved from
template <typename L>
struct UMD {
    int tag;
    explicit UMD(int t = 6) : tag(t) {}
    UMD(UMD&& o) noexcept : tag(o.tag) { if (&o != this) o.tag = -7; }
    UMD& operator=(UMD&& o) noexcept { if (&o != this) { tag = o.tag; o.tag = -7; } return *this; }
    void operator()(UBase<L>* p) const {
        ue<L>->deleter(tag, p);
        delete p;
    }
};
// array deleter
template <typename L>
struct UArr;
template <typename L>
struct UAD {
    int tag;
    explicit UAD(int t = 8) : tag(t) {}
    void operator()(UArr<L>* p) const {
        ue<L>->deleter(tag, p);
        delete[] p;
    }
};
template <typename L> void ufnA(UBase<L>* p) { ue<L>->deleter(TAG_FN_A, p); delete p; }
template <typename L> void ufnB(UBase<L>* p) { ue<L>->deleter(TAG_FN_B, p); delete p; }

// pointer types
enum UT { U_B, U_D, U_BS, U_DS, U_BR, U_DR, U_BF, U_DF, U_BM, U_AR, U_AS, NUT };
static const char* const ut_name[NUT] = {"u<B>", "u<D>", "u<B,S>", "u<D,S>", "u<B,S&>", "u<D,S&>", "u<B,fn>", "u<D,fn>", "u<B,M>", "u<E[]>", "u<E[],S>"};

template <typename L, int T> struct UTy;
#define UTYPE(n, ...) template <typename L> struct UTy<L, n> { using type = typename L::template up<__VA_ARGS__>; }
UTYPE(U_B, UBase<L>);
UTYPE(U_D, UDer<L>);
UTYPE(U_BS, UBase<L>, USD<L, UBase<L>>);
UTYPE(U_DS, UDer<L>, USD<L, UDer<L>>);
UTYPE(U_BR, UBase<L>, USD<L, UBase<L>>&);
UTYPE(U_DR, UDer<L>, USD<L, UBase<L>>&);
UTYPE(U_BF, UBase<L>, void (*)(UBase<L>*));
UTYPE(U_DF, UDer<L>, void (*)(UBase<L>*));
UTYPE(U_BM, UBase<L>, UMD<L>);
UTYPE(U_AR, UArr<L>[]);
UTYPE(U_AS, UArr<L>[], UAD<L>);

constexpr bool u_isder(int t) { return t == U_D || t == U_DS || t == U_DR || t == U_DF; }
constexpr bool u_isarr(int t) { return t == U_AR || t == U_AS; }
constexpr bool u_default(int t) { return t == U_B || t == U_D || t == U_AR; }
constexpr bool u_ref(int t) { return t == U_BR || t == U_DR; }
constexpr bool u_fn(int t) { return t == U_BF || t == U_DF; }
// converting move from -> to
constexpr bool u_conv(int from, int to) {
    return from == to || (from == U_D && to == U_B) || (from == U_DS && to == U_BS) || (from == U_DR && to == U_BR) || (from == U_DF && to == U_BF);
}

template <typename L, int T>
struct UMember {
    using type = typename UTy<L, T>::type;
    struct End {
        UMember* m;
        ~End() { ue<L>->member_end(m->slot); }
    };
    int slot;
    End end{this};
    type p;
    template <typename... A>
    explicit UMember(A&&... a) : slot(-1), p(std::forward<A>(a)...) { slot = ue<L>->member_created(T, &p); }
    ~UMember() { ue<L>->member_begin(slot); }
};

template <typename L>
struct UBase {
    int id;
    uint32_t magic = 0xbead;
    UMember<L, U_B> m0;
    UMember<L, U_BS> m1;
    UMember<L, U_BF> m2;
    UBase() : m2(nullptr, &ufnA<L>) { id = ue<L>->ctor(this); }
    UBase(const UBase&) = delete;
    virtual ~UBase() {
        ue<L>->dtor(this);
        magic = 0xdeadbead;
    }
};
struct UPad { long x = 5; virtual ~UPad() {} };
template <typename L>
struct UDer : UPad, UBase<L> {
    int y = 9;
    ~UDer() override { y = 0; }
};
template <typename L>
struct UArr {
    int id = 0;
    long pad = 3;
    UArr() { ue<L>->elem_ctor(this); }
    ~UArr() { ue<L>->elem_dtor(this); }
};

template <typename L>
struct UEng {
    using Base = UBase<L>;
    using Der = UDer<L>;
    using Arr = UArr<L>;
    template <int T> using TT = typename UTy<L, T>::type;

    static constexpr int MAXO = 400, MAXS = 1400;
    struct Obj {
        void* addr;         // Base* or Arr* (first element)
        bool alive, der, arr;
        int n, dead_elems;  // arrays
        int disposals;
        int links[3];       // member slots
        int nlinks;
    };
    struct Slot {
        void* mem;          // the unique pointer
        int ty;
        int obj;            // -1: empty
        int tag;            // of the deleter; -1: unspecified
        int owner;          // object it is a member of, or -1
        bool live;
        bool dying;
        bool shared;        // a shared pointer made of a unique one
    };
    Obj objs[MAXO];
    int nobj = 0;
    Slot slots[MAXS];
    int nslot = 0;
    struct Ev { int tag, obj; };
    Ev expect[512];
    int nexp = 0, pos = 0;
    Rng rng{1};
    char trace[5000];
    int tl = 0;
    uint64_t cov = 1;
    int constructing = -1;
    static constexpr int NST = 26, NSH = 4;
    alignas(16) unsigned char mem[NST + NSH][64];
    USD<L, Base>* refdel[3] = {};
    int nexttag = TAG_FIRST;
    // what the slot being operated on must show while its object is disposed of
    int vis_slot = -1;
    const void* vis_get = nullptr;
    bool vis_on = false;
    bool quiet = false;     // do not log (make)
    long n_ops = 0, n_disp = 0, n_checks = 0, n_vis = 0, n_selfdoom = 0, n_conv = 0, n_shared = 0, n_release = 0, n_emptydel = 0, n_arrays = 0, n_cmp = 0;
    long opc[20] = {};

    [[noreturn]] void fail(const char* key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
        char b[600];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out.violation(key, "[%s] %s | %s", L::name, b, tl > 900 ? trace + tl - 900 : trace);
    }
    void tr(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        char b[160];
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        cov = mix(cov ^ mix(strlen(b) * 131 + uint64_t(uint8_t(b[0]))));
        for (char* p = b; *p; ++p) cov = cov * 1099511628211ull ^ uint64_t(uint8_t(*p));
        if (tl + 170 > int(sizeof trace)) { memmove(trace, trace + 2000, size_t(tl - 2000)); tl -= 2000; }
        tl += snprintf(trace + tl, sizeof trace - size_t(tl), "%s; ", b);
        if (out.args.verbose) fprintf(stderr, "%s\n", b);
    }

    // ------------------------------------------------------------ events
    int ctor(Base* b) {
        int o = constructing;
        if (o < 0) fail("ctor.unexpected", "an object is constructed out of nowhere");
        constructing = -1;
        objs[o].addr = b;
        objs[o].alive = true;
        return o;
    }
    Arr* carr = nullptr;
    int carr_n = 0, carr_obj = -1;
    void elem_ctor(Arr* a) {
        if (carr_obj < 0) fail("ctor.unexpected", "an array element is constructed out of nowhere");
        if (!carr_n) objs[carr_obj].addr = a;
        a->id = carr_obj * 100 + carr_n++;
    }
    void elem_dtor(Arr* a) {
        int o = a->id / 100, i = a->id % 100;
        if (o < 0 || o >= nobj || !objs[o].arr) fail("destroy.garbage", "an array element which does not exist is destroyed");
        Obj& x = objs[o];
        if (a != static_cast<Arr*>(x.addr) + i) fail("destroy.garbage", "array element at a wrong address");
        if (x.dead_elems == 0) {
            disposal_of(o, nullptr);
            x.alive = false;
        }
        if (i != x.n - 1 - x.dead_elems) fail("unique.array", "element %d of %d destroyed as number %d", i, x.n, x.dead_elems);
        ++x.dead_elems;
    }
    int pend_tag = -1, pend_obj = -1;
    void deleter(int tag, void* p) {
        if (!p) fail("unique.null", "deleter called with null");
        int o = find(p);
        if (o < 0) fail("deleter.garbage", "deleter called with a pointer which is no object");
        if (pend_obj >= 0) fail("deleter.unexpected", "deleter called within a deleter");
        pend_tag = tag;
        pend_obj = o;
        if (objs[o].arr) {
            if (objs[o].n == 0) {   // no element will tell
                disposal_of(o, nullptr);
                objs[o].alive = false;
            }
        }
    }
    int find(void* p) {
        for (int i = nobj; i-- > 0;) if (objs[i].alive && objs[i].addr == p) return i;
        return -1;
    }
    void dtor(Base* b) {
        if (b->magic != 0xbead) fail("destroy.garbage", "destructor of something which is no object");
        int o = b->id;
        if (o < 0 || o >= nobj || objs[o].addr != b) fail("destroy.garbage", "destructor of an unknown object");
        disposal_of(o, b);
        objs[o].alive = false;
    }
    void disposal_of(int o, Base*) {
        Obj& x = objs[o];
        int tag = TAG_DEFAULT;
        if (pend_obj >= 0) {
            if (pend_obj != o) fail("deleter.pointer", "deleter with tag %d got object %d but destroys %d", pend_tag, pend_obj, o);
            tag = pend_tag;
            pend_obj = -1;
        }
        if (x.disposals++) fail("destroy.twice", "object %d disposed of again", o);
        ++n_disp;
        if (x.arr) ++n_arrays;
        if (pos >= nexp) fail("destroy.early", "object %d disposed of (deleter %d) though still owned", o, tag);
        Ev& e = expect[pos++];
        if (e.obj != o) fail("destroy.order", "object %d disposed of where %d is due", o, e.obj);
        if (e.tag != tag) fail("deleter.wrong", "object %d disposed of by deleter %d instead of the one it came with, %d", o, tag, e.tag);
        // the pointer being changed is visible to the destructor
        if (vis_on && pos == 1) {
            ++n_vis;
            const void* g = getp(vis_slot);
            if (g != vis_get) fail("unique.visible", "while object %d is disposed of the pointer %s shows %p instead of %p", o, sn(vis_slot), g, vis_get);
        }
    }
    void* pending_member = nullptr;
    int member_created(int ty, void* p) {
        int s = nslot++;
        if (s >= MAXS) { fprintf(stderr, "slots\n"); _exit(3); }
        int o = constructing;
        slots[s] = Slot{p, ty, -1, -1, o, true, false, false};
        slots[s].tag = ty == U_BF ? int(TAG_FN_A) : deftag(ty);
        if (o >= 0) objs[o].links[objs[o].nlinks++] = s;
        return s;
    }
    void member_begin(int s) { slots[s].dying = true; }
    void member_end(int s) { slots[s].live = false; }

    // the model of disposing of an object: it, then its members in reverse order
    void m_dispose(int o, int tag) {
        if (o < 0) return;
        if (nexp >= 500) { fprintf(stderr, "too many events\n"); _exit(3); }
        Obj& x = objs[o];
        if (x.arr && x.n == 0 && tag == TAG_DEFAULT) {  // nobody reports the end of an empty array
            if (x.disposals++) fail("destroy.twice", "array %d given away twice (harness)", o);
            x.alive = false;
            return;
        }
        expect[nexp++] = Ev{tag, o};
        for (int i = x.nlinks; i-- > 0;) {
            Slot& s = slots[x.links[i]];
            int c = s.obj;
            s.obj = -1;
            m_dispose(c, s.tag);
        }
    }

    // ------------------------------------------------------------ access to the real pointers
    template <typename F>
    auto with(int ty, F f) {
        switch (ty) {
#define C(n) case n: return f(std::integral_constant<int, n>{});
            C(U_B) C(U_D) C(U_BS) C(U_DS) C(U_BR) C(U_DR) C(U_BF) C(U_DF) C(U_BM) C(U_AR)
        default: return f(std::integral_constant<int, U_AS>{});
#undef C
        }
    }
    template <int T> TT<T>& P(int s) { return *static_cast<TT<T>*>(slots[s].mem); }
    typename L::template sp<Base>& SH(int s) { return *static_cast<typename L::template sp<Base>*>(slots[s].mem); }
    typename L::template lsp<void>& SHV(int s) { return *static_cast<typename L::template lsp<void>*>(slots[s].mem); }
    const char* sn(int s) {
        static char b[4][60];
        static int k = 0;
        k = (k + 1) % 4;
        if (slots[s].owner >= 0) snprintf(b[k], 60, "%s of #%d(%d)", ut_name[slots[s].ty], slots[s].owner, s);
        else snprintf(b[k], 60, "%s%d", slots[s].shared ? "shared" : ut_name[slots[s].ty], s);
        return b[k];
    }
    const void* getp(int s) {
        Slot& x = slots[s];
        if (x.shared) return x.ty == 0 ? static_cast<const void*>(SH(s).get()) : SHV(s).get();
        return with(x.ty, [&](auto t) -> const void* {
            constexpr int T = decltype(t)::value;
            if constexpr (u_isder(T)) return static_cast<Base*>(P<T>(s).get());
            else return P<T>(s).get();
        });
    }
    // the deleter of an empty pointer: as it was made or came (-1: not prescribed)
    static int deftag(int ty) { return u_default(ty) ? int(TAG_DEFAULT) : ty == U_BM ? 6 : ty == U_AS ? 8 : u_ref(ty) || u_fn(ty) ? -1 : 5; }
    int tagof(int s) {
        return with(slots[s].ty, [&](auto t) -> int {
            constexpr int T = decltype(t)::value;
            if constexpr (u_default(T)) return TAG_DEFAULT;
            else if constexpr (u_fn(T)) return P<T>(s).get_deleter() == &ufnA<L> ? TAG_FN_A : P<T>(s).get_deleter() == &ufnB<L> ? TAG_FN_B : -99;
            else return P<T>(s).get_deleter().tag;
        });
    }
    void check_all() {
        ++n_checks;
        if (pos != nexp) fail("destroy.missing", "object %d should have been disposed of (deleter %d)", expect[pos].obj, expect[pos].tag);
        if (pend_obj >= 0) fail("destroy.partial", "deleter called but object %d not destroyed", pend_obj);
        for (int s = 0; s < nslot; ++s) {
            Slot& x = slots[s];
            if (!x.live) continue;
            if (x.owner >= 0 && !objs[x.owner].alive) continue;
            const void* g = getp(s);
            const void* want = x.obj < 0 ? nullptr : objs[x.obj].addr;
            if (g != want) fail(x.obj < 0 ? "unique.empty" : "unique.get", "%s stores %p instead of %p (object %d)", sn(s), g, want, x.obj);
            if (x.shared) {
                if (x.ty == 0 && bool(SH(s)) != !!want) fail("unique.bool", "truth value");
                long uc = x.ty == 0 ? SH(s).use_count() : SHV(s).use_count();
                if (want && uc != 1) fail("unique.shared", "shared pointer made of a unique one: use count %ld", uc);
                continue;
            }
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                auto& p = P<T>(s);
                if (bool(p) != !!want) fail("unique.bool", "%s has truth value %d", sn(s), int(bool(p)));
                if (x.obj < 0 && x.tag >= 0) {
                    ++n_emptydel;
                    if (tagof(s) != x.tag) fail("unique.deleter", "%s is empty and has deleter %d instead of %d", sn(s), tagof(s), x.tag);
                }
                if (x.obj >= 0) {
                    if (tagof(s) != x.tag) fail("unique.deleter", "%s has deleter %d instead of %d", sn(s), tagof(s), x.tag);
                    if constexpr (u_isarr(T)) {
                        for (int i = 0; i < objs[x.obj].n; ++i) if (p[size_t(i)].id != x.obj * 100 + i) fail("unique.get", "array content");
                    }
                    else {
                        if ((*p).id != x.obj || p->magic != 0xbead || &*p != p.get() || p.operator->() != p.get()) fail("unique.get", "%s does not refer to object %d", sn(s), x.obj);
                    }
                }
            });
        }
        nexp = pos = 0;
    }

    // ------------------------------------------------------------ picking
    bool usable(int s) { return slots[s].live && !slots[s].dying && !slots[s].shared && (slots[s].owner < 0 || objs[slots[s].owner].alive); }
    int pick(bool members = true) {
        for (int k = 0; k < 20; ++k) {
            int s;
            if (members && rng.chance(2, 5)) {
                if (nslot <= NST + NSH) continue;
                s = NST + NSH + int(rng.below(uint32_t(nslot - NST - NSH)));
            }
            else s = int(rng.below(NST));
            if (usable(s)) return s;
        }
        return 0;
    }
    int pick_from(int to, bool same) {      // a slot which can be moved to slot `to`
        for (int k = 0; k < 60; ++k) {
            int s = pick();
            if (same ? slots[s].ty == slots[to].ty : u_conv(slots[s].ty, slots[to].ty)) return s;
        }
        return to;
    }
    // does object o own (transitively) object q?
    bool owns(int o, int q, int depth = 0) {
        if (o < 0 || depth > 60) return false;
        if (o == q) return true;
        for (int i = 0; i < objs[o].nlinks; ++i) if (owns(slots[objs[o].links[i]].obj, q, depth + 1)) return true;
        return false;
    }
    int newobj(bool der, bool arr, int n = 0) {
        int o = nobj++;
        objs[o] = Obj{nullptr, true, der, arr, n, 0, 0, {-1, -1, -1}, 0};
        return o;
    }
    // a fresh object for a pointer type
    template <int T>
    typename TT<T>::pointer fresh(int& o) {
        if constexpr (u_isarr(T)) {
            int n = int(rng.below(4));
            o = newobj(false, true, n);
            carr_obj = o;
            carr_n = 0;
            Arr* a = new Arr[size_t(n)];
            objs[o].addr = a;
            carr_obj = -1;
            return a;
        }
        else if constexpr (u_isder(T)) {
            constructing = o = newobj(true, false);
            return new Der;
        }
        else {
            bool der = rng.chance(1, 2);
            constructing = o = newobj(der, false);
            if (der) return new Der;
            return new Base;
        }
    }
    void put(int s, int o, int tag) {
        slots[s].obj = o;
        slots[s].tag = tag;
    }

    // run the real operation with what destructors must see
    template <typename F>
    void api(F f) {
        ++n_ops;
        pos = 0;
        f();
        vis_on = false;
    }
    void visible(int s, const void* g) {
        if (L::is_std) return;
        if (slots[s].owner >= 0) {
            // the pointer itself may go with what it owned
        }
        vis_on = true;
        vis_slot = s;
        vis_get = g;
    }

    // construct a new pointer in the (static, destroyed) place s
    void construct(int s, int ty, int how, int from) {
        Slot& x = slots[s];
        x.ty = ty;
        x.live = true;
        x.obj = -1;
        x.tag = -1;
        memset(x.mem, 0x5a, 64);
        with(ty, [&](auto t) {
            constexpr int T = decltype(t)::value;
            using X = TT<T>;
            int o = -1;
            if (how == 0) {         // empty
                tr("%s: empty", sn(s));
                api([&] {
                    x.tag = deftag(ty);
                    if constexpr (u_ref(T)) { auto* d = refdel[rng.below(3)]; x.tag = d->tag; new (x.mem) X(nullptr, *d); }
                    else if constexpr (u_fn(T)) { bool a = rng.chance(1, 2); x.tag = a ? TAG_FN_A : TAG_FN_B; new (x.mem) X(nullptr, a ? &ufnA<L> : &ufnB<L>); }
                    else if (rng.chance(1, 2)) new (x.mem) X();
                    else new (x.mem) X(nullptr);
                });
            }
            else if (how == 1) {    // owning
                auto p = fresh<T>(o);
                int tag = TAG_DEFAULT;
                api([&] {
                    if constexpr (u_ref(T)) { auto* d = refdel[rng.below(3)]; tag = d->tag; new (x.mem) X(p, *d); }
                    else if constexpr (u_fn(T)) { bool a = rng.chance(1, 2); tag = a ? TAG_FN_A : TAG_FN_B; new (x.mem) X(p, a ? &ufnA<L> : &ufnB<L>); }
                    else if constexpr (u_default(T)) new (x.mem) X(p);
                    else {
                        tag = nexttag++;
                        using D = typename X::deleter_type;
                        if constexpr (std::is_copy_constructible_v<D>) {
                            if (rng.chance(1, 2)) { D d(tag); new (x.mem) X(p, d); }
                            else new (x.mem) X(p, D(tag));
                        }
                        else new (x.mem) X(p, D(tag));
                    }
                });
                put(s, o, tag);
                tr("%s: owns #%d del %d", sn(s), o, tag);
            }
            else if (how == 2) {    // make
                if constexpr (T == U_B || T == U_D) {
                    constructing = o = newobj(T == U_D, false);
                    api([&] { new (x.mem) X(L::template make<std::conditional_t<T == U_D, Der, Base>>()); });
                    put(s, o, TAG_DEFAULT);
                    tr("%s: make #%d", sn(s), o);
                }
                else if constexpr (T == U_AR) {
                    int n = int(rng.below(4));
                    o = newobj(false, true, n);
                    carr_obj = o;
                    carr_n = 0;
                    api([&] { new (x.mem) X(L::template make<Arr[]>(size_t(n))); });
                    carr_obj = -1;
                    objs[o].addr = static_cast<X*>(x.mem)->get();
                    put(s, o, TAG_DEFAULT);
                    tr("%s: make array #%d of %d", sn(s), o, n);
                }
                else {
                    api([&] {
                        x.tag = deftag(ty);
                        if constexpr (u_ref(T)) { new (x.mem) X(nullptr, *refdel[0]); x.tag = refdel[0]->tag; }
                        else if constexpr (u_fn(T)) { new (x.mem) X(nullptr, &ufnA<L>); x.tag = TAG_FN_A; }
                        else new (x.mem) X();
                    });
                }
            }
            else {                  // moved
                Slot& y = slots[from];
                tr("%s: from move of %s", sn(s), sn(from));
                if (ty != y.ty) ++n_conv;
                with(y.ty, [&](auto t2) {
                    constexpr int T2 = decltype(t2)::value;
                    if constexpr (u_conv(T2, T)) api([&] { new (x.mem) X(std::move(P<T2>(from))); });
                });
                put(s, y.obj, y.tag);
                y.obj = -1;
                y.tag = u_default(y.ty) ? int(TAG_DEFAULT) : -1;
            }
        });
    }
    void destroy(int s) {
        Slot& x = slots[s];
        tr("destroy %s", sn(s));
        int o = x.obj;
        if (o >= 0) visible(s, objs[o].addr);
        m_dispose(o, x.tag);
        x.obj = -1;
        with(x.ty, [&](auto t) {
            constexpr int T = decltype(t)::value;
            using X = TT<T>;
            api([&] { P<T>(s).~X(); });
        });
        x.live = false;
    }

    void step() {
        int op = int(rng.below(20));
        ++opc[op];
        int s = pick();
        Slot& x = slots[s];
        switch (op) {
        case 0: case 1: case 2: case 3: {   // destroy, construct again
            int d = pick(false);
            int ty = slots[d].ty;
            int how = int(rng.below(5)), from = -1;
            destroy(d);
            check_all();
            slots[d].live = true;       // for pick_from
            slots[d].dying = true;
            if (how >= 3) {
                from = pick_from(d, rng.chance(1, 2));
                if (from == d || !u_conv(slots[from].ty, ty)) how = 1;
            }
            slots[d].dying = false;
            construct(d, ty, how > 3 ? 3 : how, from);
            break;
        }
        case 4: case 5: case 6: case 7: case 8: {   // move assignment
            int f = pick_from(s, rng.chance(2, 3));
            Slot& y = slots[f];
            if (!u_conv(y.ty, x.ty)) break;
            if (L::is_std && u_ref(x.ty)) break;
            // an object must not come to own itself here
            if (y.obj >= 0 && x.owner >= 0 && owns(y.obj, x.owner) && !rng.chance(1, 8)) break;
            bool selfdoom = f != s && y.owner >= 0 && owns(x.obj, y.owner);
            bool doomed_target = f != s && x.owner >= 0 && owns(x.obj, x.owner);
            if (y.obj >= 0 && x.owner >= 0 && owns(y.obj, x.owner)) break;  // would leak a cycle
            if (L::is_std && (selfdoom || doomed_target)) break;
            if (doomed_target) break;
            if (selfdoom) ++n_selfdoom;
            tr("%s = move(%s)%s", sn(s), sn(f), selfdoom ? " [dies]" : "");
            if (x.ty != y.ty) ++n_conv;
            int old = x.obj, otag = x.tag, nw = y.obj, ntag = y.tag;
            if (f != s) {
                y.obj = -1;
                y.tag = u_default(y.ty) ? int(TAG_DEFAULT) : -1;
                put(s, nw, ntag);
                m_dispose(old, otag);
            }
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                with(y.ty, [&](auto t2) {
                    constexpr int T2 = decltype(t2)::value;
                    if constexpr (u_conv(T2, T)) api([&] { P<T>(s) = std::move(P<T2>(f)); });
                });
            });
            break;
        }
        case 9: case 10: {          // swap
            int f = rng.chance(1, 8) ? s : pick_from(s, true);
            Slot& y = slots[f];
            if (y.ty != x.ty) break;
            if (L::is_std && u_ref(x.ty)) break;    // std swaps the deleters referred to
            if (x.owner >= 0 && owns(y.obj, x.owner)) break;
            if (y.owner >= 0 && owns(x.obj, y.owner)) break;
            tr("swap(%s, %s)", sn(s), sn(f));
            std::swap(x.obj, y.obj);
            std::swap(x.tag, y.tag);
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                api([&] { P<T>(s).swap(P<T>(f)); });
            });
            break;
        }
        case 11: case 12: {         // reset to null
            bool doomed = x.owner >= 0 && owns(x.obj, x.owner);
            if (doomed) break;
            tr("%s.reset()", sn(s));
            int o = x.obj;
            x.obj = -1;
            if (o >= 0) visible(s, nullptr);
            m_dispose(o, x.tag);
            int w = int(rng.below(3));
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                api([&] { if (w == 0) P<T>(s).reset(); else if (w == 1) P<T>(s).reset(nullptr); else P<T>(s) = nullptr; });
            });
            break;
        }
        case 13: case 14: {         // reset to a new object
            if (nobj > MAXO - 20) break;
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                int o = -1;
                auto p = fresh<T>(o);
                int tag = x.tag;
                if (tag < 0) tag = tagof(s);        // whatever it has now
                tr("%s.reset(#%d)", sn(s), o);
                int old = x.obj;
                put(s, o, tag);
                if (old >= 0) visible(s, objs[o].addr);
                m_dispose(old, tag);
                api([&] { P<T>(s).reset(p); });
            });
            break;
        }
        case 15: {                  // release
            if (x.obj < 0) break;
            ++n_release;
            tr("%s.release()", sn(s));
            int o = x.obj;
            x.obj = -1;
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                typename TT<T>::pointer p{};
                api([&] { p = P<T>(s).release(); });
                const void* v;
                if constexpr (u_isder(T)) v = static_cast<Base*>(p);
                else v = p;
                if (v != objs[o].addr) fail("unique.release", "release returned %p instead of %p", v, objs[o].addr);
                check_all();
                // ours now
                m_dispose(o, TAG_DEFAULT);
                if constexpr (u_isarr(T)) delete[] p;
                else delete p;
            });
            break;
        }
        case 16: case 17: {         // to a shared pointer
            int h = NST + int(rng.below(NSH));
            Slot& z = slots[h];
            if (u_isarr(x.ty) || x.obj < 0) break;
            if (z.ty == 1 && u_ref(x.ty)) break;
            if (x.ty == U_BM && L::is_std && false) break;
            if (x.owner >= 0 && owns(z.obj, x.owner)) break;
            ++n_shared;
            bool assign = rng.chance(1, 2);
            tr("%s %s move(%s)", sn(h), assign ? "=" : ": from", sn(s));
            int old = z.obj, otag = z.tag;
            z.obj = x.obj;
            z.tag = x.tag;
            x.obj = -1;
            x.tag = u_default(x.ty) ? int(TAG_DEFAULT) : -1;
            m_dispose(old, otag);
            with(x.ty, [&](auto t) {
                constexpr int T = decltype(t)::value;
                if constexpr (!u_isarr(T)) {
                    api([&] {
                        if (z.ty == 0) {
                            using X = typename L::template sp<Base>;
                            if (assign) SH(h) = std::move(P<T>(s));
                            else {
                                SH(h).~X();
                                memset(z.mem, 0x5a, 64);
                                new (z.mem) X(std::move(P<T>(s)));
                            }
                        }
                        else if constexpr (!u_isder(T)) {
                            // erased to void: the address of the unique pointer's type
                            using X = typename L::template lsp<void>;
                            if (assign) SHV(h) = std::move(P<T>(s));
                            else {
                                SHV(h).~X();
                                memset(z.mem, 0x5a, 64);
                                new (z.mem) X(std::move(P<T>(s)));
                            }
                        }
                        else {
                            // keep the Base address
                            typename L::template lsp<Base> b(std::move(P<T>(s)));
                            SHV(h) = std::move(b);
                        }
                    });
                }
            });
            break;
        }
        case 18: {                  // drop a shared pointer
            int h = NST + int(rng.below(NSH));
            Slot& z = slots[h];
            tr("%s.reset()", sn(h));
            int o = z.obj;
            z.obj = -1;
            m_dispose(o, z.tag);
            api([&] { if (z.ty == 0) SH(h).reset(); else SHV(h).reset(); });
            break;
        }
        case 19: {                  // comparisons, advancing along a list
            if (rng.chance(1, 2)) {
                int f = pick_from(s, true);
                if (slots[f].ty != x.ty) break;
                ++n_cmp;
                with(x.ty, [&](auto t) {
                    constexpr int T = decltype(t)::value;
                    auto &a = P<T>(s), &b = P<T>(f);
                    auto *pa = a.get(), *pb = b.get();
                    if ((a == b) != (pa == pb) || (a != b) != (pa != pb) || (a < b) != (pa < pb) || (a > b) != (pa > pb) || (a <= b) != (pa <= pb) || (a >= b) != (pa >= pb))
                        fail("cmp.rel", "comparison of %s and %s differs from that of the addresses", sn(s), sn(f));
                });
                break;
            }
            // h = move(h->m)
            if (x.obj < 0 || objs[x.obj].nlinks == 0) break;
            if (x.ty != U_B && x.ty != U_BS && x.ty != U_BF) break;
            int k = x.ty == U_B ? 0 : x.ty == U_BS ? 1 : 2;
            if (L::is_std && k) break;
            int f = slots[0].mem ? objs[x.obj].links[k] : -1;
            Slot& y = slots[f];
            if (y.ty != x.ty) break;
            if (x.owner >= 0 && owns(x.obj, x.owner)) break;
            ++n_selfdoom;
            tr("%s = move(its object's %s)", sn(s), sn(f));
            int old = x.obj, otag = x.tag;
            int nw = y.obj, ntag = y.tag;
            y.obj = -1;
            y.tag = k == 0 ? int(TAG_DEFAULT) : -1;
            put(s, nw, ntag);
            m_dispose(old, otag);
            api([&] {
                if (k == 0) { auto& p = P<U_B>(s); p = std::move(p->m0.p); }
                else if (k == 1) { auto& p = P<U_BS>(s); p = std::move(p->m1.p); }
                else { auto& p = P<U_BF>(s); p = std::move(p->m2.p); }
            });
            break;
        }
        }
        check_all();
    }

    void run_case(uint64_t seed) {
        rng = Rng(seed);
        nobj = nslot = nexp = pos = tl = 0;
        trace[0] = 0;
        cov = 1;
        pend_obj = constructing = carr_obj = -1;
        vis_on = false;
        nexttag = TAG_FIRST;
        USD<L, Base> rd0(nexttag++), rd1(nexttag++), rd2(nexttag++);
        refdel[0] = &rd0;
        refdel[1] = &rd1;
        refdel[2] = &rd2;
        for (int i = 0; i < NST + NSH; ++i) {
            slots[i] = Slot{mem[i], i % NUT, -1, -1, -1, false, false, false};
            nslot = i + 1;
        }
        for (int i = 0; i < NST; ++i) { construct(i, i % NUT, rng.chance(1, 2) ? 1 : 0, -1); }
        for (int i = NST; i < NST + NSH; ++i) {
            slots[i].shared = true;
            slots[i].live = true;
            slots[i].ty = i & 1;
            if (slots[i].ty == 0) new (mem[i]) typename L::template sp<Base>();
            else new (mem[i]) typename L::template lsp<void>();
        }
        check_all();
        int n = 30 + int(rng.below(90));
        for (int i = 0; i < n && nobj < MAXO - 30; ++i) step();
        // everything goes
        for (int i = 0; i < NST; ++i) {
            if (rng.chance(1, 2)) { destroy(i); check_all(); }
        }
        for (int i = NST; i < NST + NSH; ++i) {
            int o = slots[i].obj;
            slots[i].obj = -1;
            m_dispose(o, slots[i].tag);
            api([&] {
                if (slots[i].ty == 0) { using X = typename L::template sp<Base>; SH(i).~X(); }
                else { using X = typename L::template lsp<void>; SHV(i).~X(); }
            });
            slots[i].live = false;
            check_all();
        }
        for (int i = 0; i < NST; ++i) if (slots[i].live) { destroy(i); check_all(); }
        for (int o = 0; o < nobj; ++o) if (objs[o].disposals != 1) fail("destroy.missing", "object %d disposed of %d times", o, objs[o].disposals);
        for (int o = 0; o < nobj; ++o) if (objs[o].arr && objs[o].dead_elems != objs[o].n) fail("unique.array", "array %d: %d of %d elements destroyed", o, objs[o].dead_elems, objs[o].n);
    }
    void report() {
        out.stat("operations", n_ops);
        out.stat("pointer_state_checks", n_checks);
        out.stat("disposals_observed", n_disp);
        out.stat("array_disposals", n_arrays);
        out.stat("empty_deleters_checked", n_emptydel);
        out.stat("visibility_checks_in_destructors", n_vis);
        out.stat("ops_destroying_their_own_operand", n_selfdoom);
        out.stat("converting_moves", n_conv);
        out.stat("unique_to_shared", n_shared);
        out.stat("releases", n_release);
        out.stat("comparison_rounds", n_cmp);
    }
};

} // namespace hv
