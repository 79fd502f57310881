// Sequential engine: random programs over typed shared/weak pointers, executed on the
// real library in lockstep with a reference model. The model predicts, for every
// operation, the value of every pointer, the exact object (if any) which the operation
// must dispose of - including the nested disposals caused by it - and the lifetime of
// every ownership group's memory. Destructors of the managed objects report back to the
// model and may themselves run further operations (scripts).
#pragma once
#include "common.hpp"
#include "policies.hpp"

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define HV_ASAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  define HV_ASAN 1
#endif
#if !defined(HV_ASAN)
#  define HV_ASAN 0
#endif
#if HV_ASAN
extern "C" int __asan_address_is_poisoned(void const volatile*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace hv {

enum TI { TA, TCA, TB, TD, TV, TE, TF, TVOID, TINT, NT };
static const char* const ti_name[NT] = {"A", "const A", "B", "D", "V", "E", "F", "void", "int"};
enum KI { KA, KD, KE, KF, KINT, NK };
static const char* const ki_name[NK] = {"A", "D", "E", "F", "int"};

// ---------------------------------------------------------------- allocation monitor
struct AllocMon {
    bool on = false;
    long allocs = 0, live = 0;
    static constexpr size_t CAP = 1 << 16;
    const volatile void* tab[CAP];
    size_t size[CAP];
    void add(const volatile void* p, size_t n) {
        ++allocs;
        size_t i = mix(uint64_t(p)) & (CAP - 1);
        while (tab[i] && tab[i] != (void*)1) i = (i + 1) & (CAP - 1);
        tab[i] = p;
        size[i] = n;
        ++live;
    }
    void rem(const volatile void* p) {
        if (!live) return;
        size_t i = mix(uint64_t(p)) & (CAP - 1);
        for (size_t k = 0; k < CAP && tab[i]; ++k, i = (i + 1) & (CAP - 1)) {
            if (tab[i] == p) {
                tab[i] = (void*)1;
                --live;
                return;
            }
        }
    }
    void reset() {
        memset(tab, 0, sizeof tab);
        live = 0;
    }
};
inline AllocMon g_am;
inline void am_malloc(const volatile void* p, size_t n) {
    if (g_am.on) g_am.add(p, n);
}
inline void am_free(const volatile void* p) { g_am.rem(p); }
inline void am_install() {
#if HV_ASAN
    __sanitizer_install_malloc_and_free_hooks(am_malloc, am_free);
#endif
}

template <typename P> struct Eng;
template <typename P> inline Eng<P>* eng = nullptr;

template <typename T>
void* vp(T* p) { return const_cast<void*>(static_cast<const volatile void*>(p)); }

// ---------------------------------------------------------------- managed types
// a pointer inside a managed object, known to the model
template <typename P, typename S, int K>
struct Link {
    struct End {
        Link* l;
        ~End() { eng<P>->link_end(l->slot); }
    };
    int slot;
    End end;
    S p;
    Link() : slot(-1), end{this} { slot = eng<P>->link_created(this, vp(&p), K); }
    Link(const Link&) = delete;
    ~Link() { eng<P>->link_begin(slot); }
};

template <typename P> struct D_;
template <typename P> struct F_;

template <typename P>
struct A_ {
    int id;
    uint32_t magic = 0xa11ce;
    Link<P, typename P::template sp<A_>, 0> s0;
    Link<P, typename P::template sp<void>, 1> s1;
    Link<P, typename P::template sp<D_<P>>, 2> s2;
    Link<P, typename P::template wp<A_>, 3> w0;
    Link<P, typename P::template wp<F_<P>>, 4> w1;
    A_() { id = eng<P>->obj_ctor(this); }
    A_(const A_&) = delete;
    virtual ~A_() { eng<P>->obj_dtor(id, 1); magic = 0xdead; }
};
struct IntBase { int* cnt; };
template <typename P>
struct B_ {
    int idb;
    uint64_t pad = 7;
    B_() : idb(eng<P>->cur_id()) {}
    ~B_() { eng<P>->obj_dtor(idb, 16); }
};
template <typename P>
struct D_ : A_<P>, B_<P> {
    int tail = 3;
    ~D_() { eng<P>->obj_dtor(this->id, 2); }
};
template <typename P>
struct V_ {
    int idv;
    V_() : idv(eng<P>->next_id()) {}
    virtual ~V_() { eng<P>->obj_dtor(idv, 32); }
};
template <typename P>
struct E_ : A_<P>, virtual V_<P> {
    long tail = 5;
    ~E_() { eng<P>->obj_dtor(this->id, 4); }
};
template <typename P>
struct F_ : A_<P>, P::template esft<F_<P>> {
    short tail = 9;
    ~F_() { eng<P>->obj_dtor(this->id, 8); }
    template <typename T>
    auto xshared_from(T* p) const { return this->shared_from(p); }
    template <typename T>
    auto xweak_from(T* p) const { return this->weak_from(p); }
};
static const int full_mask[NK] = {1, 1 | 2 | 16, 1 | 4 | 32, 1 | 8, 0};

template <typename P, int TIv> struct type_of;
template <typename P> struct type_of<P, TA> { using t = A_<P>; };
template <typename P> struct type_of<P, TCA> { using t = const A_<P>; };
template <typename P> struct type_of<P, TB> { using t = B_<P>; };
template <typename P> struct type_of<P, TD> { using t = D_<P>; };
template <typename P> struct type_of<P, TV> { using t = V_<P>; };
template <typename P> struct type_of<P, TE> { using t = E_<P>; };
template <typename P> struct type_of<P, TF> { using t = F_<P>; };
template <typename P> struct type_of<P, TVOID> { using t = void; };
template <typename P> struct type_of<P, TINT> { using t = int; };
template <typename P, int KIv> struct kind_of;
template <typename P> struct kind_of<P, KA> { using t = A_<P>; };
template <typename P> struct kind_of<P, KD> { using t = D_<P>; };
template <typename P> struct kind_of<P, KE> { using t = E_<P>; };
template <typename P> struct kind_of<P, KF> { using t = F_<P>; };
template <typename P> struct kind_of<P, KINT> { using t = int; };

// U* -> T* conversions which the engine instantiates
constexpr bool conv_ok(int from, int to) {
    if (from == to) return true;
    if (to == TVOID) return from != TCA;
    switch (from) {
    case TA: return to == TCA;
    case TD: return to == TA || to == TCA || to == TB;
    case TE: return to == TA || to == TCA || to == TV;
    case TF: return to == TA || to == TCA;
    default: return false;
    }
}
constexpr int ti_of_kind(int k) { return k == KA ? TA : k == KD ? TD : k == KE ? TE : k == KF ? TF : TINT; }
constexpr bool kind_ok(int k, int to) { return conv_ok(ti_of_kind(k), to); }

template <int I> using ic = std::integral_constant<int, I>;
template <typename F>
void with_ti(int ti, F f) {
    switch (ti) {
    case TA: f(ic<TA>{}); break;
    case TCA: f(ic<TCA>{}); break;
    case TB: f(ic<TB>{}); break;
    case TD: f(ic<TD>{}); break;
    case TV: f(ic<TV>{}); break;
    case TE: f(ic<TE>{}); break;
    case TF: f(ic<TF>{}); break;
    case TVOID: f(ic<TVOID>{}); break;
    case TINT: f(ic<TINT>{}); break;
    }
}
template <typename F>
void with_ki(int k, F f) {
    switch (k) {
    case KA: f(ic<KA>{}); break;
    case KD: f(ic<KD>{}); break;
    case KE: f(ic<KE>{}); break;
    case KF: f(ic<KF>{}); break;
    case KINT: f(ic<KINT>{}); break;
    }
}

template <typename P, typename U>
struct Del {
    int gid;
    explicit Del(int g) : gid(g) { ++live(); }
    Del(const Del& o) : gid(o.gid) { ++live(); }
    Del& operator=(const Del&) = default;
    ~Del() { --live(); }
    static long& live() { static long l = 0; return l; }
    void operator()(U* p) const;
};

struct Profile {
    // relative weights of operation families
    int assign = 10, construct = 6, create = 11, reset = 5, swap = 4, alias = 4, lock = 5, cast = 3, self = 2, temp = 3;
    int weak = 12, sfrom = 0, storage = 2, cmp = 4, bulk = 0, links = 50 /* % of slots taken from objects */;
    int scripts = 30;   // % of objects with destructor scripts
    int ops = 50;
    int kinds[NK] = {3, 3, 2, 2, 1};
    bool portable = false;  // only what the standard pointers can do as well
    bool convs = false;     // prefer conversions
};

template <typename P>
struct Eng {
    template <typename T> using sp = typename P::template sp<T>;
    template <typename T> using wp = typename P::template wp<T>;
    template <int I> using TT = typename type_of<P, I>::t;
    template <int I> using KT = typename kind_of<P, I>::t;
    using Store = typename P::template storage<A_<P>>;

    struct Slot {
        uint8_t ti = 0;
        bool strong = false, storage = false, used = false, live = false;
        int busy = 0;
        int host = -1;      // object which contains it
        void* p = nullptr;
        int g = -1;
        void* addr = nullptr;
    };
    struct Group {
        int strong = 0, weak = 0;
        int obj = -1;           // managed object (-1: none)
        bool deleter = false;   // disposal goes to a deleter with this group's id
        bool deletes = true;    // the deleter deletes
        void* raw = nullptr;    // the pointer which the deleter must get
        int* intval = nullptr;
        const void* owner = nullptr;
        bool disposed = false, freed = false;
        int arena = -1;
        int busy = 0;
    };
    enum OState { ONone, OCtor, OAlive, ODying, ODead };
    struct Obj {
        OState st = ONone;
        int kind = 0;
        A_<P>* a = nullptr;
        int g = -1;
        int mask = 0;
        int links[5] = {-1, -1, -1, -1, -1};
        int nscripts = 0;
        bool in_body = false;   // the most derived destructor's body runs
    };

    static constexpr int MAXS = 512, MAXG = 4096, MAXO = 4096, MAXE = 64;
    Slot slots[MAXS];
    int nslots = 0;
    int statics = 0;
    Group groups[MAXG];
    int ngroups = 0;
    Obj objs[MAXO];
    int nobjs = 0;
    struct Expect { int g; bool in_deleter; } expect[MAXE];
    int nexpect = 0;
    int constructing = -1;   // object id handed to the next A_ constructor
    bool dummy_mode = false;
    int ctor_calls = 0;
    int nest = 0;
    int pending_arena = -1;
    bool teardown = false;

    Rng rng{1};
    Profile prof;
    uint64_t obs = 0;       // hash of everything observed
    uint64_t cov = 0;       // hash of the op sequence
    ArenaLog arenas[4];

    A_<P>* dummyA = nullptr; D_<P>* dummyD = nullptr; E_<P>* dummyE = nullptr; F_<P>* dummyF = nullptr;
    int dummyInt[4] = {1, 2, 3, 4};

    // trace of the current case, kept for samples and replays
    char trace[1 << 15];
    size_t tlen = 0;

    long n_ops = 0, n_checks = 0, n_disposals = 0, n_nested = 0, n_scripts = 0, n_groups = 0, n_frees = 0, n_lock_ok = 0,
        n_lock_fail = 0, n_maxowners = 0, n_link_ops = 0, n_selfdoom = 0, n_cmp = 0, n_casother = 0, n_sfrom = 0, n_sfrom_empty = 0,
        n_conv = 0, n_dead_conv = 0, n_track = 0, n_noalloc = 0, n_sync = 0;
    long opcount[64] = {};
    static const char* opname(int i) {
        static const char* const n[] = {"copy_assign", "move_assign", "copy_construct", "move_construct", "swap", "reset", "create",
            "alias", "lock", "cast", "self", "temp", "weak_copy_assign", "weak_move_assign", "weak_copy_construct",
            "weak_move_construct", "weak_swap", "weak_reset", "weak_from_strong", "weak_alias", "shared_from", "storage_store",
            "storage_exchange", "storage_cas", "storage_load", "compare", "bulk", "script", "destroy"};
        return n[i];
    }
    enum Op { O_CA, O_MA, O_CC, O_MC, O_SW, O_RS, O_CR, O_AL, O_LK, O_CAST, O_SELF, O_TMP, O_WCA, O_WMA, O_WCC, O_WMC, O_WSW, O_WRS,
        O_WFS, O_WAL, O_SF, O_SST, O_SEX, O_SCX, O_SLD, O_CMP, O_BULK, O_SCRIPT, O_DESTROY };

    __attribute__((format(printf, 2, 3))) void tr(const char* f, ...) {
        if (tlen + 300 >= sizeof trace) return;
        for (int i = 0; i < nest && i < 8; ++i) trace[tlen++] = '>';
        va_list ap;
        va_start(ap, f);
        int n = vsnprintf(trace + tlen, 280, f, ap);
        va_end(ap);
        tlen += size_t(n < 280 ? n : 279);
        trace[tlen++] = ';';
        trace[tlen++] = ' ';
        trace[tlen] = 0;
        if (out.args.verbose) {
            fprintf(stderr, "%*s", nest * 2, "");
            va_start(ap, f);
            vfprintf(stderr, f, ap);
            va_end(ap);
            fputc('\n', stderr);
        }
    }

    [[noreturn]] __attribute__((format(printf, 3, 4))) void fail(const char* key, const char* f, ...) {
        char m[600];
        va_list ap;
        va_start(ap, f);
        vsnprintf(m, sizeof m, f, ap);
        va_end(ap);
        size_t from = tlen > 700 ? tlen - 700 : 0;
        out.violation(key, "[%s] %s; last operations: %s%s", P::name, m, from ? "..." : "", trace + from);
    }

    // ------------------------------------------------------------ model primitives
    int new_group() {
        if (ngroups >= MAXG) abort();
        groups[ngroups] = Group{};
        ++n_groups;
        return ngroups++;
    }
    void acquire(int g, bool strong) {
        if (g < 0) return;
        if (strong) { ++groups[g].strong; if (groups[g].strong > n_maxowners) n_maxowners = groups[g].strong; }
        else ++groups[g].weak;
    }
    void doom(int g) {
        Group& G = groups[g];
        if (G.deleter || G.obj >= 0) {
            if (nexpect >= MAXE) abort();
            expect[nexpect++] = {g, false};
        }
        else G.disposed = true;
    }
    void release(int g, bool strong) {
        if (g < 0) return;
        if (strong) {
            if (--groups[g].strong == 0) doom(g);
        }
        else --groups[g].weak;
    }
    void set(Slot& s, int g, void* addr) { s.g = g; s.addr = addr; }
    void assign(Slot& s, int g, void* addr) {
        int old = s.g;
        acquire(g, s.strong);
        set(s, g, addr);
        release(old, s.strong);
    }

    // ------------------------------------------------------------ callbacks from managed objects
    struct Mon {
        bool was;
        Mon() : was(g_am.on) { g_am.on = false; }
        ~Mon() { g_am.on = was; }
    };
    struct Api {
        bool was;
        long before;
        Api() : was(g_am.on), before(g_am.allocs) { g_am.on = true; }
        ~Api() { g_am.on = was; }
    };

    int next_id() { return dummy_mode ? -1 : constructing; }
    int cur_id() { return dummy_mode ? -1 : last_ctor; }
    int last_ctor = -1;
    int ctor_links[5];
    int nctor_links = 0;

    int link_created(void* , void* p, int k) {
        Mon m;
        if (dummy_mode) return -1;
        int s = new_slot();
        Slot& S = slots[s];
        static const int tis[5] = {TA, TVOID, TD, TA, TF};
        S.used = S.live = true;
        S.ti = uint8_t(tis[k]);
        S.strong = k < 3;
        S.storage = false;
        S.host = constructing;
        S.p = p;
        S.g = -1;
        S.addr = nullptr;
        S.busy = 0;
        ctor_links[k] = s;
        return s;
    }
    int obj_ctor(A_<P>* a) {
        Mon m;
        if (dummy_mode) return -1;
        ++ctor_calls;
        if (constructing < 0) fail("ctor.unexpected", "an object was constructed which the program did not ask for");
        int id = constructing;
        constructing = -1;
        last_ctor = id;
        Obj& o = objs[id];
        o.st = OAlive;
        o.a = a;
        for (int i = 0; i < 5; ++i) o.links[i] = ctor_links[i];
        return id;
    }
    void obj_dtor(int id, int bit) {
        Mon m;
        if (id < 0) return;
        if (id >= nobjs) fail("destroy.garbage", "a destructor ran on memory which holds no object");
        Obj& o = objs[id];
        // (virtual bases go last, after the members)
        if (o.st == ODead && bit == 32 && o.kind == KE && !(o.mask & 32)) { o.mask |= bit; return; }
        if (o.st == ODead) fail("destroy.twice", "object #%d destroyed again", id);
        if (o.st == OAlive) {
            if (nexpect == 0 || expect[nexpect - 1].g != o.g) {
                if (o.g >= 0 && groups[o.g].strong > 0)
                    fail("destroy.early", "object #%d (group %d) destroyed while %d owners exist", id, o.g, groups[o.g].strong);
                fail("destroy.unexpected", "object #%d (group %d) destroyed by an operation which does not end its ownership", id, o.g);
            }
            Group& G = groups[o.g];
            if (G.deleter && !expect[nexpect - 1].in_deleter) fail("deleter.bypassed", "object #%d destroyed without its deleter", id);
            if (!G.deleter) { --nexpect; G.disposed = true; }
            o.st = ODying;
            ++n_disposals;
            note(0x100 + uint64_t(id));
            tr("~%s#%d", ki_name[o.kind], id);
            o.in_body = true;
            run_scripts(id);
            o.in_body = false;
        }
        else if (o.st != ODying) fail("destroy.garbage", "destructor of object #%d in state %d", id, o.st);
        o.mask |= bit;
    }
    void link_begin(int s) {
        Mon m;
        if (s < 0) return;
        Slot& S = slots[s];
        S.live = false;
        int g = S.g;
        set(S, -1, nullptr);
        link_depth[nlink++] = nexpect;
        release(g, S.strong);
    }
    int link_depth[256];
    int nlink = 0;
    void link_end(int s) {
        Mon m;
        if (s < 0) return;
        int d = link_depth[--nlink];
        if (nexpect != d) missing("member pointer destroyed", d);
        int h = slots[s].host;
        slots[s].used = false;
        if (h >= 0) {
            bool all = true;
            for (int i = 0; i < 5; ++i) {
                if (objs[h].links[i] == s) objs[h].links[i] = -1;
                if (objs[h].links[i] >= 0) all = false;
            }
            if (all) objs[h].st = ODead;
        }
    }
    [[noreturn]] void missing(const char* what, int) {
        int g = expect[nexpect - 1].g;
        fail("destroy.missing", "%s: object #%d of group %d has no owners left but was not disposed of", what, groups[g].obj, g);
    }
    // returns whether to delete
    bool deleter_begin(int gid, void* p) {
        Mon m;
        if (gid < 0 || gid >= ngroups) fail("deleter.garbage", "a garbage deleter was called");
        Group& G = groups[gid];
        if (G.disposed) fail("deleter.twice", "deleter of group %d called again", gid);
        if (nexpect == 0 || expect[nexpect - 1].g != gid || expect[nexpect - 1].in_deleter)
            fail(G.strong > 0 ? "destroy.early" : "deleter.unexpected", "deleter of group %d called unexpectedly (%d owners)", gid, G.strong);
        if (p != G.raw) fail("deleter.pointer", "deleter of group %d got %p instead of the original %p", gid, p, G.raw);
        expect[nexpect - 1].in_deleter = true;
        note(0x200 + uint64_t(gid));
        tr("deleter(g%d)", gid);
        return G.deletes;
    }
    void deleter_end(int gid) {
        Mon m;
        Group& G = groups[gid];
        if (nexpect == 0 || expect[nexpect - 1].g != gid) fail("destroy.order", "disposal order broken at group %d", gid);
        --nexpect;
        G.disposed = true;
        if (G.obj < 0) ++n_disposals;
    }

    // what the program could see, for comparison between libraries
    static constexpr int MAXOBS = 1 << 14;
    struct Obs { const char* what; int slot; long a, b, c; int at; };
    Obs obsq[MAXOBS];
    int nobs = 0;
    void note(uint64_t v) { observe("disposal", -1, long(v), 0, 0); }
    void observe(const char* what, int slot, long a, long b, long c) {
        obs = mix(obs ^ mix(uint64_t(slot) * 1000003 + uint64_t(a) * 31 + uint64_t(b) * 7 + uint64_t(c)));
        ++n_sync;
        if (nobs < MAXOBS) obsq[nobs++] = {what, slot, a, b, c, int(tlen)};
    }
    // an address relative to the program's objects
    long symbolic(int g, const void* p) {
        if (!p) return 0;
        const char* c = static_cast<const char*>(p);
        if (g >= 0 && groups[g].obj >= 0) {
            long d = c - reinterpret_cast<const char*>(objs[groups[g].obj].a);
            // inside the object; what lies around it is up to the heap
            int k = objs[groups[g].obj].kind;
            long size = long(k == KA ? sizeof(A_<P>) : k == KD ? sizeof(D_<P>) : k == KE ? sizeof(E_<P>) : sizeof(F_<P>));
            if (d >= -8 && d < size - 8) return 10000 + groups[g].obj * 1000 + d;
        }
        if (g >= 0 && p == groups[g].intval) return 1;
        const void* dm[] = {dummyA, dummyD, static_cast<B_<P>*>(dummyD), vp(static_cast<V_<P>*>(dummyE)), dummyE, dummyF, &dummyInt[0], &dummyInt[1], &dummyInt[2], &dummyInt[3]};
        for (int i = 0; i < 10; ++i) if (dm[i] == p) return 10 + i;
        return 5;
    }

    // ------------------------------------------------------------ slots
    int new_slot() {
        for (int i = 0; i < nslots; ++i) if (!slots[i].used) { slots[i] = Slot{}; return i; }
        if (nslots >= MAXS) abort();
        slots[nslots] = Slot{};
        return nslots++;
    }
    template <int I> sp<TT<I>>& S(int s) { return *static_cast<sp<TT<I>>*>(slots[s].p); }
    template <int I> wp<TT<I>>& W(int s) { return *static_cast<wp<TT<I>>*>(slots[s].p); }
    Store& ST(int s) { return *static_cast<Store*>(slots[s].p); }

    static constexpr size_t RAW = sizeof(Store) > 256 ? sizeof(Store) : 256;
    alignas(128) unsigned char raw[64][RAW];
    void dirty(void* p, size_t n) { memset(p, "\xa5\xff\x00\x7f"[rng.below(4)], n); }

    // ------------------------------------------------------------ op frame
    struct Frame {
        Eng& e;
        int depth;
        int b[4];
        int nb = 0;
        int bg[3];
        int nbg = 0;
        const char* what;
        Frame(Eng& e_, const char* w) : e(e_), depth(e_.nexpect), what(w) {}
        void busy(int s) { if (s >= 0) { b[nb++] = s; ++e.slots[s].busy; } }
        void busyg(int g) { if (g >= 0) { bg[nbg++] = g; ++e.groups[g].busy; } }
        void done() {
            for (int i = 0; i < nb; ++i) if (e.slots[b[i]].busy > 0) --e.slots[b[i]].busy;
            for (int i = 0; i < nbg; ++i) --e.groups[bg[i]].busy;
            if (e.nexpect != depth) e.missing(what, depth);
        }
    };
    template <typename F>
    void api(bool creating, const char* what, F f) {
        long before;
        long after;
        {
            bool was = g_am.on;
            before = g_am.allocs;
            // allocations of nested operations are accounted to those
            long keep = nested_allocs;
            nested_allocs = 0;
            g_am.on = true;
            f();
            g_am.on = was;
            after = g_am.allocs - nested_allocs;
            nested_allocs = keep + (g_am.allocs - before);
        }
        if (!creating) {
            ++n_noalloc;
            if (after != before) fail("alloc.noncreating", "%s allocated memory", what);
        }
        ++n_ops;
    }
    long nested_allocs = 0;

    // ------------------------------------------------------------ selection
    bool usable(int s) const {
        const Slot& x = slots[s];
        if (!x.used || !x.live || x.busy) return false;
        return true;
    }
    // pick a live slot satisfying the predicate
    template <typename F>
    int pick(F f) {
        int c[MAXS], cl[MAXS];
        int n = 0, nl = 0;
        for (int i = 0; i < nslots; ++i) {
            if (!usable(i) || !f(slots[i])) continue;
            if (slots[i].host >= 0) cl[nl++] = i;
            else c[n++] = i;
        }
        if (nl && (!n || rng.chance(uint32_t(prof.links), 100))) return cl[rng.below(uint32_t(nl))];
        if (!n) return -1;
        return c[rng.below(uint32_t(n))];
    }
    // targets of assignments. The standard library's assignment (as opposed to reset) is not safe if it ends the
    // life of the target itself: pointers inside objects are left out there
    bool target_ok(const Slot& s) const { return s.strong && !s.storage && (s.host < 0 || !(P::is_std || prof.portable)); }
    int pick_target() { return pick([&](const Slot& s) { return target_ok(s); }); }
    int pick_owner() {
        int r = rng.below(5) ? pick([](const Slot& s) { return s.g >= 0 && s.strong && !s.storage; }) : -1;
        return r >= 0 ? r : pick_strong();
    }
    int pick_strong() { return pick([](const Slot& s) { return s.strong && !s.storage; }); }
    int pick_weak() { return pick([](const Slot& s) { return !s.strong; }); }
    int pick_conv(int to, bool strong) {
        bool same = prof.convs ? rng.chance(1, 5) : rng.chance(1, 3);
        if (rng.below(5)) {
            // mostly sources which own (or observe) something
            int r = pick([&](const Slot& s) { return s.g >= 0 && s.strong == strong && !s.storage && (same ? s.ti == to : conv_ok(s.ti, to)); });
            if (r >= 0) return r;
        }
        if (same) return pick([&](const Slot& s) { return s.strong == strong && !s.storage && s.ti == to; });
        return pick([&](const Slot& s) { return s.strong == strong && !s.storage && conv_ok(s.ti, to); });
    }
    int pick_static(bool strong) {
        int c[MAXS];
        int n = 0;
        for (int i = 0; i < statics; ++i)
            if (usable(i) && slots[i].strong == strong && !slots[i].storage) c[n++] = i;
        return n ? c[rng.below(uint32_t(n))] : -1;
    }
    void describe(char* b, size_t n, int s) {
        const Slot& x = slots[s];
        snprintf(b, n, "%s%s<%s>%d%s", x.host >= 0 ? "member " : "", x.storage ? "storage" : x.strong ? "s" : "w", ti_name[x.ti], s, "");
    }
    struct Desc { char b[48]; };
    Desc ds(int s) { Desc d; describe(d.b, sizeof d.b, s); return d; }

    template <int From, int To>
    void* conv_addr(void* a, int g, bool weak_src) {
        if constexpr (From == To) return a;
        else {
            if (From != To) ++n_conv;
            if constexpr (From == TE && To == TV) {
                if (!a) return nullptr;
                if (weak_src && (g < 0 || groups[g].strong == 0)) { ++n_dead_conv; return nullptr; }
            }
            TT<From>* f = static_cast<TT<From>*>(a);
            TT<To>* t = f;
            return vp(t);
        }
    }

    // address of the object of group g as a T*, or null if it is no T
    template <int To>
    void* obj_addr(int g) {
        int o = groups[g].obj;
        if (o < 0) {
            if (To == TINT || To == TVOID) return groups[g].intval;
            return nullptr;
        }
        A_<P>* a = objs[o].a;
        void* r = nullptr;
        with_ki(objs[o].kind, [&](auto k) {
            constexpr int K = decltype(k)::value;
            if constexpr (K != KINT && kind_ok(K, To)) {
                KT<K>* kp = static_cast<KT<K>*>(a);
                TT<To>* t = kp;
                r = vp(t);
            }
            else if constexpr (K != KINT && To == TINT) {
                r = &a->id;
            }
        });
        return r;
    }

    // some address for an alias of group g with element type T
    template <int T>
    void* alias_addr(int g) {
        uint32_t r = rng.below(10);
        if (r < 1) return nullptr;
        if (r < 6 && g >= 0 && groups[g].strong > 0 && (groups[g].obj < 0 || objs[groups[g].obj].st == OAlive)) {
            void* a = obj_addr<T>(g);
            if (a) return a;
        }
        if constexpr (T == TA || T == TCA) return rng.chance(1, 2) ? dummyA : static_cast<A_<P>*>(dummyD);
        else if constexpr (T == TB) return static_cast<B_<P>*>(dummyD);
        else if constexpr (T == TD) return dummyD;
        else if constexpr (T == TV) return vp(static_cast<V_<P>*>(dummyE));
        else if constexpr (T == TE) return dummyE;
        else if constexpr (T == TF) return dummyF;
        else return &dummyInt[rng.below(4)];
    }

    void learn_owner(int s) {
        if constexpr (!P::is_std) {
            Slot& x = slots[s];
            if (x.g < 0 || !x.live || !x.used) return;
            Group& G = groups[x.g];
            if (G.owner) return;
            with_ti(x.ti, [&](auto t) {
                constexpr int T = decltype(t)::value;
                G.owner = S<T>(s).owner();
            });
            if (!G.owner) fail("strong.owner", "a pointer which owns an object reports no owner");
            for (int i = 0; i < ngroups; ++i)
                if (i != x.g && groups[i].owner == G.owner && !groups[i].freed && refs(i) > 0)
                    fail("strong.owner", "two live ownership groups report the same owner");
            if (G.arena >= 0) {
                bool in = false;
                ArenaLog& l = arenas[G.arena];
                for (int k = 0; k < l.nrec; ++k)
                    if (l.rec[k].live && G.owner >= l.rec[k].p && G.owner < static_cast<char*>(l.rec[k].p) + l.rec[k].n * l.rec[k].size) in = true;
                if (!in) fail("alloc.arena", "the ownership group was not allocated with the given allocator");
            }
        }
        else (void)s;
    }
    int refs(int g) const { return groups[g].strong + groups[g].weak; }

    // ------------------------------------------------------------ checks
    void check_slot(int s, bool counts = true) {
        Slot& x = slots[s];
        if (!x.used || !x.live || x.busy) return;
        ++n_checks;
        with_ti(x.ti, [&](auto t) {
            constexpr int T = decltype(t)::value;
            if (x.storage) return;
            if (x.strong) check_strong<T>(s, S<T>(s), counts);
            else check_weak<T>(s, W<T>(s), counts);
        });
    }
    template <int T>
    void check_strong(int s, const sp<TT<T>>& p, bool counts) {
        Slot& x = slots[s];
        void* got = vp(p.get());
        if (got != x.addr) fail(last_conv ? "conv.strong" : "strong.get", "%s stores %p, must store %p", ds(s).b, got, x.addr);
        if (bool(p) != (x.addr != nullptr)) fail("strong.bool", "%s: wrong truth value", ds(s).b);
        if (vp(p.operator->()) != x.addr) fail("strong.get", "%s: operator-> disagrees", ds(s).b);
        if (counts && (x.g < 0 || !groups[x.g].busy)) {
            long want = x.g < 0 ? 0 : groups[x.g].strong;
            long n = p.use_count();
            if (n != want) fail("strong.count", "%s: use_count %ld, owners %ld", ds(s).b, n, want);
        }
        if constexpr (!P::is_std) {
            const void* o = p.owner();
            if ((o != nullptr) != (x.g >= 0)) fail("strong.owner", "%s: %s owner reported", ds(s).b, o ? "an" : "no");
            if (x.g >= 0 && groups[x.g].owner && groups[x.g].owner != o) fail("strong.owner", "%s: reports a different owner", ds(s).b);
            if (static_cast<const void*>(p.t_owner()) != o) fail("strong.owner", "%s: t_owner disagrees", ds(s).b);
        }
        if (P::no_owner(p) != (x.g < 0)) fail("strong.no_owner", "%s: no_owner is wrong", ds(s).b);
        if (prof.portable) observe("shared", s, symbolic(x.g, got), bool(p), counts && (x.g < 0 || !groups[x.g].busy) ? p.use_count() : -1);
        if constexpr (T == TA || T == TCA) {
            if (x.addr && x.g >= 0 && groups[x.g].strong > 0 && !groups[x.g].disposed) {
                if (p->magic != 0xa11ce) fail("destroy.early", "%s: the object is not alive", ds(s).b);
                if (&*p != p.get()) fail("strong.get", "%s: operator* disagrees", ds(s).b);
            }
        }
        if constexpr (T == TINT) {
            volatile int v = x.addr ? *p : 0;
            (void)v;
        }
    }
    template <int T>
    void check_weak(int s, const wp<TT<T>>& p, bool counts) {
        Slot& x = slots[s];
        bool gb = x.g >= 0 && groups[x.g].busy;
        long want = x.g < 0 ? 0 : groups[x.g].strong;
        if (counts && !gb) {
            long n = p.use_count();
            if (n != want) fail("weak.count", "%s: use_count %ld, owners %ld", ds(s).b, n, want);
        }
        if (!gb && p.expired() != (want == 0)) fail("weak.expired", "%s: expired is %d with %ld owners", ds(s).b, int(p.expired()), want);
        if constexpr (!P::is_std) {
            if (bool(p) != (x.g >= 0)) fail("weak.bool", "%s: wrong truth value", ds(s).b);
            const void* o = p.owner();
            if ((o != nullptr) != (x.g >= 0)) fail("weak.owner", "%s: %s owner reported", ds(s).b, o ? "an" : "no");
            if (x.g >= 0 && groups[x.g].owner && groups[x.g].owner != o) fail("weak.owner", "%s: reports a different owner", ds(s).b);
            if (static_cast<const void*>(p.t_owner()) != o) fail("weak.owner", "%s: t_owner disagrees", ds(s).b);
        }
        if (P::no_owner(p) != (x.g < 0)) fail("weak.no_owner", "%s: no_owner is wrong", ds(s).b);
        if (!gb && nest == 0) {
            auto l = p.lock();
            if (prof.portable) observe("lock", s, symbolic(x.g, l.get()), bool(l), l.use_count() * 2 + p.expired());
            if (want == 0) {
                ++n_lock_fail;
                if (l.get() || l.use_count() || bool(l)) fail("weak.lock", "%s: lock of an expired pointer is not empty", ds(s).b);
                if (!P::no_owner(l)) fail("weak.lock", "%s: failed lock reports an owner", ds(s).b);
            }
            else {
                ++n_lock_ok;
                if (vp(l.get()) != x.addr) fail(last_conv ? "conv.weak" : "weak.lock", "%s: lock gives %p, must give %p", ds(s).b, vp(l.get()), x.addr);
                if (l.use_count() != want + 1) fail("weak.lock", "%s: lock gives use_count %ld, must give %ld", ds(s).b, l.use_count(), want + 1);
                if (!P::same_owner(l, p)) fail("weak.lock", "%s: lock gives another owner", ds(s).b);
            }
        }
    }
    bool last_conv = false;

    void check_groups() {
        for (int g = 0; g < ngroups; ++g) {
            Group& G = groups[g];
            if (G.freed) continue;
            bool should_free = refs(g) == 0 && (G.disposed || (G.obj < 0 && !G.deleter));
            if (G.obj >= 0 && G.disposed && objs[G.obj].st != ODead)
                fail("destroy.partial", "object #%d not completely destroyed", G.obj);
            if (G.obj >= 0 && objs[G.obj].st == ODead && objs[G.obj].mask != full_mask[objs[G.obj].kind])
                fail("destroy.partial", "%s #%d destroyed through the wrong type", ki_name[objs[G.obj].kind], G.obj);
#if HV_ASAN
            if (G.owner) {
                bool pois = __asan_address_is_poisoned(G.owner);
                if (should_free && !pois) fail("cb.freed_late", "bookkeeping memory of group %d not released with the last reference", g);
                if (!should_free && pois) fail("cb.freed_early", "bookkeeping memory of group %d released while %d shared and %d weak pointers refer to it", g, G.strong, G.weak);
            }
#endif
            if (should_free) {
                G.freed = true;
                ++n_frees;
                if (G.arena >= 0) {
                    bool still = false;
                    ArenaLog& l = arenas[G.arena];
                    for (int k = 0; k < l.nrec; ++k)
                        if (l.rec[k].live && G.owner >= l.rec[k].p && G.owner < static_cast<char*>(l.rec[k].p) + l.rec[k].n * l.rec[k].size) still = true;
                    if (G.owner && still) fail("cb.freed_late", "group %d's block not returned to its allocator", g);
                }
            }
        }
        for (auto& l : arenas) if (l.error) fail("alloc.arena", "%s", l.error);
        if constexpr (P::tracking) {
            if (g_track_error) fail("track.error", "%s", g_track_error);
            check_tracking();
        }
    }
    void check_tracking() {
        for (int g = 0; g < ngroups; ++g) {
            Group& G = groups[g];
            if (G.freed || !G.owner || refs(g) == 0) continue;
            const TrackCB* cb = static_cast<const TrackCB*>(G.owner);
            ++n_track;
            if (long(cb->strong) != G.strong) fail("track.count", "group %d: control block counts %ld owners, there are %d", g, long(cb->strong), G.strong);
            for (int w = 0; w < 2; ++w) {
                const TrackRec& r = w ? cb->wrec : cb->srec;
                if (r.overflow) continue;
                int found = 0;
                for (int s = 0; s < nslots; ++s) {
                    Slot& x = slots[s];
                    if (!x.used || !x.live || x.g != g || x.strong == bool(w)) continue;
                    int c = 0;
                    for (int i = 0; i < r.n; ++i) {
                        if (x.storage) {
                            const char* a = static_cast<const char*>(r.addr[i]);
                            if (a >= static_cast<char*>(x.p) && a < static_cast<char*>(x.p) + sizeof(Store)) c += r.cnt[i];
                        }
                        else if (r.addr[i] == x.p) c += r.cnt[i];
                    }
                    if (c != 1) fail("track.addr", "group %d: %s is on record %d times", g, ds(s).b, c);
                    ++found;
                }
                int tot = 0;
                for (int i = 0; i < r.n; ++i) tot += r.cnt[i] < 0 ? 1000 : r.cnt[i];
                if (tot != found) fail("track.addr", "group %d: %d %s references on record, %d pointers exist", g, tot, w ? "weak" : "strong", found);
            }
        }
    }
    void check_all(bool full) {
        for (int i = 0; i < nslots; ++i) {
            if (!full && i >= statics && rng.below(4)) continue;
            check_slot(i);
        }
        check_groups();
        if (nexpect) missing("operation finished", 0);
    }

    // ------------------------------------------------------------ operations
    // Each returns false if not applicable.

    bool op_copy_assign(bool move) {
        int t = pick_target();
        if (t < 0) return false;
        int r = pick_conv(slots[t].ti, true);
        if (r < 0 || r == t) return false;
        bool ok = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(slots[r].ti, [&](auto rr) {
                constexpr int T = decltype(tt)::value, R = decltype(rr)::value;
                if constexpr (conv_ok(R, T)) {
                    ok = true;
                    last_conv = R != T;
                    tr("%s = %s%s%s", ds(t).b, move ? "move(" : "", ds(r).b, move ? ")" : "");
                    auto& real_t = S<T>(t);
                    auto& real_r = S<R>(r);
                    Frame f(*this, move ? "move assignment" : "copy assignment");
                    f.busy(t);
                    f.busy(r);
                    int g = slots[r].g;
                    f.busyg(g);
                    void* a = conv_addr<R, T>(slots[r].addr, g, false);
                    note_selfdoom(t, r);
                    if (move) {
                        int old = slots[t].g;
                        set(slots[t], g, a);
                        set(slots[r], -1, nullptr);
                        release(old, true);
                        api(false, f.what, [&] { real_t = std::move(real_r); });
                    }
                    else {
                        assign(slots[t], g, a);
                        api(false, f.what, [&] { real_t = real_r; });
                    }
                    f.done();
                }
            });
        });
        if (ok) { check_slot(t); check_slot(r); }
        return ok;
    }
    void note_selfdoom(int t, int r) {
        if (slots[t].host >= 0 || slots[r].host >= 0) ++n_link_ops;
        // the operand lives in an object which the target alone keeps alive
        if (slots[r].host >= 0 && slots[t].g >= 0 && objs[slots[r].host].g == slots[t].g && groups[slots[t].g].strong == 1) ++n_selfdoom;
        if (slots[t].host >= 0 && slots[t].g >= 0 && objs[slots[t].host].g == slots[t].g && groups[slots[t].g].strong == 1) ++n_selfdoom;
    }

    // destroys the pointer in static slot t (its storage gets dirtied)
    template <int T>
    void destroy_static(int t) {
        Slot& s = slots[t];
        Frame f(*this, "destruction");
        f.busy(t);
        int old = s.g;
        set(s, -1, nullptr);
        release(old, s.strong);
        if (s.strong) { auto& p = S<T>(t); using X = sp<TT<T>>; api(false, f.what, [&] { p.~X(); }); }
        else { auto& p = W<T>(t); using X = wp<TT<T>>; api(false, f.what, [&] { p.~X(); }); }
        f.done();
        dirty(s.p, 64);
    }

    bool op_construct(bool move) {
        int t = pick_static(true);
        if (t < 0) return false;
        int r = pick_conv(slots[t].ti, true);
        if (r < 0 || r == t) return false;
        bool ok = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(slots[r].ti, [&](auto rr) {
                constexpr int T = decltype(tt)::value, R = decltype(rr)::value;
                if constexpr (conv_ok(R, T)) {
                    ok = true;
                    last_conv = R != T;
                    tr("destroy %s, construct from %s%s", ds(t).b, move ? "move of " : "", ds(r).b);
                    ++slots[r].busy;
                    destroy_static<T>(t);
                    --slots[r].busy;
                    if (!slots[r].used || !slots[r].live) {
                        // the source went with it
                        new (slots[t].p) sp<TT<T>>();
                        return;
                    }
                    auto& real_r = S<R>(r);
                    int g = slots[r].g;
                    void* a = conv_addr<R, T>(slots[r].addr, g, false);
                    if (move) set(slots[r], -1, nullptr);
                    else acquire(g, true);
                    set(slots[t], g, a);
                    void* at = slots[t].p;
                    if (move) api(false, "move construction", [&] { new (at) sp<TT<T>>(std::move(real_r)); });
                    else api(false, "copy construction", [&] { new (at) sp<TT<T>>(real_r); });
                }
            });
        });
        if (ok) { check_slot(t); check_slot(r); }
        return ok;
    }

    bool op_swap(bool strong) {
        int t = strong ? pick_strong() : pick_weak();
        if (t < 0) return false;
        int ti = slots[t].ti;
        int r = pick([&](const Slot& s) { return s.strong == strong && !s.storage && s.ti == ti; });
        if (r < 0) return false;
        last_conv = false;
        uint32_t how = r == t ? 0 : rng.below(3);
        tr("swap(%s, %s)%s", ds(t).b, ds(r).b, how == 2 ? " (std)" : "");
        Frame f(*this, "swap");
        f.busy(t);
        if (r != t) f.busy(r);
        std::swap(slots[t].g, slots[r].g);
        std::swap(slots[t].addr, slots[r].addr);
        with_ti(ti, [&](auto tt) {
            constexpr int T = decltype(tt)::value;
            if (strong) {
                auto &a = S<T>(t), &b = S<T>(r);
                api(false, "swap", [&] { if (how == 2) std::swap(a, b); else a.swap(b); });
            }
            else {
                auto &a = W<T>(t), &b = W<T>(r);
                api(false, "swap", [&] { if (how == 2) std::swap(a, b); else a.swap(b); });
            }
        });
        f.done();
        check_slot(t);
        check_slot(r);
        return true;
    }

    bool op_reset() {
        int t = pick_strong();
        if (t < 0) return false;
        last_conv = false;
        uint32_t how = rng.below(5);
        bool stat = slots[t].host < 0;
        if (how == 4 && !stat) how = 0;
        if (!target_ok(slots[t])) how = 0;
        tr("reset %s (%u)", ds(t).b, how);
        note_selfdoom(t, t);
        if (how == 4) {
            with_ti(slots[t].ti, [&](auto tt) {
                constexpr int T = decltype(tt)::value;
                destroy_static<T>(t);
                void* at = slots[t].p;
                bool n = rng.chance(1, 2);
                api(false, "default construction", [&] { if (n) new (at) sp<TT<T>>(nullptr); else new (at) sp<TT<T>>(); });
            });
            check_slot(t);
            return true;
        }
        Frame f(*this, "reset");
        if (how != 0) f.busy(t);    // a destructor may reset the pointer being reset
        int old = slots[t].g;
        set(slots[t], -1, nullptr);
        release(old, true);
        with_ti(slots[t].ti, [&](auto tt) {
            constexpr int T = decltype(tt)::value;
            auto& p = S<T>(t);
            if (how == 0) api(false, "reset()", [&] { p.reset(); });
            else if (how == 1) api(false, "assignment of nullptr", [&] { p = nullptr; });
            else if (how == 2) api(false, "assignment of an empty pointer", [&] { p = sp<TT<T>>(); });
            else {
                sp<TT<T>> e;
                api(false, "assignment of an empty pointer", [&] { p = e; });
            }
        });
        f.done();
        check_slot(t);
        return true;
    }

    // ---- creation
    int new_obj(int kind, int g) {
        if (nobjs >= MAXO) abort();
        Obj& o = objs[nobjs];
        o = Obj{};
        o.st = OCtor;
        o.kind = kind;
        o.g = g;
        o.nscripts = rng.chance(uint32_t(prof.scripts), 100) ? 1 + int(rng.below(3)) : 0;
        return nobjs++;
    }
    template <int K>
    KT<K>* construct_raw(int g) {
        if constexpr (K == KINT) {
            int* p = new int(42);
            groups[g].intval = p;
            return p;
        }
        else {
            int o = new_obj(K, g);
            groups[g].obj = o;
            constructing = o;
            ctor_calls = 0;
            auto p = new KT<K>;
            return p;
        }
    }
    static long fn_calls;
    template <int K>
    static void fn_deleter(KT<K>* p) {
        // function deleters carry no id: it is found by the pointer
        Eng& e = *eng<P>;
        int g = -1;
        for (int i = e.ngroups; i-- > 0;) if (e.groups[i].deleter && e.groups[i].raw == vp(p) && !e.groups[i].disposed) { g = i; break; }
        bool d = e.deleter_begin(g, vp(p));
        if (d) delete p;
        e.deleter_end(g);
    }

    bool op_create() {
        int t = pick_target();
        if (t < 0) return false;
        int ti = slots[t].ti;
        int ks[NK * 4];
        int nk = 0;
        for (int k = 0; k < NK; ++k) if (kind_ok(k, ti)) for (int w = 0; w < prof.kinds[k] && nk < NK * 4; ++w) ks[nk++] = k;
        if (!nk) return false;
        int kind = ks[rng.below(uint32_t(nk))];
        if (live_objs() > 24) return false;
        uint32_t how = rng.below(14);
        // 0 make + assign, 1 raw assign, 2 raw+deleter, 3 raw + function deleter, 4 unique assign, 5 unique with deleter,
        // 6 reset(p), 7 reset(p, d), 8 construct from raw, 9 construct from unique, 10 allocator, 11 null raw,
        // 12 for_overwrite, 13 foreign int with a no-op deleter / allocator + unique
        bool stat = slots[t].host < 0;
        if ((how == 8 || how == 9) && !stat) how = 6;
        last_conv = ti_of_kind(kind) != ti;
        int g = new_group();
        groups[g].obj = -1;
        tr("create %s kind %s how %u -> g%d", ds(t).b, ki_name[kind], how, g);
        bool res = false;
        with_ti(ti, [&](auto tt) {
            with_ki(kind, [&](auto kk) {
                constexpr int T = decltype(tt)::value, K = decltype(kk)::value;
                if constexpr (kind_ok(K, T)) {
                    create<T, K>(t, g, how);
                    res = true;
                }
            });
        });
        if (res) {
            if (groups[g].obj >= 0 && ctor_calls != 1) fail("ctor.count", "%d objects constructed instead of one", ctor_calls);
            if (slots[t].used && slots[t].live && slots[t].g == g) { learn_owner(t); check_slot(t); }
        }
        return res;
    }
    int live_objs() const {
        int n = 0;
        for (int i = 0; i < nobjs; ++i) n += objs[i].st == OAlive;
        return n;
    }

    template <int T, int K>
    void create(int t, int g, uint32_t how) {
        using U = KT<K>;
        using SP = sp<TT<T>>;
        Group& G = groups[g];
        Slot& s = slots[t];
        // in-place creation: the object's address is only known afterwards
        if (how == 0 || how == 12 || how == 10) {
            Frame f(*this, "creation");
            sp<U> tmp;
            bool dead = false;
            if constexpr (K != KINT) {
                int o = new_obj(K, g);
                G.obj = o;
                constructing = o;
                ctor_calls = 0;
            }
            if (how == 10) {
                G.arena = int(rng.below(4));
                long a0 = arenas[G.arena].allocs;
                api(true, "allocator creation", [&] { tmp = P::template alloc<U>(&arenas[G.arena]); });
                if (arenas[G.arena].allocs != a0 + 1) fail("alloc.arena", "group not allocated in one piece with the given allocator");
            }
            else if (how == 12) api(true, "for_overwrite creation", [&] { tmp = P::template make_ow<U>(); });
            else api(true, "make", [&] { tmp = P::template make<U>(); });
            if constexpr (K == KINT) G.intval = tmp.get();
            if constexpr (K == KINT) *tmp = 42;
            else if (vp(tmp.get()) != vp(static_cast<U*>(objs[G.obj].a))) fail("create.addr", "make returned another address than that of the object");
            acquire(g, true);
            // tmp is a strong pointer unknown to the slots; moved into the slot now
            (void)dead;
            f.busy(t);
            f.busyg(g);
            int old = s.g;
            void* a = conv_to<T, K>(tmp.get());
            set(s, g, a);
            release(old, true);
            auto& real = S<T>(t);
            if constexpr (P::tracking) { /* tmp is on record until it is moved from */ }
            api(false, "move assignment", [&] { real = std::move(tmp); });
            if (tmp.get() || tmp.use_count()) fail("strong.moved", "moved-from temporary is not empty");
            f.done();
            return;
        }
        if (how == 11) {
            // a null pointer is owned like any other (no deleter)
            Frame f(*this, "creation from null");
            f.busy(t);
            f.busyg(g);
            acquire(g, true);
            int old = s.g;
            set(s, g, nullptr);
            release(old, true);
            auto& real = S<T>(t);
            bool rs = rng.chance(1, 2);
            api(true, "null", [&] { if (rs) real.reset(static_cast<U*>(nullptr)); else real = SP(static_cast<U*>(nullptr)); });
            f.done();
            return;
        }
        U* p = nullptr;
        if (how == 13) {
            if constexpr (K == KINT) {
                G.deleter = true;
                G.deletes = false;
                p = &dummyInt[0];
                G.intval = p;
            }
        }
        if (!p) {
            bool was = g_am.on;
            g_am.on = true;
            p = construct_raw<K>(g);
            g_am.on = was;
        }
        G.raw = vp(p);
        if (how == 2 || how == 3 || how == 5 || how == 7) G.deleter = true;
        bool rebuild = how == 8 || how == 9;
        if (rebuild) {
            destroy_static<T>(t);
        }
        Frame f(*this, "creation");
        f.busy(t);
        f.busyg(g);
        acquire(g, true);
        int old = s.g;
        set(s, g, conv_to<T, K>(p));
        release(old, true);
        auto& real = S<T>(t);
        void* at = s.p;
        using UP = typename P::template up<U>;
        using DU = Del<P, U>;
        using UPD = typename P::template up<U, DU>;
        switch (how) {
        case 1: api(true, "raw", [&] { real = SP(p); }); break;
        case 2: api(true, "raw+deleter", [&] { real = SP(p, DU(g)); }); break;
        case 3: api(true, "raw+function", [&] { real = SP(p, &fn_deleter<K>); }); break;
        case 4: {
            UP u(p);
            api(true, "unique", [&] { real = std::move(u); });
            if (u.get()) fail("unique.moved", "unique pointer converted to shared still holds the object");
            break;
        }
        case 5: {
            UPD u(p, DU(g));
            api(true, "unique+deleter", [&] { real = std::move(u); });
            if (u.get()) fail("unique.moved", "unique pointer converted to shared still holds the object");
            break;
        }
        case 6: api(true, "reset(p)", [&] { real.reset(p); }); break;
        case 7: api(true, "reset(p,d)", [&] { real.reset(p, DU(g)); }); break;
        case 8: api(true, "raw", [&] { new (at) SP(p); }); break;
        case 9: {
            UP u(p);
            api(true, "unique", [&] { new (at) SP(std::move(u)); });
            if (u.get()) fail("unique.moved", "unique pointer converted to shared still holds the object");
            break;
        }
        default: {
            if (G.deleter) api(true, "raw+deleter", [&] { real = SP(p, DU(g)); });
            else {
                UP u(p);
                G.arena = int(rng.below(4));
                api(true, "allocator+unique", [&] { real = P::template alloc_uptr<U>(&arenas[G.arena], std::move(u)); });
            }
        }
        }
        f.done();
    }
    template <int T, int K>
    void* conv_to(KT<K>* p) {
        TT<T>* t = p;
        return vp(t);
    }

    bool op_alias() {
        int t = pick_target();
        if (t < 0) return false;
        int o = pick_owner();
        if (o < 0) return false;
        int ot = slots[o].ti;
        if (ot == TB || ot == TV || ot == TE) return false;  // fewer instantiations
        bool ok = false;
        last_conv = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(ot, [&](auto oo) {
                constexpr int T = decltype(tt)::value, O = decltype(oo)::value;
                if constexpr (O == TA || O == TD || O == TVOID || O == TF || O == TINT || O == TCA) {
                    ok = true;
                    int g = slots[o].g;
                    void* a = alias_addr<T>(g);
                    bool helper = rng.chance(1, 2);
                    uint32_t how = rng.below(2);
                    bool stat = slots[t].host < 0 && t != o;
                    if (!stat) how = 0;
                    tr("%s = %s(%s, %p)", ds(t).b, helper ? "make_aliased" : "alias", ds(o).b, a);
                    TT<T>* ap = static_cast<TT<T>*>(a);
                    int mg = g;
                    void* ma = a;
                    if (helper && g < 0) ma = nullptr;
                    if (how == 1) {
                        ++slots[o].busy;
                        destroy_static<T>(t);
                        --slots[o].busy;
                        if (!slots[o].used || !slots[o].live || slots[o].g != g) { new (slots[t].p) sp<TT<T>>(); return; }
                        auto& own = S<O>(o);
                        // the object may have been destroyed meanwhile only if nothing owns it
                        acquire(mg, true);
                        set(slots[t], mg, ma);
                        void* at = slots[t].p;
                        api(false, "aliasing construction", [&] {
                            if (helper) new (at) sp<TT<T>>(P::make_aliased(own, ap));
                            else new (at) sp<TT<T>>(own, ap);
                        });
                        return;
                    }
                    auto& own = S<O>(o);
                    auto& real = S<T>(t);
                    Frame f(*this, "alias");
                    f.busy(t);
                    if (o != t) f.busy(o);
                    f.busyg(g);
                    assign(slots[t], mg, ma);
                    note_selfdoom(t, o);
                    api(false, "alias", [&] {
                        if (helper) real = P::make_aliased(own, ap);
                        else real = sp<TT<T>>(own, ap);
                    });
                    f.done();
                }
            });
        });
        if (ok) { check_slot(t); check_slot(o); }
        return ok;
    }

    bool op_lock() {
        int t = pick_target();
        if (t < 0) return false;
        int w = pick_conv(slots[t].ti, false);
        if (w < 0) return false;
        bool ok = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(slots[w].ti, [&](auto ww) {
                constexpr int T = decltype(tt)::value, R = decltype(ww)::value;
                if constexpr (conv_ok(R, T)) {
                    ok = true;
                    last_conv = T != R;
                    int g = slots[w].g;
                    bool alive = g >= 0 && groups[g].strong > 0;
                    tr("%s = %s.lock() [%s]", ds(t).b, ds(w).b, alive ? "alive" : "dead");
                    auto& weak = W<R>(w);
                    auto& real = S<T>(t);
                    Frame f(*this, "lock");
                    f.busy(t);
                    f.busy(w);
                    int ng = alive ? g : -1;
                    void* a = alive ? conv_addr<R, T>(slots[w].addr, g, false) : nullptr;
                    f.busyg(ng);
                    assign(slots[t], ng, a);
                    if (alive) ++n_lock_ok; else ++n_lock_fail;
                    api(false, "lock", [&] { real = weak.lock(); });
                    f.done();
                }
            });
        });
        if (ok) check_slot(t);
        return ok;
    }

    bool op_cast() {
        int r = pick_owner();
        if (r < 0) return false;
        int from = slots[r].ti;
        int g = slots[r].g;
        // (from, to, kind)
        struct C { int from, to; char how; };
        static const C cs[] = {{TA, TD, 's'}, {TA, TD, 'd'}, {TA, TE, 's'}, {TA, TE, 'd'}, {TA, TF, 's'}, {TA, TF, 'd'}, {TCA, TA, 'c'}, {TA, TCA, 'c'},
            {TB, TD, 's'}, {TV, TA, 'd'}, {TA, TV, 'd'}, {TV, TE, 'd'}, {TVOID, TINT, 's'}, {TA, TINT, 'r'}, {TINT, TA, 'r'}, {TD, TB, 's'}, {TF, TA, 's'}, {TA, TA, 'd'}, {TD, TA, 'd'}, {TE, TV, 'd'}};
        int c[32];
        int nc = 0;
        for (int i = 0; i < int(sizeof cs / sizeof *cs); ++i) if (cs[i].from == from) c[nc++] = i;
        if (!nc) return false;
        C cc = cs[c[rng.below(uint32_t(nc))]];
        int t = pick([&](const Slot& s) { return target_ok(s) && s.ti == cc.to; });
        if (t < 0 || t == r) return false;
        bool ok = false;
        last_conv = true;
        tr("%s = %c_cast(%s)", ds(t).b, cc.how, ds(r).b);
        auto go = [&](auto ff, auto tt, auto hh) {
            constexpr int R = decltype(ff)::value, T = decltype(tt)::value;
            constexpr char H = char(decltype(hh)::value);
            if (cc.from != R || cc.to != T || cc.how != H || ok) return;
            TT<R>* raw = static_cast<TT<R>*>(slots[r].addr);
            TT<T>* want = nullptr;
            // is the stored pointer one of an object which really has the target type?
            if constexpr (H == 's' && R != TVOID) {
                bool real = !raw;
                if (raw) {
                    if (raw == static_cast<TT<R>*>(static_cast<void*>(nullptr))) real = true;
                    if (vp(raw) == dummy_as<R, T>()) real = true;
                    if (g >= 0 && groups[g].strong > 0 && groups[g].obj >= 0 && obj_addr<T>(g) && obj_addr<R>(g) == vp(raw)) real = true;
                }
                if (!real) return;
            }
            if constexpr (H == 'd') {
                if (raw && g < 0) {
                    // un-owned alias: the address must be that of a live object
                    if (!is_dummy(vp(raw))) return;
                }
            }
            if constexpr (H == 's') want = static_cast<TT<T>*>(raw);
            else if constexpr (H == 'd') want = dynamic_cast<TT<T>*>(raw);
            else if constexpr (H == 'c') want = const_cast<TT<T>*>(raw);
            else want = reinterpret_cast<TT<T>*>(raw);
            ok = true;
            auto& src = S<R>(r);
            auto& real_t = S<T>(t);
            Frame f(*this, "pointer cast");
            f.busy(t);
            f.busy(r);
            // a cast of a pointer without an owner gives an empty pointer, as does a failed dynamic cast
            int ng = g;
            void* a = vp(want);
            if (g < 0) a = P::is_std ? a : nullptr;
            if (H == 'd' && !want) { ng = -1; a = nullptr; }
            f.busyg(ng);
            assign(slots[t], ng, a);
            api(false, "pointer cast", [&] {
                if constexpr (H == 's') real_t = P::template static_cast_<TT<T>>(src);
                else if constexpr (H == 'd') real_t = P::template dynamic_cast_<TT<T>>(src);
                else if constexpr (H == 'c') real_t = P::template const_cast_<TT<T>>(src);
                else real_t = P::template reinterpret_cast_<TT<T>>(src);
            });
            f.done();
        };
        if (P::is_std || prof.portable) if (g < 0) return false;
        go(ic<TA>{}, ic<TD>{}, ic<'s'>{}); go(ic<TA>{}, ic<TD>{}, ic<'d'>{});
        go(ic<TA>{}, ic<TE>{}, ic<'s'>{}); go(ic<TA>{}, ic<TE>{}, ic<'d'>{});
        go(ic<TA>{}, ic<TF>{}, ic<'s'>{}); go(ic<TA>{}, ic<TF>{}, ic<'d'>{});
        go(ic<TCA>{}, ic<TA>{}, ic<'c'>{}); go(ic<TA>{}, ic<TCA>{}, ic<'c'>{});
        go(ic<TB>{}, ic<TD>{}, ic<'s'>{}); go(ic<TV>{}, ic<TA>{}, ic<'d'>{});
        go(ic<TA>{}, ic<TV>{}, ic<'d'>{}); go(ic<TV>{}, ic<TE>{}, ic<'d'>{});
        go(ic<TVOID>{}, ic<TINT>{}, ic<'s'>{});
        go(ic<TD>{}, ic<TB>{}, ic<'s'>{}); go(ic<TF>{}, ic<TA>{}, ic<'s'>{}); go(ic<TA>{}, ic<TA>{}, ic<'d'>{});
        go(ic<TD>{}, ic<TA>{}, ic<'d'>{}); go(ic<TE>{}, ic<TV>{}, ic<'d'>{});
        if (ok) { check_slot(t); check_slot(r); }
        return ok;
    }
    template <int R, int T>
    void* dummy_as() {
        if constexpr (T == TD && (R == TA || R == TB)) return vp(static_cast<TT<R>*>(dummyD));
        else if constexpr (T == TE && R == TA) return vp(static_cast<TT<R>*>(dummyE));
        else if constexpr (T == TF && R == TA) return vp(static_cast<TT<R>*>(dummyF));
        else if constexpr (R == TD) return vp(dummyD);
        else if constexpr (R == TF) return vp(dummyF);
        else return nullptr;
    }
    bool is_dummy(void* p) {
        return p == vp(dummyA) || p == vp(static_cast<A_<P>*>(dummyD)) || p == vp(static_cast<V_<P>*>(dummyE)) || p == vp(static_cast<A_<P>*>(dummyE)) ||
            p == vp(static_cast<A_<P>*>(dummyF));
    }

    bool op_self() {
        bool strong = rng.chance(2, 3);
        int t = strong ? pick_strong() : pick_weak();
        if (t < 0) return false;
        uint32_t how = rng.below(3);
        last_conv = false;
        static const char* const hn[] = {"self-assign", "self-move", "self-swap"};
        tr("%s %s", hn[how], ds(t).b);
        Frame f(*this, hn[how]);
        f.busy(t);
        with_ti(slots[t].ti, [&](auto tt) {
            constexpr int T = decltype(tt)::value;
            auto go = [&](auto& a) {
                auto& b = *launder(&a);
                api(false, hn[how], [&] { if (how == 0) a = b; else if (how == 1) a = std::move(b); else a.swap(b); });
            };
            if (strong) go(S<T>(t)); else go(W<T>(t));
        });
        f.done();
        check_slot(t);
        return true;
    }
    template <typename X>
    static X* launder(X* p) {
        __asm__ volatile("" : "+r"(p));
        return p;
    }

    bool op_temp() {
        int r = pick_owner();
        if (r < 0) return false;
        int g = slots[r].g;
        if (slots[r].host >= 0 && g >= 0 && groups[g].strong == 1 && false) return false;
        last_conv = false;
        uint32_t how = rng.below(4);
        tr("temporary (%u) of %s", how, ds(r).b);
        with_ti(slots[r].ti, [&](auto rr) {
            constexpr int R = decltype(rr)::value;
            auto& p = S<R>(r);
            using SP = sp<TT<R>>;
            long want = g < 0 ? 0 : groups[g].strong;
            bool cnt = g < 0 || !groups[g].busy;
            if (how == 0) {
                api(false, "temporary copy", [&] {
                    SP t(p);
                    if (t.get() != p.get()) fail("strong.get", "a copy differs from its source");
                    if (cnt && g >= 0 && (t.use_count() != want + 1 || p.use_count() != want + 1)) fail("strong.count", "use_count %ld with %ld owners", t.use_count(), want + 1);
                });
            }
            else if (how == 1) {
                ++slots[r].busy;
                api(false, "move there and back", [&] {
                    SP t(std::move(p));
                    if (p.get() || p.use_count()) fail("strong.moved", "%s not empty after being moved from", ds(r).b);
                    if (cnt && t.use_count() != want) fail("strong.count", "a move changed use_count from %ld to %ld", want, t.use_count());
                    p = std::move(t);
                    if (t.get() || t.use_count()) fail("strong.moved", "temporary not empty after being moved from");
                });
                --slots[r].busy;
            }
            else if (how == 2) {
                api(false, "weak temporary", [&] {
                    wp<TT<R>> w(p);
                    wp<TT<R>> w2(w), w3(std::move(w));
                    w = w3;
                    if (cnt && w.use_count() != want) fail("weak.count", "weak use_count %ld with %ld owners", w.use_count(), want);
                    if (g >= 0) {
                        auto l = w2.lock();
                        if (l.get() != p.get()) fail("weak.lock", "lock of a temporary weak pointer gives another address");
                    }
                });
            }
            else {
                api(false, "pass by value", [&] {
                    auto id = [](SP x) { return x; };
                    SP t = id(id(p));
                    if (t.get() != p.get()) fail("strong.get", "a copy differs from its source");
                    if (cnt && g >= 0 && t.use_count() != want + 1) fail("strong.count", "use_count %ld with %ld owners", t.use_count(), want + 1);
                    if (!P::same_owner(t, p)) fail("strong.owner", "a copy has another owner");
                });
            }
        });
        check_slot(r);
        return true;
    }

    // ---- weak
    bool op_weak_assign(bool move, bool construct) {
        int t = construct ? pick_static(false) : pick_weak();
        if (t < 0) return false;
        int r = pick_conv(slots[t].ti, false);
        if (r < 0 || r == t) return false;
        bool ok = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(slots[r].ti, [&](auto rr) {
                constexpr int T = decltype(tt)::value, R = decltype(rr)::value;
                if constexpr (conv_ok(R, T)) {
                    ok = true;
                    last_conv = R != T;
                    tr("%s %s %s%s", ds(t).b, construct ? "constructed from" : "=", move ? "move of " : "", ds(r).b);
                    if (construct) destroy_static<T>(t);
                    Frame f(*this, "weak assignment");
                    f.busy(t);
                    f.busy(r);
                    int g = slots[r].g;
                    void* a = conv_addr<R, T>(slots[r].addr, g, true);
                    auto& rs = W<R>(r);
                    auto& rt = W<T>(t);
                    void* at = slots[t].p;
                    using WP = wp<TT<T>>;
                    if (move) {
                        int old = slots[t].g;
                        set(slots[t], g, a);
                        set(slots[r], -1, nullptr);
                        if (!construct) release(old, false);
                        api(false, "weak move", [&] { if (construct) new (at) WP(std::move(rs)); else rt = std::move(rs); });
                    }
                    else {
                        if (construct) { acquire(g, false); set(slots[t], g, a); }
                        else assign(slots[t], g, a);
                        api(false, "weak copy", [&] { if (construct) new (at) WP(rs); else rt = rs; });
                    }
                    f.done();
                }
            });
        });
        if (ok) { check_slot(t); check_slot(r); }
        return ok;
    }
    bool op_weak_from_strong() {
        bool construct = rng.chance(1, 3);
        int t = construct ? pick_static(false) : pick_weak();
        if (t < 0) return false;
        int r = pick_conv(slots[t].ti, true);
        if (r < 0) return false;
        bool ok = false;
        with_ti(slots[t].ti, [&](auto tt) {
            with_ti(slots[r].ti, [&](auto rr) {
                constexpr int T = decltype(tt)::value, R = decltype(rr)::value;
                if constexpr (conv_ok(R, T)) {
                    ok = true;
                    last_conv = R != T;
                    tr("%s %s %s", ds(t).b, construct ? "constructed from" : "=", ds(r).b);
                    if (construct) destroy_static<T>(t);
                    Frame f(*this, "weak from strong");
                    f.busy(t);
                    f.busy(r);
                    int g = slots[r].g;
                    void* a = conv_addr<R, T>(slots[r].addr, g, false);
                    if (g < 0) a = nullptr;     // nothing to observe
                    auto& rs = S<R>(r);
                    auto& rt = W<T>(t);
                    void* at = slots[t].p;
                    using WP = wp<TT<T>>;
                    if (construct) { acquire(g, false); set(slots[t], g, a); }
                    else assign(slots[t], g, a);
                    api(false, "weak from strong", [&] { if (construct) new (at) WP(rs); else rt = rs; });
                    f.done();
                }
            });
        });
        if (ok) { check_slot(t); check_slot(r); }
        return ok;
    }
    bool op_weak_reset() {
        int t = pick_weak();
        if (t < 0) return false;
        last_conv = false;
        uint32_t how = rng.below(3);
        if (slots[t].host >= 0 && how == 2) how = 0;
        tr("reset %s (%u)", ds(t).b, how);
        with_ti(slots[t].ti, [&](auto tt) {
            constexpr int T = decltype(tt)::value;
            using WP = wp<TT<T>>;
            if (how == 2) {
                destroy_static<T>(t);
                new (slots[t].p) WP();
                return;
            }
            Frame f(*this, "weak reset");
            f.busy(t);
            int old = slots[t].g;
            set(slots[t], -1, nullptr);
            release(old, false);
            auto& p = W<T>(t);
            if (how == 0) api(false, "weak reset", [&] { p.reset(); });
            else api(false, "weak assign empty", [&] { p = WP(); });
            f.done();
        });
        check_slot(t);
        return true;
    }
    bool op_weak_alias() {
        if constexpr (P::is_std) return false;
        else {
            if (prof.portable) return false;
            bool construct = rng.chance(1, 3);
            int t = construct ? pick_static(false) : pick_weak();
            if (t < 0) return false;
            bool from_strong = rng.chance(1, 2);
            int o = from_strong ? pick_owner() : pick_weak();
            if (o < 0 || o == t) return false;
            bool ok = false;
            last_conv = false;
            with_ti(slots[t].ti, [&](auto tt) {
                with_ti(slots[o].ti, [&](auto oo) {
                    constexpr int T = decltype(tt)::value, O = decltype(oo)::value;
                    if constexpr (O == TA || O == TVOID || O == TF || O == TINT || O == TCA) {
                        ok = true;
                        int g = slots[o].g;
                        void* a = alias_addr<T>(g);
                        TT<T>* ap = static_cast<TT<T>*>(a);
                        tr("%s %s alias(%s, %p)", ds(t).b, construct ? "constructed as" : "=", ds(o).b, a);
                        if (construct) destroy_static<T>(t);
                        Frame f(*this, "weak alias");
                        f.busy(t);
                        f.busy(o);
                        using WP = wp<TT<T>>;
                        if (construct) { acquire(g, false); set(slots[t], g, a); }
                        else assign(slots[t], g, a);
                        auto& rt = W<T>(t);
                        void* at = slots[t].p;
                        auto go = [&](auto& src) {
                            api(false, "weak alias", [&] { if (construct) new (at) WP(src, ap); else rt = WP(src, ap); });
                        };
                        if (from_strong) go(S<O>(o)); else go(W<O>(o));
                        f.done();
                    }
                });
            });
            if (ok) { check_slot(t); check_slot(o); }
            return ok;
        }
    }

    // ---- shared_from
    bool op_shared_from() {
        // an object of kind F, alive or dying (or a dummy, which nothing owns)
        int c[MAXO];
        int n = 0;
        for (int i = 0; i < nobjs; ++i) if (objs[i].kind == KF && (objs[i].st == OAlive || objs[i].in_body)) c[n++] = i;
        int oi = -1;
        F_<P>* f = dummyF;
        if (n && rng.below(6)) {
            oi = c[rng.below(uint32_t(n))];
            f = static_cast<F_<P>*>(objs[oi].a);
        }
        int g = oi < 0 ? -1 : objs[oi].g;
        bool owned = g >= 0 && groups[g].strong > 0;
        ++n_sfrom;
        if (!owned) ++n_sfrom_empty;
        uint32_t how = rng.below(P::is_std ? 2 : 6);
        if (P::is_std && !owned) how = 1;
        if (prof.portable) how = rng.below(2);
        if (prof.portable && !owned) how = 1;
        last_conv = false;
        tr("shared_from (%u) on object #%d (%s)", how, oi, owned ? "owned" : "not owned");
        if (how == 0 || how == 2 || how == 3) {
            int want_ti = how == 0 ? TF : how == 2 ? TINT : TA;
            int t = pick([&](const Slot& s) { return target_ok(s) && s.ti == want_ti; });
            if (t < 0) return false;
            Frame fr(*this, "shared_from");
            fr.busy(t);
            fr.busyg(g);
            int ng = owned ? g : -1;
            if (how == 0) {
                auto& real = S<TF>(t);
                assign(slots[t], ng, owned ? vp(f) : nullptr);
                if constexpr (P::is_std) api(false, "shared_from_this", [&] { real = f->shared_from_this(); });
                else api(false, "shared_from_this", [&] {
                    auto s2 = const_cast<const F_<P>*>(f)->shared_from_this();
                    static_assert(std::is_same_v<decltype(s2), sp<const F_<P>>>);
                    if (vp(s2.get()) != (owned ? vp(f) : nullptr)) fail("sfrom.get", "const shared_from_this gives a wrong pointer");
                    s2.reset();
                    real = f->shared_from_this();
                });
            }
            else if constexpr (!P::is_std) {
                if (how == 2) {
                    auto& real = S<TINT>(t);
                    assign(slots[t], ng, owned ? vp(&f->id) : nullptr);
                    api(false, "shared_from", [&] { real = f->xshared_from(&f->id); });
                }
                else {
                    auto& real = S<TA>(t);
                    A_<P>* ap = f;
                    assign(slots[t], ng, owned ? vp(ap) : nullptr);
                    api(false, "shared_from", [&] { real = f->xshared_from(ap); });
                }
            }
            fr.done();
            check_sfrom(t, ng);
        }
        else {
            int want_ti = how == 1 ? TF : how == 4 ? TINT : TA;
            int t = pick([&](const Slot& s) { return !s.strong && s.ti == want_ti; });
            if (t < 0) return false;
            Frame fr(*this, "weak_from");
            fr.busy(t);
            // a weak pointer from an object being destroyed refers to its expired group
            if (how == 1) {
                auto& real = W<TF>(t);
                assign(slots[t], g, vp(f));
                api(false, "weak_from_this", [&] { real = f->weak_from_this(); });
            }
            else if constexpr (!P::is_std) {
                if (how == 4) {
                    auto& real = W<TINT>(t);
                    assign(slots[t], g, vp(&f->id));
                    api(false, "weak_from", [&] { real = f->xweak_from(&f->id); });
                }
                else {
                    auto& real = W<TA>(t);
                    A_<P>* ap = f;
                    assign(slots[t], g, vp(ap));
                    api(false, "weak_from", [&] { real = f->xweak_from(ap); });
                }
            }
            fr.done();
            // whether a pointer taken while the object is being destroyed refers to the dying
            // group or is empty is up to the implementation: both are expired
            if (g >= 0 && !owned) adopt_weak(t);
            check_sfrom(t, slots[t].g);
        }
        return true;
    }
    void adopt_weak(int t) {
        {
            if (!slots[t].used || !slots[t].live) return;
            with_ti(slots[t].ti, [&](auto tt) {
                constexpr int T = decltype(tt)::value;
                if (P::no_owner(W<T>(t))) {
                    release(slots[t].g, false);
                    set(slots[t], -1, nullptr);
                }
            });
        }
    }
    void check_sfrom(int t, int g) {
        if (!slots[t].used || !slots[t].live || slots[t].busy) return;
        if constexpr (!P::is_std) {
            with_ti(slots[t].ti, [&](auto tt) {
                constexpr int T = decltype(tt)::value;
                const void* o = slots[t].strong ? S<T>(t).owner() : W<T>(t).owner();
                const void* w = g >= 0 ? groups[g].owner : nullptr;
                if (g >= 0 && !w) return;
                if (o != w) fail("sfrom.owner", "shared_from gave a pointer with another ownership group (%p instead of %p)", o, w);
                if (slots[t].strong && vp(S<T>(t).get()) != slots[t].addr) fail("sfrom.get", "shared_from gave a wrong address");
                if (g >= 0 && !groups[g].busy) {
                    long n = slots[t].strong ? S<T>(t).use_count() : W<T>(t).use_count();
                    if (n != groups[g].strong) fail("sfrom.count", "use_count %ld after shared_from, owners %d", n, groups[g].strong);
                }
            });
        }
        check_slot(t);
    }

    // ---- storage
    int storage_slot() { return pick([](const Slot& s) { return s.storage; }); }
    bool op_storage() {
        int st = storage_slot();
        if (st < 0) return false;
        uint32_t how = rng.below(5);
        Store& real = ST(st);
        last_conv = false;
        if (how == 0) {
            int r = pick_conv(TA, true);
            if (r < 0) return false;
            with_ti(slots[r].ti, [&](auto rr) {
                constexpr int R = decltype(rr)::value;
                if constexpr (conv_ok(R, TA)) {
                    bool move = rng.chance(1, 3);
                    tr("store %s%s", ds(r).b, move ? " (move)" : "");
                    count(O_SST);
                    Frame f(*this, "store");
                    f.busy(r);
                    int g = slots[r].g;
                    void* a = conv_addr<R, TA>(slots[r].addr, g, false);
                    f.busyg(g);
                    auto& src = S<R>(r);
                    if (move) {
                        int old = slots[st].g;
                        set(slots[st], g, a);
                        set(slots[r], -1, nullptr);
                        release(old, true);
                        api(false, "store", [&] { real.store(std::move(src)); });
                    }
                    else {
                        assign(slots[st], g, a);
                        api(false, "store", [&] { real.store(src); });
                    }
                    f.done();
                }
            });
        }
        else if (how == 1) {
            int t = pick([&](const Slot& s) { return target_ok(s) && s.ti == TA; });
            if (t < 0) return false;
            tr("%s = load", ds(t).b);
            count(O_SLD);
            Frame f(*this, "load");
            f.busy(t);
            f.busyg(slots[st].g);
            assign(slots[t], slots[st].g, slots[st].addr);
            auto& p = S<TA>(t);
            api(false, "load", [&] { p = real.load(); });
            f.done();
            storage_result(t);
        }
        else if (how == 2) {
            int t = pick([&](const Slot& s) { return target_ok(s) && s.ti == TA; });
            int r = pick([](const Slot& s) { return s.strong && !s.storage && s.ti == TA; });
            if (t < 0 || r < 0) return false;
            tr("%s = exchange(%s)", ds(t).b, ds(r).b);
            count(O_SEX);
            Frame f(*this, "exchange");
            f.busy(t);
            if (r != t) f.busy(r);
            int g = slots[st].g;
            void* a = slots[st].addr;
            int rg = slots[r].g;
            void* ra = slots[r].addr;
            f.busyg(g);
            f.busyg(rg);
            // copy of r goes in, what was in comes out and replaces t's value
            acquire(rg, true);
            set(slots[st], rg, ra);
            int old = slots[t].g;
            set(slots[t], g, a);
            release(old, true);
            auto& p = S<TA>(t);
            auto& q = S<TA>(r);
            api(false, "exchange", [&] { p = real.exchange(q); });
            f.done();
            storage_result(t);
        }
        else if (how == 3) {
            int e = pick([&](const Slot& s) { return target_ok(s) && s.ti == TA; });
            int d = pick([](const Slot& s) { return s.strong && !s.storage && s.ti == TA; });
            if (e < 0 || d < 0) return false;
            // same address, different owners: whether that is a match is not prescribed, but the outcome must be one or the other
            if (slots[e].addr == slots[st].addr && slots[e].g != slots[st].g) {
                auto lasts = [&](int g) { return g < 0 || (groups[g].strong > 2 && !groups[g].busy); };
                if (prof.portable || !lasts(slots[e].g) || !lasts(slots[st].g) || !lasts(slots[d].g)) return false;
                tr("cas(%s, %s) [same address, other owner]", ds(e).b, ds(d).b);
                count(O_SCX);
                bool res = false;
                auto& pe = S<TA>(e);
                auto& pd = S<TA>(d);
                {
                    Frame f(*this, "compare_exchange");
                    f.busy(e);
                    if (d != e) f.busy(d);
                    f.busyg(slots[e].g);
                    f.busyg(slots[d].g);
                    f.busyg(slots[st].g);
                    api(false, "compare_exchange", [&] { res = real.compare_exchange(pe, pd); });
                    if (res) assign(slots[st], slots[d].g, slots[d].addr);
                    else assign(slots[e], slots[st].g, slots[st].addr);
                    f.done();
                }
                tr("  -> %d", int(res));
                ++n_casother;
                storage_result(e);
                check_slot(d);
                return true;
            }
            bool match = slots[e].addr == slots[st].addr;
            // (when the by-value argument of a failed call is released is not prescribed)
            if (!match && slots[d].host >= 0) return false;
            tr("cas(%s, %s) [%s]", ds(e).b, ds(d).b, match ? "match" : "mismatch");
            count(O_SCX);
            Frame f(*this, "compare_exchange");
            auto& pe = S<TA>(e);
            auto& pd = S<TA>(d);
            bool res = false;
            f.busy(e);
            if (d != e) f.busy(d);
            f.busyg(slots[d].g);
            f.busyg(slots[st].g);
            if (match) {
                assign(slots[st], slots[d].g, slots[d].addr);
            }
            else assign(slots[e], slots[st].g, slots[st].addr);
            api(false, "compare_exchange", [&] { res = real.compare_exchange(pe, pd); });
            f.done();
            if (prof.portable) observe("compare_exchange", e, res, 0, 0);
            if (res != match) fail("storage.cas", "compare_exchange returned %d, must return %d", int(res), int(match));
            storage_result(e);
        }
        else {
            tr("peek");
            count(O_SLD);
            api(false, "load", [&] {
                auto p = real.load();
                if (vp(p.get()) != slots[st].addr) fail("storage.load", "load gives %p, the slot holds %p", vp(p.get()), slots[st].addr);
                int g = slots[st].g;
                if (g >= 0 && !groups[g].busy && p.use_count() != groups[g].strong + 1) fail("storage.count", "use_count %ld of a loaded pointer, owners %d", p.use_count(), groups[g].strong + 1);
                if constexpr (!P::is_std) if (g >= 0 && groups[g].owner && p.owner() != groups[g].owner) fail("storage.load", "load gives another owner");
            });
        }
        return true;
    }
    void storage_result(int t) {
        if (!slots[t].used || !slots[t].live || slots[t].busy) return;
        if (vp(S<TA>(t).get()) != slots[t].addr) fail("storage.value", "storage operation handed out %p instead of %p", vp(S<TA>(t).get()), slots[t].addr);
        check_slot(t);
    }

    // ---- comparisons
    bool op_compare() {
        int x = pick([](const Slot& s) { return !s.storage; });
        int y = pick([](const Slot& s) { return !s.storage; });
        int z = pick([](const Slot& s) { return !s.storage; });
        if (x < 0 || y < 0 || z < 0) return false;
        ++n_cmp;
        bool same = slots[x].g == slots[y].g;
        with_any(x, [&](auto& a) {
            with_any(y, [&](auto& b) {
                if (P::same_owner(a, b) != same) fail("cmp.same_owner", "same_owner(%s, %s) is %d", ds(x).b, ds(y).b, int(!same));
                if (P::same_owner(b, a) != same) fail("cmp.same_owner", "same_owner(%s, %s) is %d", ds(y).b, ds(x).b, int(!same));
            });
        });
        int xy = ob(x, y), yx = ob(y, x);
        if (xy >= 0 && yx >= 0) {
            if (xy && yx) fail("cmp.owner_before", "owner_before holds both ways between %s and %s", ds(x).b, ds(y).b);
            if ((!xy && !yx) != same) fail("cmp.owner_before", "owner equivalence of %s and %s is wrong", ds(x).b, ds(y).b);
            int yz = ob(y, z), xz = ob(x, z);
            if (yz >= 0 && xz >= 0 && xy && yz && !xz) fail("cmp.owner_before", "owner_before is not transitive");
            int zy = ob(z, y), zx = ob(z, x);
            if (zy >= 0 && zx >= 0 && !xy && !yx && !yz && !zy && (xz || zx)) fail("cmp.owner_before", "owner equivalence is not transitive");
        }
        else if (xy >= 0 && same && xy) fail("cmp.owner_before", "owner_before holds between %s and %s which have the same owner", ds(x).b, ds(y).b);
        if (slots[x].strong && slots[y].strong) compare_values(x, y);
        return true;
    }
    template <typename F>
    void with_any(int s, F f) {
        with_ti(slots[s].ti, [&](auto t) {
            constexpr int T = decltype(t)::value;
            // fewer instantiations
            if constexpr (T == TA || T == TVOID || T == TD || T == TF || T == TINT) {
                if (slots[s].strong) f(S<T>(s));
                else f(W<T>(s));
            }
        });
    }
    // 1/0, or -1 if there is no such comparison
    template <typename X, typename Y, typename = void> struct has_ob : std::false_type {};
    template <typename X, typename Y> struct has_ob<X, Y, std::void_t<decltype(std::declval<const X&>().owner_before(std::declval<const Y&>()))>> : std::true_type {};
    int ob(int x, int y) {
        int r = -1;
        with_any(x, [&](auto& a) {
            with_any(y, [&](auto& b) {
                using X = std::decay_t<decltype(a)>;
                using Y = std::decay_t<decltype(b)>;
                if constexpr (has_ob<X, Y>::value) r = a.owner_before(b);
            });
        });
        return r;
    }
    static constexpr bool comparable(int a, int b) {
        if (a == b) return true;
        if ((a == TA && b == TCA) || (a == TCA && b == TA)) return true;
        if ((a == TD && (b == TA || b == TB || b == TCA)) || (b == TD && (a == TA || a == TB || a == TCA))) return true;
        if ((a == TF && b == TA) || (b == TF && a == TA)) return true;
        if ((a == TVOID && b != TCA) || (b == TVOID && a != TCA)) return true;
        return false;
    }
    void compare_values(int x, int y) {
        with_ti(slots[x].ti, [&](auto xx) {
            with_ti(slots[y].ti, [&](auto yy) {
                constexpr int X = decltype(xx)::value, Y = decltype(yy)::value;
                if constexpr (comparable(X, Y)) {
                    auto &a = S<X>(x);
                    auto &b = S<Y>(y);
                    TT<X>* ra = static_cast<TT<X>*>(slots[x].addr);
                    TT<Y>* rb = static_cast<TT<Y>*>(slots[y].addr);
                    bool eq = ra == rb, lt = ra < rb;
                    bool gt = ra > rb;
                    if (prof.portable) observe("comparison", x, y, (a == b) + 2 * (a != b), ((a <= b) == !(a > b)) + 2 * ((a >= b) == !(a < b)) + 4 * (((a < b) != (a > b)) == (a != b)));
                    if ((a == b) != eq || (a != b) == eq) fail("cmp.eq", "(in)equality of %s and %s is wrong", ds(x).b, ds(y).b);
                    if ((a < b) != lt || (a > b) != gt || (a <= b) != (lt || eq) || (a >= b) != (gt || eq))
                        fail("cmp.rel", "relational comparison of %s and %s is wrong", ds(x).b, ds(y).b);
                }
            });
        });
    }

    bool op_bulk() {
        int r = pick_owner();
        if (r < 0 || slots[r].g < 0) return false;
        int g = slots[r].g;
        if (groups[g].busy) return false;
        int n = rng.chance(1, 3) ? 70000 : 300 + int(rng.below(600));
        bool weak = rng.chance(1, 2);
        tr("bulk %d %s of %s", n, weak ? "weak" : "strong", ds(r).b);
        with_ti(slots[r].ti, [&](auto rr) {
            constexpr int R = decltype(rr)::value;
            using SP = sp<TT<R>>;
            using WP = wp<TT<R>>;
            auto& p = S<R>(r);
            long base = groups[g].strong;
            if (weak) {
                WP* v = static_cast<WP*>(malloc(sizeof(WP) * size_t(n)));
                for (int i = 0; i < n; ++i) { if (i && (i & 1)) new (v + i) WP(v[i - 1]); else new (v + i) WP(p); }
                if (v[n - 1].use_count() != base || p.use_count() != base) fail("weak.count", "use_count %ld with %ld owners and %d weak pointers", p.use_count(), base, n);
                check_groups_of(g);
                for (int i = 0; i < n; ++i) v[i].~WP();
                free(v);
            }
            else {
                SP* v = static_cast<SP*>(malloc(sizeof(SP) * size_t(n)));
                for (int i = 0; i < n; ++i) { if (i && (i & 1)) new (v + i) SP(v[i - 1]); else new (v + i) SP(p); }
                if (base + n > n_maxowners) n_maxowners = base + n;
                if (p.use_count() != base + n || v[n - 1].use_count() != base + n) fail("strong.count", "use_count %ld with %ld owners", p.use_count(), base + n);
                for (int i = 0; i < n; ++i) v[i].~SP();
                free(v);
            }
            if (p.use_count() != base) fail("strong.count", "use_count %ld with %ld owners", p.use_count(), base);
        });
        if constexpr (P::tracking) {
            // the record is of bounded size and may have overflowed: forget about this group's record
        }
        check_slot(r);
        return true;
    }
    void check_groups_of(int g) {
#if HV_ASAN
        if (groups[g].owner && __asan_address_is_poisoned(groups[g].owner)) fail("cb.freed_early", "bookkeeping memory released while pointers refer to it");
#else
        (void)g;
#endif
    }

    // ------------------------------------------------------------ scripts in destructors
    void run_scripts(int id) {
        Obj& o = objs[id];
        if (nest >= 5) return;
        ++nest;
        ++n_nested;
        for (int i = 0; i < o.nscripts; ++i) {
            ++n_scripts;
            uint32_t k = rng.below(10);
            int before = nexpect;
            switch (k) {
            case 0: count(O_SCRIPT); op_reset(); break;
            case 1: op_copy_assign(false); break;
            case 2: op_copy_assign(true); break;
            case 3: op_lock(); break;
            case 4: own_lock(id); break;
            case 5: prof.storage ? op_storage() : op_reset(); break;
            case 6: steal(id); break;
            case 7: prof.sfrom ? op_shared_from() : op_weak_reset(); break;
            case 8: op_swap(true); break;
            default: op_weak_from_strong(); break;
            }
            if (nexpect != before) missing("nested operation", before);
        }
        // every weak pointer to this object is expired from here on
        own_lock(id);
        --nest;
    }
    void own_lock(int id) {
        int g = objs[id].g;
        for (int s = 0; s < nslots; ++s) {
            Slot& x = slots[s];
            if (x.g != g || x.strong || !x.used || !x.live || x.busy) continue;
            with_ti(x.ti, [&](auto t) {
                constexpr int T = decltype(t)::value;
                auto l = W<T>(s).lock();
                if (l.get() || l.use_count()) fail("weak.lock", "%s can be locked while its object is being destroyed", ds(s).b);
                if (!W<T>(s).expired() || W<T>(s).use_count()) fail("weak.expired", "%s is not expired while its object is being destroyed", ds(s).b);
            });
            ++n_lock_fail;
        }
        if constexpr (!P::is_std) {
            if (objs[id].kind == KF && prof.sfrom) {
                auto f = static_cast<F_<P>*>(objs[id].a);
                auto s = f->shared_from_this();
                if (s || s.owner()) fail("sfrom.dying", "shared_from_this is not empty while the object is being destroyed");
                ++n_sfrom_empty;
            }
        }
    }
    // move something out of the dying object
    void steal(int id) {
        int l = objs[id].links[0];
        if (l < 0 || !usable(l)) return;
        int t = pick([&](const Slot& s) { return target_ok(s) && s.ti == TA && s.host != id; });
        if (t < 0 || t == l) return;
        tr("%s = move(own member)", ds(t).b);
        Frame f(*this, "stealing from the dying object");
        f.busy(t);
        f.busy(l);
        f.busyg(slots[l].g);
        int old = slots[t].g;
        set(slots[t], slots[l].g, slots[l].addr);
        set(slots[l], -1, nullptr);
        release(old, true);
        auto &a = S<TA>(t), &b = S<TA>(l);
        api(false, "move assignment", [&] { a = std::move(b); });
        f.done();
    }

    // ------------------------------------------------------------ driver
    void count(Op o) { ++opcount[o]; cov = mix(cov ^ uint64_t(o + 1)); }

    bool step() {
        struct W { int w; int k; };
        const Profile& p = prof;
        W ws[] = {{p.assign, 0}, {p.assign, 1}, {p.construct, 2}, {p.construct, 3}, {p.swap, 4}, {p.reset, 5}, {p.create, 6}, {p.alias, 7}, {p.lock, 8},
            {p.cast, 9}, {p.self, 10}, {p.temp, 11}, {p.weak, 12}, {p.sfrom, 13}, {p.storage, 14}, {p.cmp, 15}, {p.bulk, 16}};
        int tot = 0;
        for (auto& w : ws) tot += w.w;
        int r = int(rng.below(uint32_t(tot)));
        int k = 0;
        for (auto& w : ws) { if (r < w.w) { k = w.k; break; } r -= w.w; }
        auto c = [&](Op o, bool ok) { if (ok) count(o); return ok; };
        switch (k) {
        case 0: return c(O_CA, op_copy_assign(false));
        case 1: return c(O_MA, op_copy_assign(true));
        case 2: return c(O_CC, op_construct(false));
        case 3: return c(O_MC, op_construct(true));
        case 4: return c(O_SW, op_swap(true));
        case 5: return c(O_RS, op_reset());
        case 6: return c(O_CR, op_create());
        case 7: return c(O_AL, op_alias());
        case 8: return c(O_LK, op_lock());
        case 9: return c(O_CAST, op_cast());
        case 10: return c(O_SELF, op_self());
        case 11: return c(O_TMP, op_temp());
        case 12:
            switch (rng.below(8)) {
            case 0: return c(O_WCA, op_weak_assign(false, false));
            case 1: return c(O_WMA, op_weak_assign(true, false));
            case 2: return c(O_WCC, op_weak_assign(false, true));
            case 3: return c(O_WMC, op_weak_assign(true, true));
            case 4: return c(O_WSW, op_swap(false));
            case 5: return c(O_WRS, op_weak_reset());
            case 6: return c(O_WAL, op_weak_alias());
            default: return c(O_WFS, op_weak_from_strong());
            }
        case 13: return c(O_SF, op_shared_from());
        case 14: return op_storage();
        case 15: return c(O_CMP, op_compare());
        default: return c(O_BULK, op_bulk());
        }
    }

    void make_statics() {
        // a few types per case, several pointers of each
        statics = 0;
        nslots = 0;
        bool want[NT] = {};
        want[TA] = true;
        int nt = 2 + int(rng.below(4));
        if (prof.convs) nt = 7;
        for (int i = 0; i < nt; ++i) want[rng.below(NT)] = true;
        if (prof.sfrom) want[TF] = want[TINT] = true;
        for (int ti = 0; ti < NT; ++ti) {
            if (!want[ti]) continue;
            int ns = 1 + int(rng.below(prof.convs ? 2 : 3)), nw = 1 + int(rng.below(2));
            if (ti == TA) ns += 2;
            for (int i = 0; i < ns + nw && statics < 60; ++i) {
                bool strong = i < ns;
                int s = new_slot();
                Slot& x = slots[s];
                x.used = x.live = true;
                x.ti = uint8_t(ti);
                x.strong = strong;
                x.host = -1;
                x.p = raw[s];
                dirty(x.p, RAW);
                with_ti(ti, [&](auto t) {
                    constexpr int T = decltype(t)::value;
                    if (strong) new (x.p) sp<TT<T>>();
                    else new (x.p) wp<TT<T>>();
                });
                statics = nslots;
            }
        }
        if (prof.storage) {
            int s = new_slot();
            Slot& x = slots[s];
            x.used = x.live = true;
            x.ti = TA;
            x.strong = true;
            x.storage = true;
            x.host = -1;
            x.p = raw[s];
            dirty(x.p, RAW);
            new (x.p) Store();
            statics = nslots;
        }
    }

    void init_dummies() {
        if (dummyA) return;
        dummy_mode = true;
        dummyA = new A_<P>;
        dummyD = new D_<P>;
        dummyE = new E_<P>;
        dummyF = new F_<P>;
        dummy_mode = false;
    }

    void run_case(uint64_t seed) {
        rng = Rng(seed);
        ngroups = nobjs = nexpect = nlink = nest = 0;
        constructing = last_ctor = -1;
        tlen = 0;
        trace[0] = 0;
        obs = 0;
        nobs = 0;
        cov = 1;
        nested_allocs = 0;
        for (auto& a : arenas) a = ArenaLog{};
        g_track_error = nullptr;
        init_dummies();
        g_am.reset();
        make_statics();
        int ops = prof.ops / 2 + int(rng.below(uint32_t(prof.ops)));
        for (int i = 0; i < ops; ++i) {
            bool did = false;
            for (int k = 0; k < 6 && !did; ++k) did = step();
            check_all(i % 4 == 3);
            if (nobjs > MAXO - 64 || ngroups > MAXG - 64) break;
        }
        finish_case();
    }

    void finish_case() {
        // release everything: static pointers in random order, then break the remaining cycles
        int order[64];
        int n = 0;
        for (int i = 0; i < statics; ++i) order[n++] = i;
        for (int i = n - 1; i > 0; --i) std::swap(order[i], order[rng.below(uint32_t(i + 1))]);
        tr("teardown");
        int save = prof.scripts;
        for (int round = 0; round < 50; ++round) {
            for (int i = 0; i < n; ++i) {
                int s = order[i];
                Slot& x = slots[s];
                if (x.g < 0) continue;
                tr("release %s", ds(s).b);
                release_slot(s);
                check_groups();
            }
            // cycles
            for (int o = 0; o < nobjs; ++o) {
                for (int l = 0; l < 5; ++l) {
                    if (objs[o].st != OAlive) break;
                    int s = objs[o].links[l];
                    if (s < 0 || slots[s].g < 0) continue;
                    tr("break %s", ds(s).b);
                    release_slot(s);
                    check_groups();
                }
            }
            bool any = false;
            for (int i = 0; i < nslots; ++i) if (slots[i].used && slots[i].live && slots[i].g >= 0) any = true;
            if (!any) break;
        }
        prof.scripts = save;
        for (int i = 0; i < statics; ++i) {
            Slot& x = slots[i];
            with_ti(x.ti, [&](auto t) {
                constexpr int T = decltype(t)::value;
                if (x.storage) ST(i).~Store();
                else if (x.strong) { using X = sp<TT<T>>; S<T>(i).~X(); }
                else { using X = wp<TT<T>>; W<T>(i).~X(); }
            });
            x.used = x.live = false;
        }
        check_groups();
        for (int g = 0; g < ngroups; ++g) {
            if (groups[g].strong || groups[g].weak) fail("harness", "model group %d still referenced", g);
            if ((groups[g].obj >= 0 || groups[g].deleter) && !groups[g].disposed) fail("destroy.missing", "object of group %d never disposed of", g);
        }
        for (auto& a : arenas) if (a.allocs != a.deallocs) fail("alloc.arena", "%ld blocks allocated with an allocator, %ld returned", a.allocs, a.deallocs);
        if (Del<P, A_<P>>::live() || Del<P, D_<P>>::live() || Del<P, int>::live() || Del<P, E_<P>>::live() || Del<P, F_<P>>::live())
            fail("deleter.leak", "deleter copies alive after everything is gone");
        if (HV_ASAN && g_am.live) fail("leak", "%ld blocks obtained by pointer operations were never given back", g_am.live);
        if constexpr (P::tracking) if (g_track_cbs) fail("leak", "%ld control blocks never destroyed", g_track_cbs);
    }
    void release_slot(int s) {
        Slot& x = slots[s];
        Frame f(*this, "reset");
        f.busy(s);
        int old = x.g;
        set(x, -1, nullptr);
        release(old, x.strong);
        with_ti(x.ti, [&](auto t) {
            constexpr int T = decltype(t)::value;
            if (x.storage) { auto& st = ST(s); api(false, "store", [&] { st.store(nullptr); }); }
            else if (x.strong) { auto& p = S<T>(s); api(false, "reset", [&] { p.reset(); }); }
            else { auto& p = W<T>(s); api(false, "reset", [&] { p.reset(); }); }
        });
        f.done();
    }

    void report() {
        out.stat("operations", n_ops);
        out.stat("pointer_state_checks", n_checks);
        out.stat("disposals_observed", n_disposals);
        out.stat("destructor_entries", n_nested);
        out.stat("destructor_script_ops", n_scripts);
        out.stat("ownership_groups", n_groups);
        out.stat("group_releases_checked", n_frees);
        out.stat("locks_successful", n_lock_ok);
        out.stat("locks_failed", n_lock_fail);
        out.stat("ops_on_pointers_inside_objects", n_link_ops);
        out.stat("ops_destroying_their_own_operand", n_selfdoom);
        out.stat("comparison_rounds", n_cmp);
        out.stat("cas_same_address_other_owner", n_casother);
        out.stat("shared_from_calls", n_sfrom);
        out.stat("shared_from_unowned", n_sfrom_empty);
        out.stat("converting_ops", n_conv);
        out.stat("conversions_of_expired_weak", n_dead_conv);
        out.stat("control_block_record_checks", n_track);
        out.stat("allocation_free_ops_checked", n_noalloc);
        for (int i = 0; i <= O_DESTROY; ++i) {
            if (!opcount[i]) continue;
            char* nm = static_cast<char*>(malloc(40));
            snprintf(nm, 40, "op_%s", opname(i));
            out.stat(nm, opcount[i]);
        }
        if (P::tracking) out.stat("control_block_events", g_track_events);
    }
};

template <typename P, typename U>
void Del<P, U>::operator()(U* p) const {
    int g = gid;
    bool d = eng<P>->deleter_begin(g, vp(p));
    if (d) delete p;
    eng<P>->deleter_end(g);
}

inline Profile make_profile(const char* n) {
    Profile p;
    auto is = [&](const char* x) { return !strcmp(n, x); };
    if (is("own")) { p.cast = 1; p.cmp = 1; p.bulk = 0; }
    else if (is("values")) { p.swap = 8; p.self = 6; p.temp = 8; p.alias = 10; p.weak = 4; p.scripts = 5; p.links = 25; }
    else if (is("weak")) { p.weak = 60; p.lock = 14; p.assign = 6; p.scripts = 20; p.links = 30; p.reset = 12; }
    else if (is("reent")) { p.links = 75; p.scripts = 80; p.assign = 22; p.reset = 16; p.create = 14; p.cast = 0; p.cmp = 0; p.storage = 4; p.weak = 8; p.kinds[KINT] = 0; p.sfrom = 2; }
    else if (is("sfrom")) { p.sfrom = 25; p.kinds[KF] = 12; p.scripts = 40; }
    else if (is("conv")) { p.convs = true; p.cast = 14; p.assign = 14; p.construct = 12; p.weak = 20; p.kinds[KD] = 6; p.kinds[KE] = 6; p.kinds[KF] = 4; p.scripts = 5; p.links = 20; p.lock = 8; }
    else if (is("cmp")) { p.cmp = 60; p.scripts = 5; p.alias = 10; }
    else if (is("storage")) { p.storage = 40; p.scripts = 50; p.links = 30; }
    else if (is("bulk")) { p.bulk = 6; p.ops = 16; p.scripts = 5; }
    else if (is("diff")) { p.portable = true; }
    else if (is("diff.weak")) { p = make_profile("weak"); p.portable = true; }
    else if (is("diff.conv")) { p = make_profile("conv"); p.portable = true; }
    else if (is("diff.sfrom")) { p = make_profile("sfrom"); p.storage = 20; p.portable = true; }
    else if (is("diff.reent")) { p = make_profile("reent"); p.portable = true; }
    else if (is("diff.cmp")) { p = make_profile("cmp"); p.portable = true; }
    return p;
}

} // namespace hv
