// Concurrent workloads over shared/weak pointers, storage slots and counters.
#pragma once
#include "policies.hpp"
#include "conc_backend.hpp"
#include "lin.hpp"

namespace hv {

[[noreturn]] NOINST void cfail(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void cfail(const char* key, const char* f, ...) {
    be::Mon m;
    char b[900];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    out.violation(key, "%s", b);
}

// ---------------------------------------------------------------- control block with records
struct MTRec {
    static constexpr int MAX = 64;
    const void* cb = nullptr;
    TrackRec s, w;
};
inline MTRec g_mtrec[160];
inline int g_nmtrec = 0;
inline bool g_mt_on = false;
inline char g_mt_lock = 0;
inline long g_mt_events = 0;

NOINST inline void mt_event(const void* cb, bool strong, const void* add, const void* rem, int what) {
    if (!g_mt_on) return;
    while (__atomic_exchange_n(&g_mt_lock, 1, __ATOMIC_ACQUIRE)) {}
    ++g_mt_events;
    MTRec* r = nullptr;
    for (int i = 0; i < g_nmtrec; ++i) if (g_mtrec[i].cb == cb) r = &g_mtrec[i];
    if (!r) {
        for (int i = 0; i < g_nmtrec; ++i) if (!g_mtrec[i].cb) r = &g_mtrec[i];
        if (!r && g_nmtrec < 160) r = &g_mtrec[g_nmtrec++];
        if (r) { r->cb = cb; r->s.n = r->w.n = 0; r->s.overflow = r->w.overflow = false; }
    }
    const char* err = nullptr;
    if (r) {
        TrackRec& t = strong ? r->s : r->w;
        for (int k = 0; k < 2; ++k) {
            const void* p = k ? rem : add;
            int d = k ? -1 : 1;
            if (!p) continue;
            bool f = false;
            for (int i = 0; i < t.n && !f; ++i) {
                if (t.addr[i] != p) continue;
                f = true;
                t.cnt[i] += d;
                if (!t.cnt[i]) { t.addr[i] = t.addr[t.n - 1]; t.cnt[i] = t.cnt[t.n - 1]; --t.n; }
            }
            if (!f) {
                if (t.n == TrackRec::MAX) t.overflow = true;
                else { t.addr[t.n] = p; t.cnt[t.n] = d; ++t.n; }
            }
        }
        if (what == 9) {
            if (r->s.n && !r->s.overflow) err = "strong references on record when the control block is destroyed";
            if (r->w.n && !r->w.overflow) err = "weak references on record when the control block is destroyed";
            r->cb = nullptr;
        }
    }
    __atomic_store_n(&g_mt_lock, 0, __ATOMIC_RELEASE);
    if (err) cfail("track.atend", "%s", err);
}

struct TrackMTCB : xmem::control_block_base<xmem::atomic_ref_count> {
    using base = xmem::control_block_base<xmem::atomic_ref_count>;
    TrackMTCB() = default;
    ~TrackMTCB() { mt_event(this, true, nullptr, nullptr, 9); }
    void init_strong(const void* p) noexcept { mt_event(this, true, p, nullptr, 0); }
    void inc_strong_ref(const void* p) noexcept { base::inc_strong_ref(p); mt_event(this, true, p, nullptr, 0); }
    void dec_strong_ref(const void* p) noexcept { mt_event(this, true, nullptr, p, 0); base::dec_strong_ref(p); }
    bool inc_strong_ref_nz(const void* p) noexcept {
        if (!base::inc_strong_ref_nz(p)) return false;
        mt_event(this, true, p, nullptr, 0);
        return true;
    }
    void transfer_strong(const void* to, const void* from) noexcept { mt_event(this, true, to, from, 0); }
    void inc_weak_ref(const void* p) noexcept { base::inc_weak_ref(p); mt_event(this, false, p, nullptr, 0); }
    void dec_weak_ref(const void* p) noexcept { mt_event(this, false, nullptr, p, 0); base::dec_weak_ref(p); }
    void transfer_weak(const void* to, const void* from) noexcept { mt_event(this, false, to, from, 0); }
};
using TrackMTCBF = xmem::control_block_factory<TrackMTCB>;

struct PTrackMT : PXmemBase {
    static constexpr const char* name = "tracking-mt";
    static constexpr bool tracking = true;
    using cbf = TrackMTCBF;
    template <typename T> using sp = xmem::basic_shared_ptr<cbf, T>;
    template <typename T> using wp = xmem::basic_weak_ptr<cbf, T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<cbf, T>;
    using esf = xmem::basic_enable_shared_from<cbf>;
    template <typename T> using esft = xmem::basic_enable_shared_from_this<cbf, T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) {
        return sp<T>(cbf::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...));
    }
};

// ---------------------------------------------------------------- managed objects
template <typename P> struct Conc;
template <typename P> inline Conc<P>* conc = nullptr;

template <typename P> struct CObj;
template <typename P>
struct CNode {
    CObj<P>* self;
    int idx;
    CNode(CObj<P>* s, int i) : self(s), idx(i) {}
    virtual ~CNode() {}
};
struct CPad {
    long pad = 77;
    virtual ~CPad() {}
};
struct CVirt {
    long mark = 4711;
    virtual ~CVirt() { mark = 0; }
};
template <typename P>
struct CObj : CPad, CNode<P>, P::template esft<CObj<P>>, virtual CVirt {
    int id;
    int payload;
    bool nosy, disposed = false;
    int touch[be::MAXT];
    CNode<P> sub[2];
    CObj(int i, bool n) : CNode<P>(this, 0), id(i), payload(i * 3 + 1), nosy(n), sub{{this, 1}, {this, 2}} {
        for (auto& t : touch) t = 0;
        conc<P>->on_ctor(this);
    }
    CObj(const CObj&) = delete;
    // given up by its owners, but not destroyed: it stays in memory
    void dispose() {
        conc<P>->on_dtor(this);
        for (auto& t : touch) t = -1;
        payload = -1;
        disposed = true;
        conc<P>->on_dtor_end(id_copy());
    }
    ~CObj() {
        if (disposed) return;
        conc<P>->on_dtor(this);
        // everything the owners did happened before this
        for (auto& t : touch) t = -1;
        payload = -1;
        if (nosy) conc<P>->on_nosy();
        conc<P>->on_dtor_end(id_copy());
    }
    int id_copy() const { return id; }
    template <typename T> auto from(T* p) const { return this->shared_from(p); }
    // the forms of the untyped base
    auto vfrom() { using B = typename P::esf; return this->B::shared_from_this(); }
    auto vfrom() const { using B = typename P::esf; return this->B::shared_from_this(); }
    auto vweak() { using B = typename P::esf; return this->B::weak_from_this(); }
    auto vweak() const { using B = typename P::esf; return this->B::weak_from_this(); }
    template <typename T> auto wfrom(T* p) const { return this->weak_from(p); }
};
template <typename P>
struct CDel {
    int id;
    void operator()(CObj<P>* p) const {
        conc<P>->on_deleter(id);
        delete p;
    }
};

template <typename P>
struct CKeep {
    int id;
    void operator()(CObj<P>* p) const {
        conc<P>->on_deleter(id);
        p->dispose();
    }
};

enum COp { C_LOAD, C_STORE, C_XCHG, C_CAS, C_INC, C_DEC, C_INCNZ, C_COUNT };

template <typename P>
struct Conc {
    using Obj = CObj<P>;
    using Node = CNode<P>;
    template <typename T> using sp = typename P::template sp<T>;
    template <typename T> using wp = typename P::template wp<T>;
    using Store = typename P::template storage<Node>;
    static constexpr int NL = 3, NW = 2, MAXID = 96;

    struct Rec {
        int ctor, dtor, dtor_end, deleter, definite, kind;
        uint64_t t_dtor;
    };
    Rec rec[MAXID];

    struct Th {
        sp<Node> L[NL];
        sp<Node> E;
        sp<Obj> O;
        wp<Node> W[NW];
        wp<Obj> WO;
    };
    // monitor's side of a thread
    struct Tm {
        Rng rng;
        int hold[NL + 3];       // object ids of L, E, O, temporary (-1: none)
        int code[NL + 3];       // value codes of the same
        int wid[NW + 1];
        lin::Op h[lin::MAXOPS];
        int nh;
        int ops, nested, nextid, refs;
        char trace[700];
        int tl;
    };
    Tm tm[be::MAXT];
    Th* th[be::MAXT];
    int nth;
    sp<Node>* gs;
    int gs_id;
    wp<Node>* gw;
    int gw_id;
    static constexpr int NK = 2;
    Obj* kept[NK];      // objects which stay in memory when nobody owns them any more
    wp<Node>* kw;       // keeps their bookkeeping
    int nkept;
    Store* st;
    bool st_on;
    xmem::atomic_ref_count* ctr;
    const char* prof;
    bool slot_prof, own_prof, ctr_prof, sfrom_prof;
    bool overflow;
    bool draining;
    long n_lock_ok = 0, n_lock_fail = 0, n_hist = 0, n_hist_ops = 0, n_lin_nodes = 0, n_lin_giveup = 0, n_cas_ok = 0, n_cas_fail = 0,
         n_dtor = 0, n_nested = 0, n_own_ops = 0, n_concurrent_dtor = 0, n_sfrom = 0, n_trackcheck = 0, n_overlap = 0, n_quiet = 0, n_virt = 0, n_virt_expired = 0, n_kept = 0, n_kept_ok = 0, n_kept_dead = 0;

    // ------------------------------------------------------------ monitor
    NOINST int rnd(int t, int n) {
        be::Mon m;
        return int(tm[t].rng.below(uint32_t(n)));
    }
    NOINST void tr(int t, const char* f, int a = 0, int b = 0) {
        be::Mon m;
        Tm& x = tm[t];
        if (x.tl < int(sizeof x.trace) - 40) x.tl += snprintf(x.trace + x.tl, 38, f, a, b);
    }
    NOINST void on_ctor(Obj* o) {
        Rec& r = rec[o->id];
        __atomic_add_fetch(&r.ctor, 1, __ATOMIC_RELAXED);
    }
    NOINST void on_dtor(Obj* o) {
        be::Mon m;
        int id = o->id;
        if (id < 0 || id >= MAXID) cfail("destroy.garbage", "destructor of something which is no object (id %d)", id);
        Rec& r = rec[id];
        uint64_t t = be::now();
        if (__atomic_fetch_add(&r.dtor, 1, __ATOMIC_RELAXED)) cfail("destroy.twice", "object %d destroyed twice", id);
        __atomic_store_n(&r.t_dtor, t, __ATOMIC_RELAXED);
        if (int d = __atomic_load_n(&r.definite, __ATOMIC_RELAXED)) cfail("destroy.early", "object %d destroyed by thread %d while %d pointers own it", id, be::self(), d);
        if ((r.kind == 2 || r.kind == 5) && !r.deleter) cfail("destroy.unexpected", "object %d destroyed without its deleter", id);
        __atomic_add_fetch(&n_dtor, 1, __ATOMIC_RELAXED);
        if (be::self()) __atomic_add_fetch(&n_concurrent_dtor, 1, __ATOMIC_RELAXED);
    }
    NOINST void on_dtor_end(int id) { __atomic_add_fetch(&rec[id].dtor_end, 1, __ATOMIC_RELAXED); }
    NOINST void on_deleter(int id) {
        if (__atomic_fetch_add(&rec[id].deleter, 1, __ATOMIC_RELAXED)) cfail("deleter.twice", "deleter of object %d called twice", id);
    }
    NOINST void definite(int id, int d) {
        if (id < 0) return;
        __atomic_add_fetch(&rec[id].definite, d, __ATOMIC_SEQ_CST);
    }
    NOINST void gained(int t, int k, int id, int code) {
        if (id >= 0) {
            if (id >= MAXID || !rec[id].ctor) cfail("strong.get", "thread %d got a pointer to something which is no object", t);
            definite(id, 1);
            if (__atomic_load_n(&rec[id].dtor, __ATOMIC_RELAXED)) cfail("destroy.early", "thread %d owns object %d, which is already destroyed", t, id);
        }
        tm[t].hold[k] = id;
        tm[t].code[k] = code;
    }
    NOINST void dropping(int t, int k) {
        int id = tm[t].hold[k];
        tm[t].hold[k] = -1;
        tm[t].code[k] = 0;
        definite(id, -1);
    }
    NOINST void moved(int t, int to, int from) {
        tm[t].hold[to] = tm[t].hold[from];
        tm[t].code[to] = tm[t].code[from];
        tm[t].hold[from] = -1;
        tm[t].code[from] = 0;
    }
    NOINST int hold(int t, int k) { return tm[t].hold[k]; }
    NOINST int held_code(int t, int k) { return tm[t].code[k]; }
    NOINST int wid(int t, int k) { return tm[t].wid[k]; }
    NOINST void set_wid(int t, int k, int id) { tm[t].wid[k] = id; }
    NOINST void lock_done(int t, int wantid, int gotid, uint64_t call) {
        if (gotid < 0) {
            __atomic_add_fetch(&n_lock_fail, 1, __ATOMIC_RELAXED);
            if (wantid >= 0 && __atomic_load_n(&rec[wantid].definite, __ATOMIC_SEQ_CST) > 0)
                cfail("weak.lock", "thread %d: lock failed though object %d has owners", t, wantid);
        }
        else {
            __atomic_add_fetch(&n_lock_ok, 1, __ATOMIC_RELAXED);
            if (gotid != wantid) cfail("weak.lock", "thread %d: locking a pointer to object %d yields object %d", t, wantid, gotid);
            uint64_t d = __atomic_load_n(&rec[gotid].t_dtor, __ATOMIC_RELAXED);
            if (d && d < call) cfail("weak.lock", "thread %d: lock succeeded after object %d was disposed of", t, gotid);
        }
    }
    NOINST void virt_done(int t, int want, int got, uint64_t call) {
        if (want < 0) {
            if (got >= 0) cfail("weak.lock", "thread %d: locking an empty weak pointer yields object %d", t, got);
            return;
        }
        __atomic_add_fetch(&n_virt, 1, __ATOMIC_RELAXED);
        if (got < 0) __atomic_add_fetch(&n_virt_expired, 1, __ATOMIC_RELAXED);
        lock_done(t, want, got, call);
    }
    NOINST void vlock_done(int t, int want, bool got, uint64_t call) { if (want < 0 && got) cfail("weak.lock", "thread %d: locking an empty weak pointer succeeds", t); lock_done(t, want, got ? want : -1, call); }
    NOINST void expired_done(int t, int id, bool e) {
        if (id < 0) { if (!e) cfail("weak.expired", "thread %d: weak pointer without owner not expired", t); return; }
        if (e && __atomic_load_n(&rec[id].definite, __ATOMIC_SEQ_CST) > 0) cfail("weak.expired", "thread %d: expired though object %d has owners", t, id);
    }
    NOINST int newid(int t) {
        Tm& x = tm[t];
        if (x.nextid >= 10) return -1;
        return 16 + t * 10 + x.nextid++;
    }
    NOINST lin::Op* hist(int t, int kind) {
        Tm& x = tm[t];
        if (x.nh >= 15) { overflow = true; return nullptr; }
        lin::Op* o = &x.h[x.nh++];
        o->kind = kind;
        o->thread = t;
        o->a = o->b = o->r = o->r2 = 0;
        o->ret = ~0ull;
        o->call = be::now();
        return o;
    }
    NOINST void hret(lin::Op* o, int64_t r, int64_t r2) {
        if (!o) return;
        o->r = r;
        o->r2 = r2;
        o->ret = be::now();
    }
    NOINST void hargs(lin::Op* o, int64_t a, int64_t b) { if (o) { o->a = a; o->b = b; } }
    NOINST bool can_nest(int t) { return st_on && tm[t].nested < 2; }
    NOINST void nest(int t, int d) { tm[t].nested += d; if (d > 0) __atomic_add_fetch(&n_nested, 1, __ATOMIC_RELAXED); }

    // value code of a pointer which the caller owns: 0 is null
    static int code_of(const sp<Node>& p) {
        Node* n = p.get();
        if (!n) return 0;
        return n->self->id * 4 + n->idx + 1;
    }
    static int id_of(int code) { return code ? (code - 1) / 4 : -1; }
    void gain(int t, int k) {
        Th& x = *th[t];
        int c;
        if (k < NL) c = code_of(x.L[k]);
        else if (k == NL) c = code_of(x.E);
        else c = x.O ? x.O->id * 4 + 1 : 0;
        gained(t, k, id_of(c), c);
    }

    // ------------------------------------------------------------ object creation
    sp<Node> create(int id, int how, bool nosy) {
        note_kind(id, how);
        switch (how) {
        case 0: return P::template make<Obj>(id, nosy);
        case 1: return sp<Obj>(new Obj(id, nosy));
        case 2: return sp<Obj>(new Obj(id, nosy), CDel<P>{id});
        case 3: { typename P::template up<Obj> u(new Obj(id, nosy)); return sp<Obj>(std::move(u)); }
        case 5: {
            Obj* o = new Obj(id, false);
            sp<Obj> s = id % 2 ? sp<Obj>(o, CKeep<P>{id}) : sp<Obj>(typename P::template up<Obj, CKeep<P>>(o, CKeep<P>{id}));
            keep(o, s);
            return s;
        }
        default: return sp<Node>(static_cast<Node*>(new Obj(id, nosy)));
        }
    }
    void keep(Obj* o, const sp<Obj>& s) {
        kw[nkept] = s;
        kept[nkept++] = o;
    }
    NOINST Obj* some_kept(int t, int& id) {
        be::Mon m;
        if (!nkept) return nullptr;
        int k = int(tm[t].rng.below(uint32_t(nkept)));
        id = kept_id[k];
        return kept[k];
    }
    int kept_id[NK];
    NOINST void kept_done(int t, int id, int got, uint64_t call) {
        __atomic_add_fetch(&n_kept, 1, __ATOMIC_RELAXED);
        if (got >= 0) __atomic_add_fetch(&n_kept_ok, 1, __ATOMIC_RELAXED);
        else if (__atomic_load_n(&rec[id].dtor, __ATOMIC_RELAXED)) __atomic_add_fetch(&n_kept_dead, 1, __ATOMIC_RELAXED);
        if (got < 0 && __atomic_load_n(&rec[id].definite, __ATOMIC_SEQ_CST) > 0) cfail("sfrom.owner", "thread %d: shared_from_this yields nothing though object %d has owners", t, id);
        uint64_t d = __atomic_load_n(&rec[id].t_dtor, __ATOMIC_RELAXED);
        if (got >= 0 && d && d < call) cfail("sfrom.unowned", "thread %d: shared_from_this yields an owner of object %d, which was already disposed of", t, id);
    }
    NOINST int kind_of(int id) { return rec[id].kind; }
    NOINST void note_kind(int id, int how) { rec[id].kind = how; }

    // ------------------------------------------------------------ destructor using the slot
    void on_nosy() {
        int t = be::self();
        if (!can_nest(t)) return;
        nest(t, 1);
        int w = rnd(t, 5);
        if (w == 0) {
            auto* h = hist(t, C_LOAD);
            sp<Node> p = st->load();
            hret(h, code_of(p), 0);
        }
        else if (w == 1) {
            auto* h = hist(t, C_STORE);
            st->store(nullptr);
            hret(h, 0, 0);
        }
        else if (w == 2) {
            auto* h = hist(t, C_XCHG);
            sp<Node> p = st->exchange(nullptr);
            hret(h, code_of(p), 0);
        }
        else if (w == 3) {
            auto* h = hist(t, C_CAS);
            sp<Node> e;
            bool ok = st->compare_exchange(e, nullptr);
            hret(h, ok, code_of(e));
        }
        else {
            // cas with what the slot holds
            auto* h = hist(t, C_LOAD);
            sp<Node> e = st->load();
            int c = code_of(e);
            hret(h, c, 0);
            h = hist(t, C_CAS);
            hargs(h, c, 0);
            bool ok = st->compare_exchange(e, nullptr);
            hret(h, ok, code_of(e));
        }
        nest(t, -1);
    }

    // ------------------------------------------------------------ operations
    void slot_op(int t) {
        Th& x = *th[t];
        int i = rnd(t, NL), j = rnd(t, NL);
        switch (rnd(t, 10)) {
        case 0: case 1: {   // load
            dropping(t, j);
            x.L[j].reset();
            tr(t, "L%d=load ", j);
            auto* h = hist(t, C_LOAD);
            sp<Node> p = st->load();
            int c = code_of(p);
            hret(h, c, 0);
            x.L[j] = std::move(p);
            gained(t, j, id_of(c), c);
            break;
        }
        case 2: {           // store copy
            auto* h = hist(t, C_STORE);
            tr(t, "store(L%d) ", i);
            hargs(h, held_code(t, i), 0);
            st->store(x.L[i]);
            hret(h, 0, 0);
            break;
        }
        case 3: {           // store moved
            auto* h = hist(t, C_STORE);
            tr(t, "store(move L%d) ", i);
            hargs(h, held_code(t, i), 0);
            dropping(t, i);
            st->store(std::move(x.L[i]));
            hret(h, 0, 0);
            if (x.L[i] || x.L[i].use_count()) cfail("strong.moved", "pointer not empty after moving it into the slot");
            break;
        }
        case 4: case 5: {   // exchange
            bool mv = rnd(t, 2);
            auto* h = hist(t, C_XCHG);
            tr(t, mv ? "L%d=xchg(move) " : "L%d=xchg ", i);
            hargs(h, held_code(t, i), 0);
            if (mv) dropping(t, i);
            sp<Node> p = mv ? st->exchange(std::move(x.L[i])) : st->exchange(x.L[i]);
            int c = code_of(p);
            hret(h, c, 0);
            if (!mv) dropping(t, i);
            x.L[i] = std::move(p);
            gained(t, i, id_of(c), c);
            break;
        }
        default: {          // compare-exchange
            int w = rnd(t, 6);
            if (w < 3) {    // expect what the slot holds now
                dropping(t, NL);
                x.E.reset();
                auto* h = hist(t, C_LOAD);
                x.E = st->load();
                int c = code_of(x.E);
                hret(h, c, 0);
                gained(t, NL, id_of(c), c);
            }
            else if (w == 3) {
                dropping(t, NL);
                x.E = x.L[j];
                gain(t, NL);
            }
            else if (w == 4) {
                dropping(t, NL);
                x.E.reset();
            }               // else: what the last failure handed back
            auto* h = hist(t, C_CAS);
            int e = held_code(t, NL);
            hargs(h, e, held_code(t, i));
            bool mv = rnd(t, 2);
            tr(t, mv ? "cas(L%d,move) " : "cas(L%d) ", i);
            if (mv) dropping(t, i);
            dropping(t, NL);
            bool ok = mv ? st->compare_exchange(x.E, std::move(x.L[i])) : st->compare_exchange(x.E, x.L[i]);
            int c = code_of(x.E);
            hret(h, ok, c);
            gained(t, NL, id_of(c), c);
            if (mv && (x.L[i] || x.L[i].use_count())) cfail("strong.moved", "pointer not empty after moving it into compare_exchange");
            casn(ok);
            break;
        }
        }
    }
    NOINST void casn(bool ok) { __atomic_add_fetch(ok ? &n_cas_ok : &n_cas_fail, 1, __ATOMIC_RELAXED); }

    void own_op(int t) {
        Th& x = *th[t];
        int i = rnd(t, NL), j = rnd(t, NL), k = rnd(t, NW);
        owned_count();
        switch (rnd(t, sfrom_prof ? nkept ? 38 : 30 : 26)) {
        case 0: {               // use the object
            if (Node* n = x.L[i].get()) {
                Obj* o = n->self;
                ++o->touch[t];
                if (o->payload != o->id * 3 + 1) cfail("memory.garbage", "thread %d reads a wrong value from an object it owns", t);
                if (x.L[i].use_count() < 1) cfail("strong.count", "use count below one for an owner");
            }
            break;
        }
        case 1: case 2:         // copy
            tr(t, "L%d=L%d ", j, i);
            if (i != j) dropping(t, j);
            x.L[j] = x.L[i];
            if (i != j) gain(t, j);
            break;
        case 3:                 // move
            if (i == j) break;
            tr(t, "L%d=mv L%d ", j, i);
            dropping(t, j);
            moved(t, j, i);
            x.L[j] = std::move(x.L[i]);
            break;
        case 4: case 5: case 6: // reset
            tr(t, "L%d.reset ", i);
            dropping(t, i);
            x.L[i].reset();
            break;
        case 7: case 8: {       // lock
            dropping(t, j);
            x.L[j].reset();
            tr(t, "L%d=W%d.lock ", j, k);
            uint64_t c = be::now();
            sp<Node> p = x.W[k].lock();
            int cd = code_of(p);
            lock_done(t, wid(t, k), id_of(cd), c);
            gained(t, j, id_of(cd), cd);
            x.L[j] = std::move(p);
            break;
        }
        case 9: case 10: {      // lock the shared weak pointer
            if (!gw) break;
            dropping(t, j);
            x.L[j].reset();
            tr(t, "L%d=gw.lock ", j);
            uint64_t c = be::now();
            sp<Node> p = gw->lock();
            int cd = code_of(p);
            lock_done(t, gw_id, id_of(cd), c);
            gained(t, j, id_of(cd), cd);
            x.L[j] = std::move(p);
            break;
        }
        case 11:                // copy the shared pointer everybody reads
            if (!gs) break;
            dropping(t, j);
            tr(t, "L%d=gs ", j);
            x.L[j] = *gs;
            gain(t, j);
            break;
        case 12:
            tr(t, "W%d=L%d ", k, i);
            x.W[k] = x.L[i];
            set_wid(t, k, hold(t, i));
            break;
        case 13:
            tr(t, "W%d<->W ", k);
            if (gw && rnd(t, 2)) { x.W[k] = *gw; set_wid(t, k, gw_id); }
            else { x.W[k] = std::move(x.W[1 - k]); set_wid(t, k, wid(t, 1 - k)); set_wid(t, 1 - k, -1); }
            break;
        case 14:
            tr(t, "W%d.reset ", k);
            x.W[k].reset();
            set_wid(t, k, -1);
            break;
        case 15: {              // alias
            Node* n = x.L[i].get();
            if (!n) break;
            Obj* o = n->self;
            int s = rnd(t, 3);
            Node* a = s == 0 ? static_cast<Node*>(o) : &o->sub[s - 1];
            tr(t, "L%d=alias L%d ", j, i);
            sp<Node> p(x.L[i], a);
            if (i != j || true) dropping(t, j);
            x.L[j] = std::move(p);
            gain(t, j);
            break;
        }
        case 16: {              // swap
            tr(t, "swap(L%d,L%d) ", i, j);
            x.L[i].swap(x.L[j]);
            if (i != j) mswap(t, i, j);
            break;
        }
        case 17: {              // temporary, conversions
            tr(t, "temp L%d ", i);
            sp<Node> a = x.L[i];
            sp<void> v = a;
            wp<Node> w(a);
            sp<const Node> cn = w.lock();
            if (cn.get() != a.get() || !P::same_owner(cn, v)) cfail("conv.strong", "conversion of an owned pointer changed it");
            break;
        }
        case 18: {              // converted pointer
            dropping(t, NL + 1);
            if (rnd(t, 2)) {
                tr(t, "O=cast L%d ", i);
                x.O = P::template dynamic_cast_<Obj>(x.L[i]);
            }
            else x.O.reset();
            gain(t, NL + 1);
            break;
        }
        case 19: {
            if (rnd(t, 2)) {
                bool e = x.W[k].expired();
                expired_done(t, wid(t, k), e);
            }
            else if (gw) {
                bool e = gw->expired();
                expired_done(t, gw_id, e);
            }
            break;
        }
        case 20: {              // new object
            int id = newid(t);
            if (id < 0) break;
            dropping(t, j);
            tr(t, "L%d=new %d ", j, id);
            x.L[j] = create(id, rnd(t, 5), slot_prof && rnd(t, 3) == 0);
            gain(t, j);
            break;
        }
        case 21: {              // weak pointer to the whole object
            if (Obj* o = x.O.get()) {
                tr(t, "WO=O ");
                x.WO = x.O;
                set_wid(t, NW, o->id);
            }
            else if (Node* n = x.L[i].get()) {
                tr(t, "WO=cast L%d ", i);
                sp<Obj> o = P::template dynamic_cast_<Obj>(x.L[i]);  // fails for the parts
                x.WO = o;
                set_wid(t, NW, o ? n->self->id : -1);
            }
            break;
        }
        case 22: case 23: {     // conversion to a virtual base: reads the object, if there still is one
            int id = wid(t, NW);
            tr(t, "virt(WO) ");
            uint64_t c = be::now();
            wp<CVirt> v;
            if (rnd(t, 2)) v = x.WO;
            else {
                wp<Obj> o = x.WO;
                v = std::move(o);
            }
            sp<CVirt> p = v.lock();
            int got = -1;
            if (p) {
                if (p->mark != 4711) cfail("memory.garbage", "thread %d reads a wrong value from an object it owns", t);
                got = static_cast<Obj*>(dynamic_cast<Obj*>(p.get()))->id;
            }
            else if (p.use_count()) cfail("weak.lock", "thread %d: locked pointer without address", t);
            virt_done(t, id, got, c);
            break;
        }
        case 24: {              // weak pointers: swap, convert, erase
            tr(t, "W0<->W1 ");
            x.W[0].swap(x.W[1]);
            int a = wid(t, 0);
            set_wid(t, 0, wid(t, 1));
            set_wid(t, 1, a);
            wp<const Node> cw = x.W[k];
            wp<const void> vw(cw);
            uint64_t c = be::now();
            sp<const void> p = vw.lock();
            vlock_done(t, wid(t, k), bool(p), c);
            break;
        }
        case 25: {              // assignments between kinds of pointers
            if (rnd(t, 2)) {
                if (!x.O) break;
                dropping(t, j);
                tr(t, "L%d=O ", j);
                if (rnd(t, 2)) x.L[j] = x.O;
                else { dropping(t, NL + 1); x.L[j] = std::move(x.O); }
                gain(t, j);
            }
            else {
                tr(t, "W%d=WO ", k);
                x.W[k] = x.WO;
                set_wid(t, k, wid(t, NW));
            }
            break;
        }
        case 30: case 31: case 32: case 33: case 34: case 35: case 36: case 37: {   // an object asked by somebody who owns nothing
            if constexpr (!P::is_std) {
            int id = -1;
            Obj* o = some_kept(t, id);
            uint64_t c = be::now();
            int way = rnd(t, 8);
            auto held = [&](const auto& p, const void* addr) NOINST {
                int got = p ? id : -1;
                if (p && static_cast<const void*>(p.get()) != addr) cfail("sfrom.get", "object %d yields another address", id);
                kept_done(t, id, got, c);
                if (got >= 0) { gained(t, NL + 2, got, got * 4 + 1); dropping(t, NL + 2); }
            };
            if (way == 4) {
                tr(t, "kept%d.vfrom ", id);
                auto p = o->vfrom();
                held(p, o);
            }
            else if (way == 5) {
                tr(t, "kept%d.cvfrom ", id);
                auto p = static_cast<const Obj*>(o)->vfrom();
                held(p, o);
            }
            else if (way == 6) {
                tr(t, "kept%d.vweak ", id);
                auto w = o->vweak();
                c = be::now();
                auto p = w.lock();
                held(p, o);
            }
            else if (way == 7) {
                tr(t, "kept%d.wfrom(payload) ", id);
                auto w = o->wfrom(&o->payload);
                c = be::now();
                auto p = w.lock();
                held(p, &o->payload);
            }
            else if (way < 2) {
                tr(t, "L%d=kept%d.sfrom ", j, id);
                dropping(t, j);
                x.L[j].reset();
                c = be::now();
                sp<Node> p = way ? sp<Node>(o->shared_from_this()) : o->from(static_cast<Node*>(o));
                int cd = code_of(p);
                kept_done(t, id, id_of(cd), c);
                gained(t, j, id_of(cd), cd);
                if (p && !P::same_owner(p, p)) cfail("sfrom.owner", "not its own owner");
                x.L[j] = std::move(p);
            }
            else if (way == 2) {
                tr(t, "kept%d.sfrom ", id);
                sp<const Obj> p = static_cast<const Obj*>(o)->shared_from_this();
                int got = p ? p->id : -1;
                kept_done(t, id, got, c);
                if (got >= 0) { gained(t, NL + 2, got, got * 4 + 1); dropping(t, NL + 2); }
            }
            else {
                tr(t, "WO=kept%d.wfrom ", id);
                x.WO = o->weak_from_this();
                set_wid(t, NW, id);
                c = be::now();
                sp<Obj> p = x.WO.lock();
                lock_done(t, id, p ? p->id : -1, c);
            }
            }
            break;
        }
        default: {              // shared_from
            Node* n = x.L[i].get();
            if (!n) break;
            Obj* o = n->self;
            if (kind_of(o->id) == 4) break;  // created through a pointer to a base: no association
            sfrom_count();
            if constexpr (!P::is_std) if (rnd(t, 3) == 0) {
                tr(t, "vfrom L%d ", i);
                auto p = o->vfrom();
                if (p.get() != o || !P::same_owner(p, x.L[i])) cfail("sfrom.owner", "shared_from_this of an owned object: not its owner");
                auto q = static_cast<const Obj*>(o)->vfrom();
                if (q.get() != o || !P::same_owner(q, x.L[i])) cfail("sfrom.owner", "shared_from_this of an owned object: not its owner");
                break;
            }
            if (rnd(t, 2)) {
                tr(t, "L%d=sfrom L%d ", j, i);
                sp<Obj> p = o->shared_from_this();
                if (p.get() != o || !P::same_owner(p, x.L[i])) cfail("sfrom.owner", "shared_from_this of an owned object: not its owner");
                gained2(o->id);
                sp<Node> q = std::move(p);
                if (i != j) dropping(t, j);
                else dropping(t, i);
                x.L[j] = std::move(q);
                gain(t, j);
                definite(o->id, -1);
            }
            else {
                tr(t, "WO=wfrom L%d ", i);
                x.WO = o->weak_from_this();
                set_wid(t, NW, o->id);
                uint64_t c = be::now();
                sp<Obj> p = x.WO.lock();
                lock_done(t, o->id, p ? p->id : -1, c);
            }
            break;
        }
        }
    }
    NOINST void gained2(int id) { definite(id, 1); }
    NOINST void owned_count() { __atomic_add_fetch(&n_own_ops, 1, __ATOMIC_RELAXED); }
    NOINST void sfrom_count() { __atomic_add_fetch(&n_sfrom, 1, __ATOMIC_RELAXED); }
    NOINST void mswap(int t, int a, int b) {
        std::swap(tm[t].hold[a], tm[t].hold[b]);
        std::swap(tm[t].code[a], tm[t].code[b]);
    }

    void ctr_op(int t) {
        int w = rnd(t, be::stale() ? 9 : 10);
        int k = w < 3 ? C_INC : w < 7 ? C_DEC : w < 9 ? C_INCNZ : C_COUNT;
        // with stale reads a plain count may be old, and only who holds a reference may
        // add or drop one: otherwise the memory model allows to miss a revival from zero
        if (be::stale() && k != C_INCNZ && !own_refs(t)) k = C_INCNZ;
        auto* h = hist(t, k);
        if (!h) return;
        tr(t, k == C_INC ? "inc " : k == C_DEC ? "dec " : k == C_INCNZ ? "inc_nz " : "count ");
        uint32_t r = k == C_INC ? ctr->inc() : k == C_DEC ? ctr->dec() : k == C_INCNZ ? ctr->inc_nz() : ctr->count();
        hret(h, r, 0);
        if (k == C_DEC) add_refs(t, -1);
        else if (k == C_INC || (k == C_INCNZ && r)) add_refs(t, 1);
    }
    NOINST int own_refs(int t) { return tm[t].refs; }
    NOINST void add_refs(int t, int d) { tm[t].refs += d; }

    void thread_main(int t) {
        int n = nops(t);
        for (int o = 0; o < n; ++o) {
            if (ctr_prof) ctr_op(t);
            else if (slot_prof && rnd(t, 10) < 6) slot_op(t);
            else own_op(t);
            if (be::real) be::pause();
        }
        if (draining && !ctr_prof) {
            for (int k = 0; k < NL; ++k) {
                dropping(t, k);
                th[t]->L[k].reset();
            }
            dropping(t, NL);
            th[t]->E.reset();
            dropping(t, NL + 1);
            th[t]->O.reset();
            for (int k = 0; k < NW; ++k) { th[t]->W[k].reset(); set_wid(t, k, -1); }
            th[t]->WO.reset();
            set_wid(t, NW, -1);
        }
    }
    NOINST int nops(int t) { return tm[t].ops; }
    static void entry(void* p) {
        conc<P>->thread_main(int(reinterpret_cast<intptr_t>(p)));
    }

    // ------------------------------------------------------------ one execution
    void run_case(uint64_t seed) {
        Rng r(seed);
        memset(rec, 0, sizeof rec);
        overflow = false;
        g_nmtrec = 0;
        for (auto& x : g_mtrec) x.cb = nullptr;
        g_mt_on = P::tracking;
        slot_prof = !strcmp(prof, "slot");
        ctr_prof = !strcmp(prof, "counter");
        sfrom_prof = !strcmp(prof, "sfrom");
        own_prof = !slot_prof && !ctr_prof;
        draining = r.chance(1, 2);
        nth = 2 + int(r.below(3));
        if (r.chance(1, 2)) nth = 2;
        for (int t = 0; t < be::MAXT; ++t) {
            Tm& x = tm[t];
            x.rng = Rng(r.next());
            x.nh = x.nested = x.nextid = x.tl = x.refs = 0;
            x.trace[0] = 0;
            x.ops = slot_prof ? 3 + int(r.below(5)) : ctr_prof ? 2 + int(r.below(5)) : 3 + int(r.below(10));
            for (auto& k : x.hold) k = -1;
            for (auto& k : x.code) k = 0;
            for (auto& k : x.wid) k = -1;
        }
        gs = nullptr;
        gw = nullptr;
        st = nullptr;
        st_on = false;
        ctr = nullptr;
        nkept = 0;
        kw = nullptr;
        gs_id = gw_id = -1;
        int init_code = 0;
        uint32_t ctr0 = 1;
        be::begin(r.next());

        if (ctr_prof) {
            ctr = new xmem::atomic_ref_count;
            int n = int(r.below(6)) - 2;
            if (be::stale()) {
                n = nth - 1;
                for (int t = 1; t <= nth; ++t) tm[t].refs = 1;
            }
            for (int i = 0; i < n; ++i) { ctr->inc(); ++ctr0; }
            if (n < 0) { ctr->dec(); --ctr0; }
            if (n < -1) { ctr->dec(); --ctr0; }
        }
        else {
            int nobj = 1 + int(r.below(slot_prof ? 3 : 2));
            sp<Node> init[4];
            if (sfrom_prof && !P::is_std) kw = new wp<Node>[NK];
            for (int o = 0; o < nobj; ++o) {
                bool k = kw && r.chance(2, 3);
                if (k) kept_id[nkept] = o;
                init[o] = create(o, k ? 5 : int(r.below(5)), slot_prof && r.chance(1, 3));
            }
            if (slot_prof) {
                if (r.chance(1, 2)) { st = new Store(); }
                else {
                    int o = int(r.below(uint32_t(nobj)));
                    init_code = code_of(init[o]);
                    st = new Store(init[o]);
                }
                if (reinterpret_cast<uintptr_t>(st) % alignof(Store)) cfail("harness", "storage misaligned");
                st_on = true;
            }
            if (!slot_prof || r.chance(1, 4)) {
                gw_id = int(r.below(uint32_t(nobj)));
                gw = new wp<Node>(init[gw_id]);
                if (r.chance(1, 3)) { gs_id = int(r.below(uint32_t(nobj))); gs = new sp<Node>(init[gs_id]); definite(gs_id, 1); }
            }
            for (int t = 1; t <= nth; ++t) {
                th[t] = new Th;
                for (int k = 0; k < NL; ++k) {
                    if (r.chance(1, 2)) {
                        th[t]->L[k] = init[r.below(uint32_t(nobj))];
                        gain(t, k);
                    }
                }
                if (r.chance(1, 2)) {
                    int o = int(r.below(uint32_t(nobj)));
                    th[t]->WO = P::template dynamic_cast_<Obj>(init[o]);
                    set_wid(t, NW, o);
                }
                for (int k = 0; k < NW; ++k) {
                    if (r.chance(2, 3)) {
                        int o = int(r.below(uint32_t(nobj)));
                        th[t]->W[k] = init[o];
                        set_wid(t, k, o);
                    }
                }
            }
            // main keeps no owners of its own
        }
        for (int t = 1; t <= nth; ++t) be::spawn(entry, reinterpret_cast<void*>(intptr_t(t)));
        be::join_all();
        uint64_t ih = be::interleaving();

        // ---- everything is quiet now
        if (ctr_prof) {
            auto* h = hist(0, C_COUNT);
            uint32_t c = ctr->count();
            hret(h, c, 0);
            delete ctr;
            be::end();
            check_history(ctr0);
        }
        else {
            int final_code = 0;
            bool hist_ok = true;
            if (slot_prof) {
                auto* h = hist(0, C_LOAD);
                {
                    sp<Node> p = st->load();
                    final_code = code_of(p);
                }
                hret(h, final_code, 0);
                st_on = false;
            }
            check_quiet(final_code);
            if (P::tracking) check_records(final_code);
            // take everything down in random order
            int order[16], n = 0;
            for (int t = 1; t <= nth; ++t) order[n++] = t;
            order[n++] = 0;
            order[n++] = -1;
            order[n++] = -2;
            for (int i = n - 1; i > 0; --i) std::swap(order[i], order[r.below(uint32_t(i + 1))]);
            for (int i = 0; i < n; ++i) {
                int w = order[i];
                if (w > 0) {
                    for (int k = 0; k < NL + 2; ++k) dropping(w, k);
                    delete th[w];
                }
                else if (w == 0) delete st;
                else if (w == -1) { if (gs) { definite(gs_id, -1); delete gs; } }
                else delete gw;
            }
            for (int i = 0; i < nkept; ++i) {
                if (!kept[i]->disposed) cfail("destroy.missing", "object %d not disposed of after all its owners are gone", kept_id[i]);
                delete kept[i];
            }
            delete[] kw;
            for (int i = 0; i < MAXID; ++i) {
                if (!rec[i].ctor) continue;
                if (rec[i].dtor != 1 || rec[i].dtor_end != 1) cfail("destroy.missing", "object %d: destroyed %d times after all its owners are gone", i, rec[i].dtor);
                if ((rec[i].kind == 2 || rec[i].kind == 5) && rec[i].deleter != 1) cfail("deleter.missing", "deleter of object %d called %d times", i, rec[i].deleter);
            }
            be::end();
            if (slot_prof && hist_ok) check_history(init_code);
        }
        out.hash(mix(seed) ^ ih);
        if (out.want_sample()) {
            char b[1500];
            int l = snprintf(b, sizeof b, "case %ld [%s/%s] %d threads:", out.current, P::name, prof, nth);
            for (int t = 1; t <= nth && l < 1200; ++t) l += snprintf(b + l, sizeof b - size_t(l), " T%d{ %.250s}", t, tm[t].trace);
            if (slot_prof || ctr_prof) {
                l += snprintf(b + l, sizeof b - size_t(l), " history:");
                for (int t = 0; t <= nth && l < 1400; ++t) for (int i = 0; i < tm[t].nh && l < 1400; ++i) {
                    auto& o = tm[t].h[i];
                    l += snprintf(b + l, sizeof b - size_t(l), " t%d[%llu-%llu]%s(%lld,%lld)=%lld/%lld", t, (unsigned long long)o.call, (unsigned long long)o.ret, opn(o.kind), (long long)o.a, (long long)o.b, (long long)o.r, (long long)o.r2);
                }
            }
            out.sample(b);
        }
    }
    static const char* opn(int k) {
        static const char* const n[] = {"load", "store", "xchg", "cas", "inc", "dec", "inc_nz", "count"};
        return n[k];
    }

    int owners_of(int id, int final_code) {
        int n = 0;
        for (int t = 1; t <= nth; ++t) for (int k = 0; k < NL + 2; ++k) n += tm[t].hold[k] == id;
        if (gs && gs_id == id) ++n;
        if (final_code && id_of(final_code) == id) ++n;
        return n;
    }
    void check_quiet(int final_code) {
        ++n_quiet;
        for (int id = 0; id < MAXID; ++id) {
            if (!rec[id].ctor) continue;
            int n = owners_of(id, final_code);
            if (n && rec[id].dtor) cfail("destroy.early", "object %d destroyed though %d pointers own it", id, n);
            if (!n && !rec[id].dtor) cfail("destroy.missing", "object %d has no owners left but was not disposed of", id);
        }
        for (int t = 1; t <= nth; ++t) {
            Th& x = *th[t];
            for (int k = 0; k < NL + 2; ++k) {
                int id = tm[t].hold[k];
                long uc = k < NL ? x.L[k].use_count() : k == NL ? x.E.use_count() : x.O.use_count();
                long want = id < 0 ? 0 : owners_of(id, final_code);
                if (uc != want) cfail("strong.count", "use count %ld at rest, but %ld owners (object %d)", uc, want, id);
                int c = k < NL ? code_of(x.L[k]) : k == NL ? code_of(x.E) : x.O ? x.O->id * 4 + 1 : 0;
                if (c != tm[t].code[k]) cfail("strong.get", "pointer %d of thread %d is %d, should be %d", k, t, c, tm[t].code[k]);
            }
            {
                int id = tm[t].wid[NW];
                long want = id < 0 ? 0 : owners_of(id, final_code);
                if (x.WO.use_count() != want) cfail("weak.count", "weak use count %ld at rest, but %ld owners", x.WO.use_count(), want);
            }
            for (int k = 0; k < NW; ++k) {
                int id = tm[t].wid[k];
                long want = id < 0 ? 0 : owners_of(id, final_code);
                if (x.W[k].use_count() != want) cfail("weak.count", "weak use count %ld at rest, but %ld owners", x.W[k].use_count(), want);
                if (x.W[k].expired() != !want) cfail("weak.expired", "weak pointer with %ld owners: expired %d", want, x.W[k].expired());
            }
        }
    }
    // the control block's records hold exactly the addresses of the pointers
    void check_records(int final_code) {
        if constexpr (P::tracking) {
            be::Mon m;
            for (int i = 0; i < g_nmtrec; ++i) {
                MTRec& r = g_mtrec[i];
                if (!r.cb || r.s.overflow || r.w.overflow) continue;
                ++n_trackcheck;
                bool inslot = false;
                for (int k = 0; k < r.s.n; ++k) {
                    if (r.s.cnt[k] != 1) cfail("track.count", "a strong pointer is on record %d times", r.s.cnt[k]);
                    const char* a = static_cast<const char*>(r.s.addr[k]);
                    if (st && a >= reinterpret_cast<char*>(st) && a < reinterpret_cast<char*>(st + 1)) { inslot = true; continue; }
                    bool known = gs && a == reinterpret_cast<char*>(gs) && gs->owner() == r.cb;
                    for (int t = 1; t <= nth && !known; ++t) {
                        Th& x = *th[t];
                        for (int l = 0; l < NL; ++l) known |= a == reinterpret_cast<char*>(&x.L[l]) && x.L[l].owner() == r.cb;
                        known |= a == reinterpret_cast<char*>(&x.E) && x.E.owner() == r.cb;
                        known |= a == reinterpret_cast<char*>(&x.O) && x.O.owner() == r.cb;
                    }
                    if (!known) cfail("track.addr", "an address is on record as a strong pointer which is none of this group");
                }
                for (int k = 0; k < r.w.n; ++k) {
                    if (r.w.cnt[k] != 1) cfail("track.count", "a weak pointer is on record %d times", r.w.cnt[k]);
                    const char* a = static_cast<const char*>(r.w.addr[k]);
                    bool known = gw && a == reinterpret_cast<char*>(gw) && gw->owner() == r.cb;
                    for (int l = 0; l < nkept; ++l) known |= a == reinterpret_cast<char*>(&kw[l]) && kw[l].owner() == r.cb;
                    for (int t = 1; t <= nth && !known; ++t) {
                        Th& x = *th[t];
                        for (int l = 0; l < NW; ++l) known |= a == reinterpret_cast<char*>(&x.W[l]) && x.W[l].owner() == r.cb;
                        known |= a == reinterpret_cast<char*>(&x.WO) && x.WO.owner() == r.cb;
                    }
                    if (!known) cfail("track.addr", "an address is on record as a weak pointer which is none of this group");
                }
                // and all of them
                int ns = inslot ? 1 : 0, nw = 0;
                if (gs && gs->owner() == r.cb) ++ns;
                if (gw && gw->owner() == r.cb) ++nw;
                for (int l = 0; l < nkept; ++l) nw += kw[l].owner() == r.cb;
                for (int t = 1; t <= nth; ++t) {
                    Th& x = *th[t];
                    for (int l = 0; l < NL; ++l) ns += x.L[l].owner() == r.cb;
                    ns += x.E.owner() == r.cb;
                    ns += x.O.owner() == r.cb;
                    for (int l = 0; l < NW; ++l) nw += x.W[l].owner() == r.cb;
                    nw += x.WO.owner() == r.cb;
                }
                if (ns != r.s.n) cfail("track.count", "%d strong pointers of a group, %d on record", ns, r.s.n);
                if (nw != r.w.n) cfail("track.count", "%d weak pointers of a group, %d on record", nw, r.w.n);
            }
            (void)final_code;
        }
    }

    void check_history(int64_t init) {
        lin::Op ops[lin::MAXOPS];
        int n = 0;
        if (overflow) { out.stat("histories_too_long"); return; }
        for (int t = 0; t <= nth; ++t) {
            for (int i = 0; i < tm[t].nh; ++i) {
                if (n == lin::MAXOPS) { out.stat("histories_too_long"); return; }
                ops[n++] = tm[t].h[i];
            }
        }
        auto step = [](int64_t s, const lin::Op& o, int64_t& ns) {
            switch (o.kind) {
            case C_LOAD: return o.r == s;
            case C_STORE: ns = o.a; return true;
            case C_XCHG: ns = o.a; return o.r == s;
            case C_CAS:
                if (o.r) { ns = o.b; return s == o.a && o.r2 == o.a; }
                return s != o.a && o.r2 == s;
            case C_INC: ns = int64_t(uint32_t(s + 1)); return o.r == ns;
            case C_DEC: ns = int64_t(uint32_t(s - 1)); return o.r == ns;
            case C_INCNZ:
                if (s == 0) return o.r == 0;
                ns = int64_t(uint32_t(s + 1));
                return o.r == ns;
            default: return o.r == s;
            }
        };
        lin::Checker<decltype(step)> c{ops, n, step};
        ++n_hist;
        n_hist_ops += n;
        for (int i = 0; i < n; ++i) for (int k = i + 1; k < n; ++k) if (ops[i].thread != ops[k].thread && ops[i].call < ops[k].ret && ops[k].call < ops[i].ret) ++n_overlap;
        bool ok = c.run(init);
        n_lin_nodes += c.nodes;
        if (c.nodes > 400000) { ++n_lin_giveup; return; }
        if (!ok) {
            char b[1600];
            int l = 0;
            for (int i = 0; i < n && l < 1500; ++i)
                l += snprintf(b + l, sizeof b - size_t(l), " t%d[%llu-%llu]%s(%lld,%lld)=%lld/%lld;", ops[i].thread, (unsigned long long)ops[i].call, (unsigned long long)ops[i].ret, opn(ops[i].kind), (long long)ops[i].a, (long long)ops[i].b, (long long)ops[i].r, (long long)ops[i].r2);
            out.violation(ctr_prof ? "counter.linearizability" : "slot.linearizability", "no sequential order explains the history (initially %lld):%s", (long long)init, b);
        }
    }

    void report() {
        be::report();
        out.stat("executions", n_quiet + (ctr_prof ? n_hist : 0));
        out.stat("ownership_operations", n_own_ops);
        out.stat("locks_successful", n_lock_ok);
        out.stat("locks_failed", n_lock_fail);
        out.stat("histories_checked", n_hist);
        out.stat("history_operations", n_hist_ops);
        out.stat("overlapping_operation_pairs", n_overlap);
        out.stat("linearization_states_searched", n_lin_nodes);
        out.stat("linearization_given_up", n_lin_giveup);
        out.stat("cas_successes", n_cas_ok);
        out.stat("cas_failures", n_cas_fail);
        out.stat("disposals_observed", n_dtor);
        out.stat("disposals_by_worker_threads", n_concurrent_dtor);
        out.stat("slot_operations_from_destructors", n_nested);
        out.stat("shared_from_calls", n_sfrom);
        out.stat("shared_from_calls_without_ownership", n_kept);
        out.stat("shared_from_calls_without_ownership_successful", n_kept_ok);
        out.stat("shared_from_calls_on_disposed_objects", n_kept_dead);
        out.stat("weak_conversions_to_virtual_base", n_virt);
        out.stat("weak_conversions_to_virtual_base_expired", n_virt_expired);
        out.stat("control_block_record_checks", n_trackcheck);
        if (P::tracking) out.stat("control_block_events", g_mt_events);
    }
};

} // namespace hv
