// Fault enumeration: every allocation and every constructor which a creating operation runs
// is made to fail in turn; what the program can see afterwards is compared with before.
#include "heapmon.hpp"
#include "policies.hpp"
using namespace hv;

static void* vp(const volatile void* p) { return const_cast<void*>(p); }

// ------------------------------------------------------------------ fault points
struct Boom { int point; };
static struct {
    bool armed = false;
    int fail = 0;       // number of the point to fail, 0: none
    int points = 0;
    bool fired = false;
    const char* what = "";
} F;
static long n_points, n_fired, n_fired_alloc, n_fired_ctor, n_fired_cb, n_fired_arena, n_propagated, n_checked;

static bool point(const char* what) {
    if (!F.armed) return false;
    ++n_points;
    if (++F.points != F.fail) return false;
    F.fired = true;
    F.what = what;
    ++n_fired;
    return true;
}
static bool alloc_fails() {
    if (!point("operator new")) return false;
    ++n_fired_alloc;
    return true;
}
static void ctor_point(const char* what) {
    if (point(what)) {
        ++n_fired_ctor;
        throw Boom{F.points};
    }
}

// ------------------------------------------------------------------ scenario context
static char ctx[200];
[[noreturn]] static void fail(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* key, const char* f, ...) {
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    F.armed = false;
    out.violation(key, "%s, failing point %d (%s): %s", ctx, F.fail, F.fired ? F.what : "none", b);
}

// ------------------------------------------------------------------ live objects
struct LiveSet {
    const void* p[4000];
    int n = 0;
    void add(const void* q) {
        if (n >= 4000) _exit(3);
        for (int i = 0; i < n; ++i) if (p[i] == q) fail("ctor.unexpected", "object constructed on top of another");
        p[n++] = q;
    }
    void rem(const void* q, const char* what) {
        for (int i = 0; i < n; ++i) if (p[i] == q) { p[i] = p[--n]; return; }
        fail("destroy.garbage", "%s destroyed which does not exist (any more)", what);
    }
    bool has(const void* q) const {
        for (int i = 0; i < n; ++i) if (p[i] == q) return true;
        return false;
    }
};
static LiveSet parts, objs;
static long cb_live;
static long g_disposed;

struct Part {
    int v = 5;
    Part() { ctor_point("member constructor"); parts.add(this); }
    Part(const Part& o) : v(o.v) { ctor_point("member copy constructor"); parts.add(this); }
    Part(Part&& o) : v(o.v) { ctor_point("member move constructor"); parts.add(this); }
    ~Part() { parts.rem(this, "member"); }
};
struct Virt { virtual ~Virt() { } };
struct T1 : Virt {
    int x = 1;
    Part a, b;
    T1() { ctor_point("constructor"); objs.add(this); }
    explicit T1(int i) : x(i) { ctor_point("constructor"); objs.add(this); }
    T1(const T1& o) : Virt(o), x(o.x), a(o.a), b(o.b) { ctor_point("copy constructor"); objs.add(this); }
    T1(T1&& o) : Virt(o), x(o.x), a(std::move(o.a)), b(std::move(o.b)) { ctor_point("move constructor"); o.x = -1; objs.add(this); }
    ~T1() override { objs.rem(this, "object"); ++g_disposed; x = -2; }
};
struct Pad { long pad = 3; };
struct TD : Pad, T1 {
    Part c;
    TD() { ctor_point("derived constructor"); }
};
// constructor which uses the library itself
template <typename P>
struct TN {
    typename P::template sp<T1> s;
    typename P::template wp<T1> w;
    typename P::template up<T1> u;
    typename P::template sp<T1> s2;
    TN() : s(P::template make<T1>(7)), w(s), u(new T1(8)), s2(std::move(u)) {
        s2 = typename P::template sp<T1>(new T1(9));
        ctor_point("nesting constructor");
    }
};
template <typename P>
struct TE : P::esf {
    Part a;
    int x = 4;
    TE() { ctor_point("constructor"); objs.add(this); }
    ~TE() { objs.rem(this, "object"); ++g_disposed; }
    typename P::template sp<TE> me() { return this->shared_from(this); }
    typename P::template wp<TE> wme() { return this->weak_from(this); }
};

static int g_dtag = -1, g_dcalls = 0;
static const void* g_dptr;
struct Del {
    int tag;
    explicit Del(int t) : tag(t) {}
    void operator()(T1* p) const {
        g_dtag = tag;
        g_dptr = p;
        ++g_dcalls;
        delete p;
    }
};
struct DelA {
    int tag;
    explicit DelA(int t) : tag(t) {}
    void operator()(T1* p) const {
        g_dtag = tag;
        g_dptr = p;
        ++g_dcalls;
        delete[] p;
    }
};
static void fdel(T1* p) { g_dtag = 77; g_dptr = p; ++g_dcalls; delete p; }

// ------------------------------------------------------------------ control blocks which throw
template <typename Base>
struct ThrowCB : Base {
    Part p1, p2;
    ThrowCB() { ctor_point("control block constructor"); ++cb_live; }
    ~ThrowCB() { --cb_live; }
};
using ThrowCBF = xmem::control_block_factory<ThrowCB<xmem::control_block_base<xmem::atomic_ref_count>>>;
using ThrowTrackCBF = xmem::control_block_factory<ThrowCB<TrackCB>>;

// ------------------------------------------------------------------ allocators which throw
struct FArena { int id; long live = 0; size_t bytes = 0; };
template <typename T>
struct FAlloc {
    using value_type = T;
    FArena* a;
    explicit FAlloc(FArena* l) noexcept : a(l) {}
    FAlloc(const FAlloc&) noexcept = default;
    template <typename U> FAlloc(const FAlloc<U>& o) noexcept : a(o.a) {}
    T* allocate(size_t n) {
        if (point("allocator")) {
            ++n_fired_arena;
            throw std::bad_alloc();
        }
        auto p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t{alignof(T)}));
        ++a->live;
        a->bytes += n * sizeof(T);
        return p;
    }
    void deallocate(T* p, size_t n) {
        --a->live;
        a->bytes -= n * sizeof(T);
        ::operator delete(p, std::align_val_t{alignof(T)});
    }
};

template <typename CBF>
struct PGen : PXmemBase {
    using cbf = CBF;
    template <typename T> using sp = xmem::basic_shared_ptr<cbf, T>;
    template <typename T> using wp = xmem::basic_weak_ptr<cbf, T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<cbf, T>;
    using esf = xmem::basic_enable_shared_from<cbf>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return sp<T>(cbf::template make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...)); }
    template <typename T> static sp<T> make_ow() { return sp<T>(cbf::template make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
    template <typename T> static auto make_ptr(T&& t) { return make<std::remove_reference_t<T>>(std::forward<T>(t)); }
};
struct QAtomic : PAtomic { template <typename T> static auto make_ptr(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); } };
struct QLocal : PLocal { template <typename T> static auto make_ptr(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); } };
struct QThrow : PGen<ThrowCBF> { static constexpr const char* name = "throwing control block"; };
struct QThrowTrack : PGen<ThrowTrackCBF> { static constexpr const char* name = "throwing recording control block"; };

// ------------------------------------------------------------------ the pool
template <typename P>
struct Pool {
    template <typename T> using S = typename P::template sp<T>;
    template <typename T> using W = typename P::template wp<T>;
    template <typename T, typename... D> using U = xmem::unique_ptr<T, D...>;
    using UF = U<T1, void (*)(T1*)>;
    S<T1> s[5];
    S<void> v;
    S<T1[]> sa;
    S<TE<P>> se;
    S<TN<P>> sn;
    W<T1> w[2];
    U<T1> u;
    U<T1, Del> ud{nullptr, Del(31)};
    U<T1[]> ua;
    U<T1[], DelA> uad{nullptr, DelA(32)};
    Del rd{41};
    U<T1, Del&> ur{nullptr, rd};
    UF uf{nullptr, &fdel};
    U<TE<P>> ue;
    U<TN<P>> un;
    typename P::template storage<T1> st;
    FArena arena{1};
    T1 val{55};
    Rng rng{1};

    struct Snap {
        const void* get[24];
        const void* own[24];
        long cnt[24];
        int tag[24];
        int n = 0;
    };
    void snap(Snap& z) {
        z.n = 0;
        auto sh = [&](auto& p) { z.get[z.n] = p.get(); z.own[z.n] = p.owner(); z.cnt[z.n] = p.use_count(); z.tag[z.n] = bool(p); ++z.n; };
        for (auto& p : s) sh(p);
        sh(v);
        sh(sa);
        sh(se);
        sh(sn);
        auto l = st.load();
        l.reset();
        { auto q = st.load(); z.get[z.n] = q.get(); z.own[z.n] = q.owner(); z.cnt[z.n] = q.use_count(); z.tag[z.n] = 0; ++z.n; }
        for (auto& p : w) { z.get[z.n] = p.lock().get(); z.own[z.n] = p.owner(); z.cnt[z.n] = p.use_count(); z.tag[z.n] = p.expired(); ++z.n; }
        auto uq = [&](auto& p, int t) { z.get[z.n] = p.get(); z.own[z.n] = nullptr; z.cnt[z.n] = bool(p); z.tag[z.n] = t; ++z.n; };
        uq(u, 0);
        uq(ud, ud.get_deleter().tag);
        uq(ua, 0);
        uq(uad, uad.get_deleter().tag);
        uq(ur, ur.get_deleter().tag);
        uq(uf, uf.get_deleter() == &fdel);
        uq(ue, 0);
        uq(un, 0);
        if (z.n > 24) _exit(3);
    }
    static const char* nm(int i) {
        static const char* const N[] = {"s0", "s1", "s2", "s3", "s4", "shared<void>", "shared<T[]>", "shared<esf>", "shared<nesting>", "slot", "w0", "w1",
                                        "unique", "unique<Del>", "unique<T[]>", "unique<T[],Del>", "unique<Del&>", "unique<fn>", "unique<esf>", "unique<nesting>"};
        return N[i];
    }
    void fill_uniques() {
        if (!u) u.reset(new T1(100));
        if (!ud) ud = U<T1, Del>(new T1(101), Del(33));
        if (!ua) ua.reset(new T1[2]);
        if (!uad) uad = U<T1[], DelA>(new T1[3], DelA(34));
        if (!ur) ur.reset(new T1(102));
        if (!uf) uf.reset(new T1(103));
        if (!ue) ue.reset(new TE<P>());
        if (!un) un.reset(new TN<P>());
    }
    // prestate k of the target s[0]
    void prestate(int k) {
        s[0].reset(); s[1].reset();
        w[0] = S<T1>();
        switch (k) {
        case 0: break;
        case 1: s[0] = P::template make<T1>(1); break;
        case 2: s[0] = P::template make<T1>(2); s[1] = s[0]; break;
        case 3: s[1] = P::template make<T1>(3); s[0] = S<T1>(s[1], &val); break;
        case 4: s[0] = S<T1>(S<T1>(), &val); break;
        case 5: s[0] = S<T1>(new T1(4), Del(21)); w[0] = s[0]; break;
        case 6: s[0] = S<T1>(new TD, Del(22)); w[0] = s[0]; w[1] = w[0]; break;
        case 7: s[0] = U<T1>(nullptr); break;       // owns nothing but has an owner
        }
    }
    static constexpr int NPRE = 8;

    // ------------------------------------------------------------ running one operation
    T1* raw = nullptr;          // passed as raw pointer
    int raw_n = 0;              // objects behind it
    int raw_tag = -1;           // deleter expected, -1: default
    TE<P>* rawe = nullptr;
    int allowed = 0;            // bitmask of pointers the operation may change when it succeeds

    template <typename Op>
    bool attempt(int k, Op op) {    // false: there is no k-th point
        Snap a, b;
        snap(a);
        long h0 = hm::live, p0 = parts.n, o0 = objs.n, c0 = cb_live, a0 = arena.live;
        long raw_blocks = (raw ? 1 : 0) + (rawe ? 1 : 0);
        int raw_objs = (raw ? raw_n : 0) + (rawe ? 1 : 0);
        int raw_parts = 0;
        const void* rp = raw;
        if (raw) raw_parts += raw_n * 2 + (dynamic_cast<TD*>(raw) ? 1 : 0);
        if (rawe) raw_parts += 1;
        g_dcalls = 0;
        g_dtag = -1;
        long d0 = g_disposed;
        bool threw = false;
        F.points = 0;
        F.fail = k;
        F.fired = false;
        F.armed = true;
        try {
            op();
        }
        catch (const std::bad_alloc&) { threw = true; }
        catch (const Boom&) { threw = true; }
        F.armed = false;
        ++n_checked;
        if (threw && !F.fired) fail("fault.unexpected_throw", "throws although nothing failed");
        if (!threw && F.fired) fail("fault.swallowed", "the failure was not passed on to the caller");
        if (threw) {
            ++n_propagated;
            if (raw || rawe) {
                if (g_disposed - d0 < raw_objs) fail("fault.raw_leaked", "the object passed as a raw pointer was not disposed of");
                if (raw && raw_tag >= 0) {
                    if (g_dcalls != 1) fail("fault.raw_deleter", "deleter of the object passed as a raw pointer called %d times", g_dcalls);
                    if (g_dtag != raw_tag || g_dptr != rp) fail("fault.raw_deleter", "object passed as a raw pointer disposed of with deleter %d", g_dtag);
                }
                else if (g_dcalls) fail("fault.raw_deleter", "a deleter was called");
            }
            else if (g_dcalls) fail("fault.changed", "a deleter was called");
            if (objs.n != o0 - raw_objs) fail(objs.n > o0 - raw_objs ? "fault.object_leak" : "fault.object_lost", "%d objects instead of %ld after the failure", objs.n, o0 - raw_objs);
            if (parts.n != p0 - raw_parts) fail("fault.object_leak", "%d members instead of %ld after the failure", parts.n, p0 - raw_parts);
            if (hm::live != h0 - raw_blocks) fail(hm::live > h0 - raw_blocks ? "fault.memory_leak" : "fault.memory_lost", "%ld blocks instead of %ld after the failure", hm::live, h0 - raw_blocks);
            if (cb_live != c0) fail("fault.memory_leak", "%ld control blocks instead of %ld after the failure", cb_live, c0);
            if (arena.live != a0) fail("fault.memory_leak", "%ld blocks of the allocator instead of %ld after the failure", arena.live, a0);
            snap(b);
            for (int i = 0; i < a.n; ++i) {
                if (a.get[i] != b.get[i]) fail("fault.changed", "%s stores another pointer after the failure", nm(i));
                if (a.own[i] != b.own[i]) fail("fault.changed", "%s has another owner after the failure", nm(i));
                if (a.cnt[i] != b.cnt[i]) fail("fault.changed", "%s has count %ld instead of %ld after the failure", nm(i), b.cnt[i], a.cnt[i]);
                if (a.tag[i] != b.tag[i]) fail("fault.changed", "%s has deleter/state %d instead of %d after the failure", nm(i), b.tag[i], a.tag[i]);
            }
            if (ue) {
                if (ue->me()) fail("fault.changed", "an object held by a unique pointer has a shared owner after the failure");
                if (ue->wme()) fail("fault.changed", "an object held by a unique pointer has a (weak) owner after the failure");
            }
        }
        else {
            // pointers the operation has no business with
            snap(b);
            for (int i = 0; i < a.n; ++i) {
                if (allowed >> i & 1) continue;
                if (a.get[i] != b.get[i] && !(i == 10 || i == 11)) fail("fault.changed", "%s stores another pointer", nm(i));
                if (a.own[i] != b.own[i]) fail("fault.changed", "%s has another owner", nm(i));
            }
            // what is reachable must be there
            for (int i = 0; i < 5; ++i) if (s[i] && s[i].get() != &val && !objs.has(s[i].get())) fail("fault.dead", "s%d refers to no object", i);
        }
        raw = nullptr;
        rawe = nullptr;
        raw_tag = -1;
        raw_n = 0;
        return F.points >= k && k > 0 ? true : false;
    }

    static constexpr int NSC = 50;
    const char* sname = "";
    // one attempt of scenario sc with target t at failing point k; true if point k existed
    bool scenario(int sc, int ti, int k) {
        S<T1>& t = s[ti];
        auto nraw = [&](int tag = -1, bool der = false) { raw = der ? new TD : new T1(60); raw_n = 1; raw_tag = tag; };
        auto name = [&](const char* n) { sname = n; snprintf(ctx, sizeof ctx, "[%s] %s (target s%d)", P::name, n, ti); };
        int me = 1 << ti;
        enum { V = 1 << 5, SA = 1 << 6, SE = 1 << 7, SN = 1 << 8, SLOT = 1 << 9, UU = 1 << 12, UD = 1 << 13, UA = 1 << 14, UAD = 1 << 15, UR = 1 << 16, UFN = 1 << 17, UE = 1 << 18, UN = 1 << 19 };
        fill_uniques();
        allowed = me;
        bool r = false;
        auto expect = [&](bool c, const char* what) { if (!c) fail("fault.result", "%s", what); };
        switch (sc) {
        case 0: name("t = make()"); return attempt(k, [&] { t = P::template make<T1>(); });
        case 1: name("t = make(int)"); r = attempt(k, [&] { t = P::template make<T1>(71); }); if (!F.fired) expect(t->x == 71 && t.use_count() == 1, "wrong object made"); return r;
        case 2: name("t = make_ptr(lvalue)"); r = attempt(k, [&] { t = P::make_ptr(val); }); expect(val.x == 55, "copied value changed"); if (!F.fired) expect(t->x == 55, "wrong object made"); return r;
        case 3: { name("t = make_ptr(rvalue)"); T1 m(56); r = attempt(k, [&] { t = P::make_ptr(std::move(m)); }); if (!F.fired) expect(t->x == 56 && m.x == -1, "wrong object made"); return r; }
        case 4: name("t = make_for_overwrite()"); return attempt(k, [&] { t = P::template make_ow<T1>(); });
        case 5: name("t = make derived"); return attempt(k, [&] { t = P::template make<TD>(); });
        case 6: name("t = shared(raw)"); nraw(); return attempt(k, [&] { t = S<T1>(raw); });
        case 7: name("t.reset(raw)"); nraw(); return attempt(k, [&] { t.reset(raw); });
        case 8: name("t = shared(raw, d)"); nraw(51); return attempt(k, [&] { t = S<T1>(raw, Del(51)); });
        case 9: name("t.reset(raw, d)"); nraw(52); return attempt(k, [&] { t.reset(raw, Del(52)); });
        case 10: name("t = shared(raw, fn)"); nraw(77); return attempt(k, [&] { t = S<T1>(raw, &fdel); });
        case 11: name("t = shared(raw derived)"); nraw(-1, true); return attempt(k, [&] { t = S<T1>(static_cast<TD*>(raw)); });
        case 12: name("t.reset(raw derived, d)"); nraw(53, true); return attempt(k, [&] { t.reset(static_cast<TD*>(raw), Del(53)); });
        case 13: name("t = shared(nullptr, d)"); return attempt(k, [&] { t = S<T1>(nullptr, Del(54)); });
        case 14: name("t = shared(move(unique))"); allowed |= UU; r = attempt(k, [&] { t = S<T1>(std::move(u)); }); if (!F.fired) expect(!u && t.use_count() == 1, "unique pointer not moved"); return r;
        case 15: name("t = move(unique)"); allowed |= UU; r = attempt(k, [&] { t = std::move(u); }); if (!F.fired) expect(!u && t.use_count() == 1, "unique pointer not moved"); return r;
        case 16: name("t = move(unique<Del>)"); allowed |= UD; return attempt(k, [&] { t = std::move(ud); });
        case 17: name("t = move(unique<Del&>)"); allowed |= UR; return attempt(k, [&] { t = std::move(ur); });
        case 18: name("t = move(unique<fn>)"); allowed |= UFN; return attempt(k, [&] { t = std::move(uf); });
        case 19: name("void = move(unique<Del>)"); allowed = V | UD; return attempt(k, [&] { v = std::move(ud); });
        case 20: name("t = shared(move(unique<fn>))"); allowed |= UFN; return attempt(k, [&] { t = S<T1>(std::move(uf)); });
        case 21: name("arr = move(unique array)"); allowed = SA | UA; r = attempt(k, [&] { sa = std::move(ua); }); return r;
        case 22: name("arr = move(unique array with deleter)"); allowed = SA | UAD; return attempt(k, [&] { sa = std::move(uad); });
        case 23: name("arr.reset(raw)"); allowed = SA; raw = new T1[3]; raw_n = 3; return attempt(k, [&] { sa.reset(raw); });
        case 24: name("arr = shared(raw)"); allowed = SA; raw = new T1[1]; raw_n = 1; return attempt(k, [&] { sa = S<T1[]>(raw); });
        case 25: name("esf = make()"); allowed = SE; r = attempt(k, [&] { se = P::template make<TE<P>>(); }); if (!F.fired) expect(se->me().owner() == se.owner(), "no shared_from"); return r;
        case 26: name("esf = shared(raw)"); allowed = SE; rawe = new TE<P>; return attempt(k, [&] { se = S<TE<P>>(rawe); });
        case 27: name("esf.reset(raw)"); allowed = SE; rawe = new TE<P>; return attempt(k, [&] { se.reset(rawe); });
        case 28: name("esf = move(unique)"); allowed = SE | UE; r = attempt(k, [&] { se = std::move(ue); }); if (!F.fired) expect(se->me().owner() == se.owner(), "no shared_from"); return r;
        case 29: name("void = move(unique esf)"); allowed = V | UE; return attempt(k, [&] { v = std::move(ue); });
        case 30: name("nesting = make()"); allowed = SN; return attempt(k, [&] { sn = P::template make<TN<P>>(); });
        case 31: name("nesting unique = make_unique()"); allowed = UN; return attempt(k, [&] { un = xmem::make_unique<TN<P>>(); });
        case 32: name("u = make_unique()"); allowed = UU; return attempt(k, [&] { u = xmem::make_unique<T1>(); });
        case 33: name("u = make_unique(int)"); allowed = UU; return attempt(k, [&] { u = xmem::make_unique<T1>(3); });
        case 34: name("u = make_unique_ptr(lvalue)"); allowed = UU; return attempt(k, [&] { u = xmem::make_unique_ptr(val); });
        case 35: { name("u = make_unique_ptr(rvalue)"); allowed = UU; T1 m(57); return attempt(k, [&] { u = xmem::make_unique_ptr(std::move(m)); }); }
        case 36: name("u = make_unique_for_overwrite()"); allowed = UU; return attempt(k, [&] { u = xmem::make_unique_for_overwrite<T1>(); });
        case 37: { name("ua = make_unique<T[]>(n)"); allowed = UA; size_t n = k % 4; return attempt(k, [&] { ua = xmem::make_unique<T1[]>(n + 1); }); }
        case 38: name("ua = make_unique_for_overwrite<T[]>(n)"); allowed = UA; return attempt(k, [&] { ua = xmem::make_unique_for_overwrite<T1[]>(3); });
        case 39: name("t = allocate"); return attempt(k, [&] { t = S<T1>(P::cbf::template make_resource_cb<T1>(FAlloc<char>(&arena), 72)); });
        case 40: name("t = allocate for unique"); allowed |= UD; return attempt(k, [&] { t = S<T1>(P::cbf::make_uptr_cb(ud, FAlloc<char>(&arena))); });
        case 41: name("slot.store(make())"); allowed = SLOT; return attempt(k, [&] { st.store(P::template make<T1>(73)); });
        case 42: name("slot.exchange(move(unique))"); allowed = SLOT | UU; return attempt(k, [&] { auto o = st.exchange(std::move(u)); });
        case 43: { name("slot.compare_exchange(make())"); allowed = SLOT; return attempt(k, [&] { auto e = st.load(); st.compare_exchange(e, P::template make<T1>(74)); }); }
        case 44: name("t = allocate for overwrite"); return attempt(k, [&] { t = S<T1>(P::cbf::template make_resource_cb_for_overwrite<T1>(FAlloc<char>(&arena))); });
        case 45: name("esf = allocate for unique"); allowed = SE | UE; return attempt(k, [&] { se = S<TE<P>>(P::cbf::make_uptr_cb(ue, FAlloc<char>(&arena))); });
        case 46: name("t = move(unique derived)"); { U<TD> d(new TD); const TD* dp = d.get(); r = attempt(k, [&] { t = std::move(d); }); if (F.fired) expect(d.get() == dp, "unique pointer to derived lost its object"); else expect(!d, "unique pointer not moved"); return r; }
        case 47: name("t = shared(raw, reference deleter unique)"); allowed |= UR; return attempt(k, [&] { t = S<T1>(std::move(ur)); });
        case 48: name("arr.reset(raw, d)"); allowed = SA; raw = new T1[2]; raw_n = 2; raw_tag = 58; return attempt(k, [&] { sa = U<T1[], DelA>(std::exchange(raw, raw), DelA(58)); });
        case 49: name("weak = shared(make())"); allowed = 1 << 10; return attempt(k, [&] { w[0] = P::template make<T1>(75); });
        }
        _exit(3);
    }
    // operations which create nothing: none of them may reach a fault point
    void nocreate() {
        snprintf(ctx, sizeof ctx, "[%s] operations which create no ownership group", P::name);
        long h0 = hm::total;
        F.points = 0;
        F.fail = 0;
        F.armed = true;
        for (int i = 0; i < 40; ++i) {
            auto& a = s[rng.below(5)];
            auto& b = s[rng.below(5)];
            auto& x = w[rng.below(2)];
            auto& y = w[rng.below(2)];
            switch (rng.below(22)) {
            case 0: a = b; break;
            case 1: { S<T1> c(a); b.swap(c); break; }
            case 2: a.swap(b); break;
            case 3: { S<T1> c(std::move(a)); a = std::move(c); break; }
            case 4: x = a; break;
            case 5: a = x.lock(); break;
            case 6: x = y; break;
            case 7: x = std::move(y); break;
            case 8: x.swap(y); break;
            case 9: v = a; break;
            case 10: a = S<T1>(v, &val); break;
            case 11: if (rng.chance(1, 4)) a.reset(); break;
            case 12: if (rng.chance(1, 4)) x.reset(); break;
            case 13: a = xmem::static_pointer_cast<T1>(b); break;
            case 14: { auto d = xmem::dynamic_pointer_cast<TD>(a); a = d ? S<T1>(d) : a; break; }
            case 15: { auto c = xmem::const_pointer_cast<const T1>(a); break; }
            case 16: st.store(a); break;
            case 17: a = st.load(); break;
            case 18: a = st.exchange(a); break;
            case 19: { auto e = st.load(); st.compare_exchange(rng.chance(1, 2) ? e : a, b); break; }
            case 20: if (se) { auto m = se->me(); auto wm = se->wme(); se = m; } break;
            case 21: { U<T1> q(std::move(u)); u.swap(q); U<T1[]> r(std::move(ua)); ua = std::move(r); ud = std::move(ud); S<T1> n(nullptr); W<T1> m; auto al = xmem::make_aliased(a, a.get()); break; }
            }
        }
        F.armed = false;
        n_points += 0;
        if (F.points) fail("alloc.noncreating", "an operation which creates no ownership group allocated or constructed");
        if (hm::total != h0) fail("alloc.noncreating", "an operation which creates no ownership group allocated");
    }
};

static long n_nocreate;

template <typename P>
static void teardown_check(const char* n) {
    snprintf(ctx, sizeof ctx, "[%s] %s: after everything is gone", P::name, n);
    F.fail = 0;
    F.fired = false;
    if (objs.n) fail("leak", "%d objects left", objs.n);
    if (parts.n) fail("leak", "%d members left", parts.n);
    if (cb_live) fail("leak", "%ld control blocks left", cb_live);
    if (hm::live) fail("leak", "%ld blocks left", hm::live);
    if (g_track_error) fail("track.error", "%s", g_track_error);
}

// complete enumeration: all scenarios, all states of the target, all failing points
template <typename P>
static void enumerated(int sc, int pre, char* smp) {
    int k = 1;
    const char* n = "";
    for (;; ++k) {
        bool more;
        {
            Pool<P> p;
            p.prestate(pre);
            if (sc < Pool<P>::NSC) more = p.scenario(sc, 0, k);
            else { p.rng = Rng(uint64_t(sc * 100 + pre)); p.nocreate(); more = false; ++n_nocreate; }
            n = p.sname;
            out.hash(mix(uint64_t(sc) << 32 ^ uint64_t(pre) << 16 ^ uint64_t(k)) ^ mix(uint64_t(P::name[0]) * 256 + uint64_t(strlen(P::name))));
            // the operation works once nothing fails
            if (more && sc < Pool<P>::NSC) p.scenario(sc, 0, 0);
        }
        teardown_check<P>(n);
        if (!more) break;
    }
    snprintf(smp, 300, "[%s] %s, target state %d: %d failing points", P::name, n, pre, k - 1);
}

template <typename P>
static void random_history(uint64_t seed, char* smp) {
    uint64_t h = 1;
    {
        Pool<P> p;
        Rng r(seed);
        p.rng = Rng(seed + 1);
        for (int i = 0; i < 5; ++i) {
            switch (r.below(4)) {
            case 0: break;
            case 1: p.s[i] = P::template make<T1>(i); break;
            case 2: p.s[i] = p.s[r.below(5)]; break;
            case 3: p.s[i].reset(new TD, Del(60)); break;
            }
        }
        int n = 10 + int(r.below(20));
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 5)) { p.nocreate(); ++n_nocreate; continue; }
            int sc = int(r.below(Pool<P>::NSC)), ti = int(r.below(5)), k = r.chance(1, 3) ? 0 : 1 + int(r.below(9));
            bool m = p.scenario(sc, ti, k);
            h = mix(h ^ uint64_t(sc * 1000 + ti * 100 + k * 2 + m));
        }
        out.hash(h);
        snprintf(smp, 300, "[%s] random history of %d operations, last: %s", P::name, n, p.sname);
    }
    teardown_check<P>("random history");
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    hm::fail_hook = alloc_fails;
    out.before_finish = [] {
        out.stat("fault_points_reached", n_points);
        out.stat("faults_injected", n_fired);
        out.stat("faults_allocation", n_fired_alloc);
        out.stat("faults_constructor", n_fired_ctor);
        out.stat("faults_allocator", n_fired_arena);
        out.stat("exceptions_propagated", n_propagated);
        out.stat("operations_checked", n_checked);
        out.stat("noncreating_rounds", n_nocreate);
        out.stat("heap_blocks_monitored", hm::total);
    };
    constexpr int NSCALL = Pool<QAtomic>::NSC + 1, NPRE = Pool<QAtomic>::NPRE;
    bool all = out.args.is("enum");
    out.run([&](long c) {
        char smp[320] = "";
        if (all) {
            int pol = int(c % 4), sc = int(c / 4 % NSCALL), pre = int(c / 4 / NSCALL);
            if (pre >= NPRE) return;
            if (pol == 0) enumerated<QAtomic>(sc, pre, smp);
            else if (pol == 1) enumerated<QLocal>(sc, pre, smp);
            else if (pol == 2) enumerated<QThrow>(sc, pre, smp);
            else enumerated<QThrowTrack>(sc, pre, smp);
            out.stat("enumerated_operation_states");
        }
        else {
            uint64_t s = mix(out.args.seed * 1000003ull + uint64_t(c));
            switch (c % 4) {
            case 0: random_history<QAtomic>(s, smp); break;
            case 1: random_history<QLocal>(s, smp); break;
            case 2: random_history<QThrow>(s, smp); break;
            case 3: random_history<QThrowTrack>(s, smp); break;
            }
        }
        if (out.want_sample()) out.sample(smp);
        out.stat("cases");
    });
    return 0;
}
