// Objects which find their owners: every way to create the ownership, every state in which there is none,
// copies and assignments of the objects themselves.  Profile probe: the recorded findings, each in a process of its own.
#include "heapmon.hpp"
#include "policies.hpp"
#include <memory>
#include <vector>
#include <string>
#include <algorithm>
#include <sys/wait.h>
using namespace hv;

static char ctx[300];
#define FAIL(key, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); out.violation(key, "%s: %s", ctx, b_); } while (0)
static ArenaLog g_arena;
static long n_owned, n_unowned, n_ctor, n_dtor, n_copies, n_null, n_reowned, n_ways, n_weak, n_steps;

template <typename P> struct World {
    template <typename T> using sp = typename P::template sp<T>;
    template <typename T> using wp = typename P::template wp<T>;
    static constexpr bool std_ = P::is_std;

    struct Pad { long pad[3]; virtual ~Pad() = default; };

    // the association is a base at some offset; shared_from_this returns pointers to void or to the class
    struct Plain : P::esf {                                     // at the beginning
        int m = 4;
        static constexpr const char* name = "enable_shared_from";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<void> st() { return this->shared_from_this(); }
        sp<const void> stc() const { return this->shared_from_this(); }
        wp<void> wt() { return this->weak_from_this(); }
        wp<const void> wtc() const { return this->weak_from_this(); }
        const void* self() const { return this; }
    };
    struct Multi : Pad, P::esf {                                // at an offset
        int m = 5;
        static constexpr const char* name = "enable_shared_from at an offset";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<void> st() { return this->shared_from_this(); }
        sp<const void> stc() const { return this->shared_from_this(); }
        wp<void> wt() { return this->weak_from_this(); }
        wp<const void> wtc() const { return this->weak_from_this(); }
    };
    struct This : P::template esft<This> {
        int m = 6;
        static constexpr const char* name = "enable_shared_from_this";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<This> st() { return this->shared_from_this(); }
        sp<const This> stc() const { return this->shared_from_this(); }
        wp<This> wt() { return this->weak_from_this(); }
        wp<const This> wtc() const { return this->weak_from_this(); }
    };
    struct ThisAt : Pad, P::template esft<ThisAt> {
        int m = 7;
        static constexpr const char* name = "enable_shared_from_this at an offset";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<ThisAt> st() { return this->shared_from_this(); }
        sp<const ThisAt> stc() const { return this->shared_from_this(); }
        wp<ThisAt> wt() { return this->weak_from_this(); }
        wp<const ThisAt> wtc() const { return this->weak_from_this(); }
    };
    struct Derived : Pad, ThisAt { int more = 8; static constexpr const char* name = "class derived from one with enable_shared_from_this"; };
    struct Virt : virtual P::esf {
        int m = 9;
        virtual ~Virt() = default;
        static constexpr const char* name = "virtual base enable_shared_from";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<void> st() { return this->shared_from_this(); }
        sp<const void> stc() const { return this->shared_from_this(); }
        wp<void> wt() { return this->weak_from_this(); }
        wp<const void> wtc() const { return this->weak_from_this(); }
    };

    // ---- checks of one object
    template <typename T, typename S> static void is_owned(T& o, const S& owner, long n, const char* when) {
        ++n_owned;
        auto chk = [&](const auto& p, const volatile void* want, const char* what) {
            if (static_cast<const volatile void*>(p.get()) != want) FAIL("sfrom.get", "%s %s: %s gives %p instead of %p", T::name, when, what, (const void*)p.get(), (const void*)want);
            if (!P::same_owner(p, owner)) FAIL("sfrom.owner", "%s %s: %s gives another owner", T::name, when, what);
            if (p.use_count() != n + 1) FAIL("sfrom.count", "%s %s: use_count %ld after %s, must be %ld", T::name, when, p.use_count(), what, n + 1);
        };
        auto chkw = [&](const auto& p, const volatile void* want, const char* what) {
            ++n_weak;
            if (!P::same_owner(p, owner)) FAIL("sfrom.owner", "%s %s: %s gives another owner", T::name, when, what);
            if (p.use_count() != n || p.expired()) FAIL("sfrom.count", "%s %s: use_count %ld after %s, must be %ld", T::name, when, p.use_count(), what, n);
            auto l = p.lock();
            if (static_cast<const volatile void*>(l.get()) != want) FAIL("sfrom.get", "%s %s: %s locks to %p instead of %p", T::name, when, what, (const void*)l.get(), (const void*)want);
        };
        int local;
        {
            auto a = o.st();
            chk(a, most(o, a), "shared_from_this");
        }
        { const T& co = o; auto a = co.stc(); chk(a, most(o, a), "const shared_from_this"); }
        { auto a = o.sf(&o.m); chk(a, &o.m, "shared_from(member)"); auto b = o.sf(&local); if (b.use_count() != n + 2) FAIL("sfrom.count", "%s %s: two", T::name, when); }
        { auto a = o.sf(static_cast<const T*>(&o)); chk(a, &o, "shared_from(const this)"); }
        { auto a = o.sf(static_cast<int*>(nullptr)); chk(a, nullptr, "shared_from(null)"); }
        { auto a = o.wt(); auto want = most(o, a.lock()); chkw(a, want, "weak_from_this"); }
        { const T& co = o; auto a = co.wtc(); auto want = most(o, a.lock()); chkw(a, want, "const weak_from_this"); }
        { auto a = o.wf(&o.m); chkw(a, &o.m, "weak_from(member)"); }
        if (owner.use_count() != n) FAIL("sfrom.count", "%s %s: use_count %ld left, must be %ld", T::name, when, owner.use_count(), n);
    }
    // what shared_from_this has to point to
    template <typename T, typename S> static const volatile void* most(T& o, const S& s) {
        using E = std::remove_cv_t<std::remove_pointer_t<decltype(s.get())>>;
        if constexpr (std::is_void_v<E>) {
            // the void pointer refers to the object the ownership was created with
            if constexpr (std_) return static_cast<const xstd::enable_shared_from*>(&o);
            else return &o;
        }
        else return static_cast<const volatile E*>(&o);
    }
    template <typename T> static void is_unowned(T& o, const char* when, bool expired_ok = false) {
        ++n_unowned;
        auto chk = [&](const auto& p, const char* what) {
            if (p.get() || p.use_count() || bool(p) || !P::no_owner(p)) FAIL("sfrom.unowned", "%s %s: %s gives a pointer which is not empty (%p, count %ld)", T::name, when, what, (const void*)p.get(), p.use_count());
        };
        auto chkw = [&](const auto& p, const char* what) {
            ++n_weak;
            if (p.use_count() || !p.expired() || p.lock()) FAIL("sfrom.unowned", "%s %s: %s gives a pointer which is not expired", T::name, when, what);
            if (!expired_ok && !P::no_owner(p)) FAIL("sfrom.unowned", "%s %s: %s gives a pointer with an owner", T::name, when, what);
        };
        const T& co = o;
        chk(o.st(), "shared_from_this");
        chk(co.stc(), "const shared_from_this");
        chk(o.sf(&o.m), "shared_from(member)");
        chk(o.sf(static_cast<int*>(nullptr)), "shared_from(null)");
        chkw(o.wt(), "weak_from_this");
        chkw(co.wtc(), "const weak_from_this");
        chkw(o.wf(&o.m), "weak_from(member)");
    }

    // ---- every way to create the ownership
    template <typename T> struct D2 { int* ran; void operator()(T* p) const { ++*ran; delete p; } };
    template <typename T> static constexpr int WAYS = 17;
    template <typename T, typename F> static void created(int way, F f) {
        ++n_ways;
        static int ran;
        using xu = typename P::template up<T>;
        using xud = typename P::template up<T, D2<T>>;
        ArenaLog& arena = g_arena;
        switch (way) {
        case 0: f(sp<T>(new T)); break;
        case 1: f(P::template make<T>()); break;
        case 2: f(P::template make_ow<T>()); break;
        case 3: f(sp<T>(new T, D2<T>{&ran})); break;
        case 4: { xu u(new T); unowned(*u, "held by a unique pointer"); f(sp<T>(std::move(u))); break; }
        case 5: { xud u(new T, D2<T>{&ran}); unowned(*u, "held by a unique pointer"); f(sp<T>(std::move(u))); break; }
        case 6: { sp<T> s; s.reset(new T); f(std::move(s)); break; }
        case 7: { sp<T> s = P::template make<T>(); s.reset(new T, D2<T>{&ran}); f(std::move(s)); break; }
        case 8: { sp<T> s = P::template make<T>(); s = xu(new T); f(std::move(s)); break; }
        case 9: { sp<T> s; s = xud(new T, D2<T>{&ran}); f(std::move(s)); break; }
        case 10: { T* t = new T; sp<T> s = P::template const_cast_<T>(sp<const T>(t)); f(std::move(s)); break; }
        case 11: { sp<T> s = P::template const_cast_<T>(P::template make<const T>()); f(std::move(s)); break; }
        case 12: { sp<void> v(new T); sp<T> s = P::template static_cast_<T>(v); v.reset(); f(std::move(s)); break; }
        case 13: { sp<const T> v(static_cast<const T*>(new T), [](const T* p) { delete p; }); sp<T> s = P::template const_cast_<T>(v); v.reset(); f(std::move(s)); break; }
        case 14: f(P::template alloc<T>(&arena)); break;
        case 15: { xu u(new T); f(P::template alloc_uptr<T>(&arena, std::move(u))); break; }
        case 16: { T proto; sp<T> s = P::template make<T>(proto); f(std::move(s)); break; }
        }
    }
    template <typename T> static void unowned(T& o, const char* when) { if constexpr (!std_) is_unowned(o, when); }

    template <typename T> static void ways(Rng& r) {
        int way = int(r.below(WAYS<T>));
        snprintf(ctx, sizeof ctx, "%s, creation %d", P::name, way);
        out.hash(mix(uint64_t(way) * 131 + uint64_t(T::name[7]) + uint64_t(sizeof(T)) * 1000 + uint64_t(P::name[0]) * 77777));
        created<T>(way, [&](sp<T> s) {
            is_owned(*s, s, 1, "after creation");
            sp<T> t = s;
            is_owned(*s, s, 2, "with two owners");
            sp<T> m = std::move(s);
            is_owned(*m, m, 2, "after a move");
            sp<void> v = m;
            wp<T> w = m;
            m.reset();
            t.reset();
            is_owned(*w.lock(), v, 1 + 1, "owned by a pointer to void");
            sp<int> al(v, &static_cast<T*>(w.lock().get())->m);
            T* raw = w.lock().get();
            v.reset();
            is_owned(*raw, al, 1, "owned by an alias");
            // only what it gave out keeps it
            auto self = raw->st();
            al.reset();
            is_owned(*raw, self, 1, "owned by a pointer from shared_from_this");
            auto wk = raw->wt();
            self.reset();
            if (!w.expired() || !wk.expired() || wk.lock() || w.lock()) FAIL("weak.expired", "not expired after the last owner went");
        });
    }

    // ---- copies, moves, assignments of objects
    template <typename T> static void objects(Rng& r) {
        snprintf(ctx, sizeof ctx, "%s, %s", P::name, T::name);
        sp<T> own[3];
        for (auto& o : own) { created<T>(int(r.below(WAYS<T> - 3)), [&](sp<T> s) { o = std::move(s); }); }
        std::vector<T*> raws;       // objects nobody owns
        T stack1, stack2;
        raws.push_back(&stack1);
        raws.push_back(&stack2);
        std::vector<typename P::template up<T>> uniq;
        uint64_t h = 1;
        auto check = [&](const char* when) {
            for (auto& o : own) if (o) is_owned(*o, o, 1, when);
            for (auto* p : raws) unowned(*p, when);
            for (auto& u : uniq) if (u) unowned(*u, when);
        };
        check("at the beginning");
        int steps = 4 + int(r.below(12));
        for (int i = 0; i < steps; ++i) {
            ++n_steps;
            uint32_t k = r.below(12);
            auto& x = own[r.below(3)];
            auto& y = own[r.below(3)];
            T& raw = *raws[r.below(uint32_t(raws.size()))];
            h = mix(h ^ k);
            const char* w = "";
            ++n_copies;
            switch (k) {
            case 0: { T c(*x); unowned(c, "copy of an owned object"); w = "after it was copied"; break; }
            case 1: { T c(std::move(*x)); unowned(c, "move of an owned object"); w = "after it was moved"; break; }
            case 2: raw = *x; w = "after assignment of an owned object to an unowned one"; break;
            case 3: *x = raw; w = "after assignment of an unowned object to an owned one"; break;
            case 4: *x = *y; w = "after assignment of owned objects"; break;
            case 5: *x = std::move(*y); w = "after move assignment of owned objects"; break;
            case 6: std::swap(*x, *y); w = "after swapping owned objects"; break;
            case 7: std::swap(*x, raw); w = "after swapping with an unowned object"; break;
            case 8: *x = T(); w = "after assignment of a temporary"; break;
            case 9: x = P::template make<T>(*y); w = "after an owned object was created as a copy"; break;
            case 10: uniq.push_back(typename P::template up<T>(new T(*x))); w = "after a unique object was created as a copy"; break;
            default:
                if (!uniq.empty() && uniq.back()) { x = sp<T>(std::move(uniq.back())); uniq.pop_back(); w = "after a unique pointer became shared"; }
                else { raw = std::move(*x); w = "after move assignment to an unowned object"; }
            }
            check(w);
        }
        out.hash(mix(h ^ uint64_t(sizeof(T)) ^ uint64_t(P::name[0]) << 32));
    }

    // ---- objects which are owned again after an ownership which did not destroy them
    template <typename T> struct Noop { int* ran; void operator()(const T*) const { ++*ran; } };
    template <typename T> static void reowned(Rng& r) {
        snprintf(ctx, sizeof ctx, "%s, %s owned again", P::name, T::name);
        ++n_reowned;
        T o;
        unowned(o, "before it is owned");
        int ran = 0, rounds = 2 + int(r.below(3));
        uint64_t h = 5;
        std::vector<wp<T>> kept;                // hold on to the bookkeeping of the ended ownerships
        using xud = typename P::template up<T, Noop<T>>;
        using xuc = typename P::template up<const T, Noop<T>>;
        for (int i = 0; i < rounds; ++i) {
            Noop<T> d{&ran};
            int way = int(r.below(7));
            sp<T> s;
            switch (way) {
            case 0: s = sp<T>(&o, d); break;
            case 1: s = sp<T>(xud(&o, d)); break;
            case 2: s.reset(&o, d); break;
            case 3: s = xud(&o, d); break;
            case 4: s = P::template const_cast_<T>(sp<const T>(static_cast<const T*>(&o), d)); break;
            case 5: s = P::template const_cast_<T>(sp<const T>(xuc(&o, d))); break;
            default: s = P::template alloc_uptr<T>(&g_arena, xud(&o, d)); break;
            }
            if (s.get() != &o) FAIL("strong.get", "another address");
            is_owned(o, s, 1, i ? "owned again" : "owned for the first time");
            { T copy(o); unowned(copy, "copy of an owned object"); copy = o; unowned(copy, "assigned from an owned object"); }
            sp<void> v = s;
            is_owned(o, s, 2, "with two owners");
            uint32_t keep = r.below(3);
            if (keep == 1) kept.push_back(s);
            if (keep == 2) kept.assign(1, o.wf(&o));
            s.reset();
            v.reset();
            if (ran != i + 1) FAIL("destroy.count", "the deleter ran %d times after %d ownerships", ran, i + 1);
            for (auto& w : kept) if (!w.expired() || w.lock()) FAIL("weak.expired", "not expired after the last owner went");
            { T copy(o); unowned(copy, "copy of an object which was owned before"); }
            h = mix(h ^ uint64_t(way * 4 + int(keep)));
        }
        out.hash(mix(h ^ uint64_t(sizeof(T)) ^ uint64_t(P::name[0]) << 32));
    }

    // ---- null pointers
    template <typename T> static void nulls() {
        ++n_null;
        snprintf(ctx, sizeof ctx, "%s, null pointer to %s", P::name, T::name);
        sp<T> a(static_cast<T*>(nullptr));
        sp<T> b = P::template make<T>();
        b.reset(static_cast<T*>(nullptr));
        if (a.get() || b.get() || a || b) FAIL("sfrom.null", "not null");
        typename P::template up<T> u;
        sp<T> c(std::move(u));
        c = typename P::template up<T>();
        if (c.get()) FAIL("sfrom.null", "not null");
        struct ND { void operator()(T*) const {} };
        sp<T> d(static_cast<T*>(nullptr), ND{});
        sp<T> e(nullptr, ND{});
        if (d.get() || e.get()) FAIL("sfrom.null", "not null");
        sp<T> o = P::template make<T>();
        sp<T> f(o, static_cast<T*>(nullptr));
        if (f.get() || f.use_count() != 2) FAIL("sfrom.null", "null alias");
        is_owned(*o, o, 2, "with a null alias");
        wp<T> w = a;
        w = f;
    }

    // ---- construction and destruction
    struct Phases;
    struct PhaseMember { Phases* host; explicit PhaseMember(Phases* h) : host(h) {} ~PhaseMember(); };
    struct PhaseBase : P::esf {
        bool watch;
        int m = 1;
        static constexpr const char* name = "enable_shared_from";
        template <typename T> sp<T> sf(T* p) const { return this->shared_from(p); }
        template <typename T> wp<T> wf(T* p) const { return this->weak_from(p); }
        sp<void> st() { return this->shared_from_this(); }
        sp<const void> stc() const { return this->shared_from_this(); }
        wp<void> wt() { return this->weak_from_this(); }
        wp<const void> wtc() const { return this->weak_from_this(); }
        explicit PhaseBase(bool w) : watch(w) { ++n_ctor; unowned(*this, "under construction (base)"); }
        virtual ~PhaseBase() { ++n_dtor; if constexpr (!std_) is_unowned(*this, "being destroyed (base)", true); }
    };
    struct Phases : PhaseBase {
        PhaseMember mem{this};
        sp<void> kept;
        explicit Phases(bool w = true) : PhaseBase(w) { ++n_ctor; unowned(*this, "under construction"); kept = this->st_safe(); if (kept) FAIL("sfrom.unowned", "not empty under construction"); }
        sp<void> st_safe() { if constexpr (std_) return sp<void>(); else return this->shared_from_this(); }
        ~Phases() {
            ++n_dtor;
            if constexpr (!std_) is_unowned(*this, "being destroyed", true);
        }
    };
    static void phases(Rng& r) {
        int way = int(r.below(WAYS<Phases> - 1));
        snprintf(ctx, sizeof ctx, "%s, construction and destruction, creation %d", P::name, way);
        out.hash(mix(uint64_t(way) + 99999 + uint64_t(P::name[0]) * 77777));
        wp<Phases> w;
        wp<int> wm;
        created<Phases>(way, [&](sp<Phases> s) {
            is_owned(static_cast<PhaseBase&>(*s), s, 1, "after construction");
            w = s;
            if constexpr (!std_) wm = s->wf(&s->m);
            if (r.chance(1, 2)) { sp<Phases> t = s; is_owned(static_cast<PhaseBase&>(*s), s, 2, "with two owners"); }
        });
        if (!w.expired() || w.lock() || !wm.expired()) FAIL("weak.expired", "not expired after destruction");
        // destroyed through a unique pointer: never owned
        { typename P::template up<Phases> u(new Phases); }
        { Phases p; unowned(static_cast<PhaseBase&>(p), "on the stack"); }
    }

    static void all(Rng& r) {
        if constexpr (std_) {
            switch (r.below(8)) {
            case 6: reowned<Plain>(r); break;
            case 7: reowned<Multi>(r); reowned<Virt>(r); break;
            case 0: ways<Plain>(r); ways<Multi>(r); break;
            case 1: ways<Virt>(r); break;
            case 2: objects<Plain>(r); break;
            case 3: objects<Multi>(r); break;
            case 4: nulls<Plain>(); nulls<Multi>(); nulls<Virt>(); break;
            default: phases(r); break;
            }
        }
        else switch (r.below(12)) {
        case 9: reowned<Plain>(r); reowned<Multi>(r); break;
        case 10: reowned<This>(r); reowned<ThisAt>(r); break;
        case 11: reowned<Derived>(r); reowned<Virt>(r); break;
        case 0: ways<Plain>(r); ways<Multi>(r); break;
        case 1: ways<This>(r); ways<ThisAt>(r); break;
        case 2: ways<Derived>(r); ways<Virt>(r); break;
        case 3: objects<Plain>(r); break;
        case 4: objects<This>(r); break;
        case 5: objects<ThisAt>(r); objects<Multi>(r); break;
        case 6: nulls<Plain>(); nulls<Multi>(); nulls<This>(); nulls<ThisAt>(); nulls<Derived>(); nulls<Virt>(); break;
        default: phases(r); break;
        }
    }
};
template <typename P> World<P>::PhaseMember::~PhaseMember() {
    if constexpr (!World<P>::std_) World<P>::is_unowned(static_cast<PhaseBase&>(*host), "being destroyed (member)", true);
}

// ------------------------------------------------------------------ the recorded findings
struct N : xmem::enable_shared_from_this<N> { int x = 3; };
template <typename F> static bool survives(F f) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void probe(int which) {
    if (which == 0) {
        bool ok = survives([] {
            N n;
            { xmem::shared_ptr<N> h(&n, [](N*) {}); }
            auto s = n.shared_from_this();
            if (s) _exit(7);
        });
        if (!ok) fprintf(stdout, "@K sfrom.kf.outlives_owner\tshared_from_this of an object which outlived its owners (their deleter does not destroy it)\n");
    }
    else {
        bool ok = survives([] {
            N n;
            auto nop = [](N*) {};
            xmem::shared_ptr<N> a(&n, nop);
            { xmem::shared_ptr<N> b(&n, nop); }
            auto s = n.shared_from_this();
            if (!s || !xmem::same_owner(s, a)) _exit(7);
        });
        if (!ok) fprintf(stdout, "@K sfrom.kf.second_group\tshared_from_this of an object after a second, non-destroying ownership group of it ended\n");
    }
    out.hash(mix(uint64_t(which) + 31337));
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("owned_objects_queried", n_owned);
        out.stat("unowned_objects_queried", n_unowned);
        out.stat("queries_under_construction", n_ctor);
        out.stat("queries_during_destruction", n_dtor);
        out.stat("object_copies_and_assignments", n_copies);
        out.stat("null_pointer_rounds", n_null);
        out.stat("objects_owned_repeatedly", n_reowned);
        out.stat("ownership_creations", n_ways);
        out.stat("weak_pointers_obtained", n_weak);
    };
    bool pr = out.args.is("probe"), xs = out.args.is("xstd");
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        hm::fill = static_cast<unsigned char>(1 + r.below(254));
        long h0 = hm::live;
        if (pr) { probe(int(c & 1)); out.stat("cases"); return; }
        if (xs) World<PStd>::all(r);
        else switch (c % 3) {
        case 0: World<PAtomic>::all(r); break;
        case 1: World<PLocal>::all(r); break;
        case 2: World<PTrack>::all(r); break;
        }
        if (g_arena.allocs != g_arena.deallocs) FAIL("leak", "%ld blocks of the allocator left", g_arena.allocs - g_arena.deallocs);
        if (g_arena.error) FAIL("alloc.arena", "%s", g_arena.error);
        if (hm::live != h0) FAIL("leak", "%ld blocks left", hm::live - h0);
        if (PTrack::tracking && g_track_error) FAIL("track.error", "%s", g_track_error);
        if (out.want_sample()) out.sample(ctx);
        out.stat("cases");
    });
    return 0;
}
