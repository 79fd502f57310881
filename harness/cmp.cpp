// Comparison operators and owner-based ordering.
#include "policies.hpp"
#include "common.hpp"
#include <set>
#include <vector>
#include <algorithm>
#include <memory>
using namespace hv;

static char ctx[300];
#define FAIL(key, ...) do { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); out.violation(key, "%s: %s", ctx, b_); } while (0)
static long n_cmp, n_pairs, n_triples, n_sets, n_expired, n_aliases;

// ------------------------------------------------------------------ values
struct B1 { int a = 1; virtual ~B1() = default; };
struct B2 { int b = 2; virtual ~B2() = default; };
struct D : B1, B2 { int d = 3; };
static D arr[6];

// std's own comparisons are not judged (since C++20, libstdc++ compares pointers to different types without converting them first)
template <typename A> struct is_std : std::false_type {};
template <typename A> struct is_std<std::shared_ptr<A>> : std::true_type {};

template <typename A, typename B>
static void six(const char* what, const A& a, const B& b) {
    auto* ra = a.get();
    auto* rb = b.get();
    ++n_cmp;
    if ((a == b) != (ra == rb)) FAIL("cmp.eq", "%s: == gives %d for %p and %p", what, int(a == b), (const void*)ra, (const void*)rb);
    if ((a != b) != (ra != rb)) FAIL("cmp.eq", "%s: != gives %d for %p and %p", what, int(a != b), (const void*)ra, (const void*)rb);
    if constexpr (is_std<A>::value && !std::is_same_v<A, B>) return;
    if ((a < b) != (ra < rb)) FAIL("cmp.rel", "%s: < gives %d for %p and %p", what, int(a < b), (const void*)ra, (const void*)rb);
    if ((a <= b) != (ra <= rb)) FAIL("cmp.rel", "%s: <= gives %d for %p and %p", what, int(a <= b), (const void*)ra, (const void*)rb);
    if ((a > b) != (ra > rb)) FAIL("cmp.rel", "%s: > gives %d for %p and %p", what, int(a > b), (const void*)ra, (const void*)rb);
    if ((a >= b) != (ra >= rb)) FAIL("cmp.rel", "%s: >= gives %d for %p and %p", what, int(a >= b), (const void*)ra, (const void*)rb);
}
template <typename A, typename B> static void both(const char* what, const A& a, const B& b) { six(what, a, b); six(what, b, a); }

struct Nop { void operator()(const void*) const {} };
struct Nop2 { int x; void operator()(const volatile void*) const {} };
static void nopf(B1*) {}

template <typename T> static T* some(Rng& r) {
    uint32_t i = r.below(8);
    if (i >= 7) return nullptr;
    if (i == 6) return &arr[0];
    return &arr[i];
}
static uint64_t unique_values(Rng& r) {
    Nop2 ref{1};
    uint64_t h = 7;
    for (int k = 0; k < 6; ++k) {
        D* p = some<D>(r);
        D* q = some<D>(r);
        h = mix(h ^ (p ? p == q ? 3 : p < q ? 1 : 2 : q ? 4 : 5));
        xmem::unique_ptr<D, Nop> d(p);
        xmem::unique_ptr<D, Nop2> d2(q, Nop2{2});
        xmem::unique_ptr<const D, Nop> cd(p);
        xmem::unique_ptr<B1, Nop> b1(q);
        xmem::unique_ptr<B1, Nop2&> b1r(p, ref);
        xmem::unique_ptr<B2, Nop2> b2(q, Nop2{3});
        xmem::unique_ptr<const B2, Nop> cb2(p);
        xmem::unique_ptr<B1, void (*)(B1*)> f(q, nopf);
        xmem::unique_ptr<D[], Nop> ad(p);
        both("unique<D> and unique<D, other deleter>", d, d2);
        both("unique<D> and unique<const D>", d2, cd);
        both("unique<D> and unique<B1>", d, b1);
        both("unique<D> and unique<B2>", d, b2);
        both("unique<const D> and unique<B2>", cd, b2);
        both("unique<B1> and unique<B1, reference deleter>", b1, b1r);
        both("unique<B1> and unique<B1, function>", b1r, f);
        both("unique<B2> and unique<const B2>", b2, cb2);
        both("unique<D[]> and unique<D>", ad, d2);
        both("unique<D[]> and unique<B2>", ad, b2);
        six("unique<D> and itself", d, d);
        d.release(); d2.release(); cd.release(); b1.release(); b1r.release(); b2.release(); cb2.release(); f.release(); ad.release();
        both("released unique", d, b2);
    }
    return h;
}
template <typename P> static void shared_values(Rng& r) {
    auto g1 = P::template make<int>(1);
    auto g2 = P::template make<int>(2);
    typename P::template sp<int> none;
    for (int k = 0; k < 6; ++k) {
        auto own = [&]() -> typename P::template sp<int>& { uint32_t i = r.below(5); return i < 2 ? g1 : i < 4 ? g2 : none; };
        D* p = some<D>(r);
        D* q = some<D>(r);
        using D1 = typename P::template sp<D>;
        typename P::template sp<D> d(own(), p), d2(own(), q);
        typename P::template sp<const D> cd(own(), p);
        typename P::template sp<B1> b1(own(), q);
        typename P::template sp<B2> b2(own(), p);
        typename P::template sp<const B2> cb2(own(), q);
        typename P::template sp<void> v(own(), p);
        typename P::template sp<const void> cv(own(), q);
        both("shared<D> and shared<D>", d, d2);
        both("shared<D> and shared<const D>", d2, cd);
        both("shared<D> and shared<B1>", d, b1);
        both("shared<D> and shared<B2>", d2, b2);
        both("shared<const D> and shared<B2>", cd, b2);
        both("shared<B2> and shared<const B2>", b2, cb2);
        both("shared<D> and shared<void>", d, v);
        both("shared<B2> and shared<const void>", b2, cv);
        both("shared<void> and shared<const void>", v, cv);
        six("shared<B2> and itself", b2, b2);
        six("copies", d, D1(d));
        if constexpr (!P::is_std) {
            // pointers of another family
            xmem::local_shared_ptr<int> lo = xmem::make_local_shared<int>(1);
            xmem::local_shared_ptr<D> ld(lo, q);
            xmem::local_shared_ptr<B2> lb2(lo, p);
            both("shared pointers with different control blocks", d, ld);
            both("shared pointers with different control blocks", d2, lb2);
            both("shared pointers with different control blocks", b2, lb2);
        }
    }
}

// ------------------------------------------------------------------ owners
template <typename P> struct Owners {
    struct Ptr { bool strong; int type; int g; std::shared_ptr<void> box; };
    std::vector<Ptr> ptrs;
    template <typename T> using sp = typename P::template sp<T>;
    template <typename T> using wp = typename P::template wp<T>;

    template <typename F> static void with(const Ptr& p, F f) {
        if (p.strong) {
            if (p.type == 0) f(*static_cast<sp<D>*>(p.box.get()));
            else if (p.type == 1) f(*static_cast<sp<B2>*>(p.box.get()));
            else f(*static_cast<sp<void>*>(p.box.get()));
        }
        else {
            if (p.type == 0) f(*static_cast<wp<D>*>(p.box.get()));
            else if (p.type == 1) f(*static_cast<wp<B2>*>(p.box.get()));
            else f(*static_cast<wp<void>*>(p.box.get()));
        }
    }
    template <typename X, typename Y, typename = void> struct has_ob : std::false_type {};
    template <typename X, typename Y> struct has_ob<X, Y, std::void_t<decltype(std::declval<const X&>().owner_before(std::declval<const Y&>()))>> : std::true_type {};

    // 1/0, -1: no such comparison
    static int lt(const Ptr& a, const Ptr& b) {
        int r = -1;
        with(a, [&](auto& x) { with(b, [&](auto& y) {
            if constexpr (has_ob<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>::value) r = x.owner_before(y);
        }); });
        return r;
    }
    static bool same(const Ptr& a, const Ptr& b) {
        bool r = false;
        with(a, [&](auto& x) { with(b, [&](auto& y) { r = P::same_owner(x, y); }); });
        return r;
    }
    static bool none(const Ptr& a) {
        bool r = false;
        with(a, [&](auto& x) { r = P::no_owner(x); });
        return r;
    }
    template <typename X> void add(bool strong, int type, int g, X x) { ptrs.push_back({strong, type, g, std::make_shared<X>(std::move(x))}); }

    std::vector<signed char> prev;

    void matrix(const char* when, bool compare) {
        int n = int(ptrs.size());
        std::vector<signed char> m(size_t(n * n));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            int x = lt(ptrs[i], ptrs[j]);
            m[size_t(i * n + j)] = static_cast<signed char>(x);
            bool eq = ptrs[i].g == ptrs[j].g;
            ++n_pairs;
            if (same(ptrs[i], ptrs[j]) != eq) FAIL("cmp.same_owner", "%s: same_owner of %s (group %d) and %s (group %d) is %d", when, ptrs[i].strong ? "shared" : "weak", ptrs[i].g,
                ptrs[j].strong ? "shared" : "weak", ptrs[j].g, int(!eq));
            if (x == 1 && eq) FAIL("cmp.owner_before", "%s: owner_before holds between pointers with the same owner", when);
        }
        for (int i = 0; i < n; ++i) {
            if (none(ptrs[i]) != (ptrs[i].g < 0)) FAIL("cmp.no_owner", "%s: no_owner of a %s pointer of group %d", when, ptrs[i].strong ? "shared" : "weak", ptrs[i].g);
            for (int j = 0; j < n; ++j) {
                int x = m[size_t(i * n + j)], y = m[size_t(j * n + i)];
                if (x == 1 && y == 1) FAIL("cmp.owner_before", "%s: owner_before holds both ways", when);
                if (x == 0 && y == 0 && ptrs[i].g != ptrs[j].g) FAIL("cmp.owner_before", "%s: pointers of groups %d and %d are equivalent", when, ptrs[i].g, ptrs[j].g);
                // all pointers to a group are in the same place of the order
                for (int k = 0; k < n; ++k) {
                    int z = m[size_t(j * n + k)], w = m[size_t(i * n + k)];
                    ++n_triples;
                    if (x == 1 && z == 1 && w == 0) FAIL("cmp.owner_before", "%s: not transitive", when);
                    if (ptrs[j].g == ptrs[k].g && x >= 0 && w >= 0 && x != w) FAIL("cmp.owner_before", "%s: a pointer is before one pointer but not before another one of group %d", when, ptrs[j].g);
                    if (ptrs[i].g == ptrs[k].g && x >= 0 && m[size_t(k * n + j)] >= 0 && x != m[size_t(k * n + j)])
                        FAIL("cmp.owner_before", "%s: of two pointers of group %d only one is before another pointer", when, ptrs[i].g);
                }
            }
        }
        if (compare && prev.size() == m.size()) {
            for (size_t i = 0; i < m.size(); ++i)
                if (m[i] != prev[i]) FAIL("cmp.owner_before", "%s: the order of pointers changed", when);
        }
        prev = m;
    }

    uint64_t run(Rng& r) {
        int ng = 1 + int(r.below(5));
        std::vector<sp<D>> own;
        for (int g = 0; g < ng; ++g) {
            if (r.chance(1, 2)) own.push_back(P::template make<D>());
            else if (r.chance(1, 4)) own.push_back(sp<D>(new D, [](D* p) { delete p; }));
            else own.push_back(sp<D>(new D));
        }
        std::vector<sp<D>> keep = own;  // the groups which stay alive
        int n = 4 + int(r.below(14));
        uint64_t h = uint64_t(ng);
        for (int i = 0; i < n; ++i) {
            int g = r.chance(1, 6) ? -1 : int(r.below(uint32_t(ng)));
            sp<D> o = g < 0 ? sp<D>() : own[size_t(g)];
            uint32_t k = r.below(8);
            h = mix(h ^ (k * 16 + uint32_t(g + 1)));
            if (k >= 4) ++n_aliases;
            switch (k) {
            case 0: add(true, 0, g, sp<D>(o)); break;
            case 1: add(true, 1, g, sp<B2>(o)); break;
            case 2: add(false, 0, g, wp<D>(o)); break;
            case 3: add(false, 2, g, wp<void>(o)); break;
            case 4: add(true, 2, g, g < 0 ? sp<void>() : sp<void>(o, &arr[r.below(6)])); break;
            case 5: add(true, 1, g, g < 0 ? sp<B2>() : sp<B2>(o, static_cast<B2*>(r.chance(1, 3) ? nullptr : &arr[r.below(6)]))); break;
            case 6: add(false, 1, g, wp<B2>(g < 0 ? sp<B2>() : sp<B2>(o, static_cast<B2*>(&arr[r.below(6)])))); break;
            default: add(false, 0, g, wp<D>(wp<D>(o))); break;
            }
        }
        // an empty aliased pointer still has no owner
        add(true, 1, -1, sp<B2>(sp<D>(), static_cast<B2*>(&arr[1])));
        matrix("all alive", false);
        set_size();
        // let some groups expire: drop all their shared pointers
        if (r.chance(2, 3)) {
            std::vector<bool> die(size_t(ng), false);
            for (int g = 0; g < ng; ++g) die[size_t(g)] = r.chance(1, 2);
            for (size_t i = ptrs.size(); i-- > 0;) if (ptrs[i].strong && ptrs[i].g >= 0 && die[size_t(ptrs[i].g)]) ptrs.erase(ptrs.begin() + long(i));
            // the order before expiry
            matrix("before expiry", false);
            for (int g = 0; g < ng; ++g) if (die[size_t(g)]) { own[size_t(g)] = sp<D>(); keep[size_t(g)] = sp<D>(); }
            for (auto& p : ptrs) if (!p.strong) {
                bool ex = false;
                with(p, [&](auto& x) { if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, sp<D>> && !std::is_same_v<std::decay_t<decltype(x)>, sp<B2>> && !std::is_same_v<std::decay_t<decltype(x)>, sp<void>>) ex = x.expired(); });
                n_expired += ex;
            }
            matrix("after expiry", true);
        }
        // other aliases, same order
        return h;
    }
    void set_size() {
        // distinct owners counted with the ordering, weak pointers only and shared pointers only
        for (int strong = 0; strong < 2; ++strong) {
            auto less = [](const Ptr* a, const Ptr* b) { return lt(*a, *b) == 1; };
            std::set<const Ptr*, decltype(less)> s(less);
            std::set<int> gs;
            std::vector<const Ptr*> v;
            for (auto& p : ptrs) if (p.strong == bool(strong)) { s.insert(&p); gs.insert(p.g); v.push_back(&p); }
            ++n_sets;
            if (s.size() != gs.size()) FAIL("cmp.owner_before", "a set ordered by owner holds %zu elements, there are %zu owners", s.size(), gs.size());
            std::sort(v.begin(), v.end(), less);
            for (size_t i = 1; i < v.size(); ++i) {
                // groups are contiguous
                if (v[i]->g != v[i - 1]->g) for (size_t j = i + 1; j < v.size(); ++j) if (v[j]->g == v[i - 1]->g) FAIL("cmp.owner_before", "sorting by owner does not bring pointers with the same owner together");
            }
        }
    }
};

template <typename P> static void one(Rng& r) {
    snprintf(ctx, sizeof ctx, "%s", P::name);
    shared_values<P>(r);
    Owners<P> o;
    uint64_t h = o.run(r);
    out.hash(mix(h ^ uint64_t(P::name[0] * 256 + P::name[1])));
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("value_comparisons", n_cmp);
        out.stat("owner_pairs_compared", n_pairs);
        out.stat("owner_triples_checked", n_triples);
        out.stat("ordered_sets", n_sets);
        out.stat("expired_pointers_compared", n_expired);
        out.stat("aliases_compared", n_aliases);
    };
    bool xs = out.args.is("xstd");
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        if (xs) one<PStd>(r);
        else switch (c % 4) {
        case 0: snprintf(ctx, sizeof ctx, "unique"); out.hash(unique_values(r)); break;
        case 1: one<PAtomic>(r); break;
        case 2: one<PLocal>(r); break;
        case 3: one<PTrack>(r); break;
        }
        if (out.want_sample()) { char b[100]; snprintf(b, sizeof b, "comparisons of %s pointers, case %ld", ctx, c); out.sample(b); }
        out.stat("cases");
    });
    return 0;
}
