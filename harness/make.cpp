// Creation helpers: which constructor runs, how often, with which arguments, over dirty memory.
#include "heapmon.hpp"
#include "policies.hpp"
#include <string>
#include <vector>
#include <tuple>
#include <initializer_list>
using namespace hv;

static char ctx[300];
[[noreturn]] static void fail(const char* key, const char* f, ...) __attribute__((format(printf, 2, 3)));
static void fail(const char* key, const char* f, ...) {
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    out.violation(key, "%s: %s", ctx, b);
}
static uint64_t nameh(const char* s) { uint64_t h = 5; for (; *s; ++s) h = mix(h * 31 + uint64_t(*s)); return h; }
static long n_made, n_args, n_arrays, n_elems, n_zero_bytes, n_dirty_bytes, n_copies, n_moves;

// ------------------------------------------------------------------ makers
struct MUnique {
    static constexpr const char* name = "make_unique";
    static constexpr bool shared = false;
    template <typename T, typename... A> static auto make(A&&... a) { return xmem::make_unique<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_unique_for_overwrite<T>(); }
    template <typename T> static auto ptr(T&& t) { return xmem::make_unique_ptr(std::forward<T>(t)); }
};
struct MShared {
    static constexpr const char* name = "make_shared";
    static constexpr bool shared = true;
    template <typename T, typename... A> static auto make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_shared_for_overwrite<T>(); }
    template <typename T> static auto ptr(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
};
struct MLocal {
    static constexpr const char* name = "make_local_shared";
    static constexpr bool shared = true;
    template <typename T, typename... A> static auto make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_local_shared_for_overwrite<T>(); }
    template <typename T> static auto ptr(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
};
struct MCbf {
    static constexpr const char* name = "control block factory";
    static constexpr bool shared = true;
    template <typename T, typename... A> static auto make(A&&... a) { return PTrack::make<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return PTrack::make_ow<T>(); }
    template <typename T> static auto ptr(T&& t) { return PTrack::make<std::remove_reference_t<T>>(std::forward<T>(t)); }
};
struct MXstd {
    static constexpr const char* name = "xstd";
    static constexpr bool shared = true;
    template <typename T, typename... A> static auto make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto ptr(T&& t) { return xstd::make_shared_ptr(std::forward<T>(t)); }
};
struct MXstdU {
    static constexpr const char* name = "xstd unique";
    static constexpr bool shared = false;
    template <typename T> static auto ptr(T&& t) { return xstd::make_unique_ptr(std::forward<T>(t)); }
};

template <typename M, typename Ptr>
static void sole(const Ptr& p) {
    if (!p) fail("make.null", "yields an empty pointer");
    if constexpr (M::shared) {
        if (p.use_count() != 1) fail("make.sole", "use count is %ld", p.use_count());
    }
}

// ------------------------------------------------------------------ arguments
static long arg_copies, arg_moves;
struct Arg {
    int v;
    explicit Arg(int x) : v(x) {}
    Arg(const Arg& o) : v(o.v) { ++arg_copies; }
    Arg(Arg&& o) : v(o.v) { ++arg_moves; o.v = -1; }
};
enum Cat { LV, CLV, RV, CRV };
template <typename T> constexpr int cat_of() {
    using U = std::remove_reference_t<T>;
    if (std::is_lvalue_reference_v<T>) return std::is_const_v<U> ? CLV : LV;
    return std::is_const_v<U> ? CRV : RV;
}
static struct { int ctors, dtors, def, copy, move, nargs; int cat[8]; const void* addr[8]; const void* type[8]; const void* self; } L;
static void lreset() { memset(&L, 0, sizeof L); arg_copies = arg_moves = 0; }

template <typename T> struct TypeId { static inline char id = 0; };
template <typename T> static const void* address(T& x) {
    if constexpr (std::is_function_v<T>) return reinterpret_cast<const void*>(&x);
    else return const_cast<const void*>(static_cast<const volatile void*>(std::addressof(x)));
}
struct Probe {
    int guard = 0x600d;
    Probe() { rec(); ++L.def; }
    Probe(const Probe&) { rec(); ++L.copy; }
    Probe(Probe&&) { rec(); ++L.move; }
    template <typename A0, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<A0>, Probe>>>
    explicit Probe(A0&& a0, A&&... a) {
        rec();
        take<A0>(a0);
        (take<A>(a), ...);
    }
    ~Probe() { ++L.dtors; guard = 0; }
    void rec() { ++L.ctors; L.self = this; }
    template <typename X> void take(std::remove_reference_t<X>& x) {
        L.cat[L.nargs] = cat_of<X&&>();
        L.addr[L.nargs] = address(x);
        L.type[L.nargs] = &TypeId<std::remove_const_t<std::remove_reference_t<X>>>::id;
        ++L.nargs;
    }
    bool operator&() const { return false; }    // nobody needs our address
};

template <int C> static decltype(auto) as(Arg& a) {
    if constexpr (C == LV) return static_cast<Arg&>(a);
    else if constexpr (C == CLV) return static_cast<const Arg&>(a);
    else if constexpr (C == RV) return static_cast<Arg&&>(a);
    else return static_cast<const Arg&&>(a);
}


template <typename M, int... C, size_t... I>
static void fwd_one(std::index_sequence<I...>) {
    constexpr int N = sizeof...(C);
    const int cats[] = {C..., 0};
    Arg arr[] = {(static_cast<void>(C), Arg(7))..., Arg(0)};
    snprintf(ctx, sizeof ctx, "%s with %d arguments of categories", M::name, N);
    uint64_t h = nameh(M::name) + N;
    for (int i = 0; i < N; ++i) {
        sprintf(ctx + strlen(ctx), " %d", cats[i]);
        h = mix(h * 5 + uint64_t(cats[i]));
    }
    out.hash(h);
    lreset();
    {
        auto r = M::template make<Probe>(as<C>(arr[I])...);
        sole<M>(r);
        if (L.ctors != 1) fail("make.constructed", "%d objects constructed", L.ctors);
        if (L.nargs != N) fail("make.args", "%d arguments arrive", L.nargs);
        if (N == 0 && !L.def) fail("make.args", "not default constructed");
        for (int k = 0; k < N; ++k) {
            ++n_args;
            if (L.cat[k] != cats[k]) fail("make.category", "argument %d arrives with category %d", k, L.cat[k]);
            if (L.addr[k] != std::addressof(arr[k])) fail("make.args", "argument %d is another object than the one passed", k);
            if (arr[k].v != 7) fail("make.args", "argument %d was consumed", k);
        }
        if (arg_copies || arg_moves) fail("make.copies", "arguments copied %ld and moved %ld times", arg_copies, arg_moves);
        if (r.get() != L.self) fail("make.address", "the pointer does not refer to the object constructed");
        if (r->guard != 0x600d) fail("make.content", "object damaged");
        if (L.dtors) fail("make.constructed", "an object was destroyed");
        ++n_made;
    }
    if (L.dtors != 1) fail("make.constructed", "%d destructors ran", L.dtors);
}
template <typename M, int... C> static void fwd() { fwd_one<M, C...>(std::make_index_sequence<sizeof...(C)>{}); }
template <typename M, int A> static void fwd2() { fwd<M, A>(); fwd<M, A, LV>(); fwd<M, A, CLV>(); fwd<M, A, RV>(); fwd<M, A, CRV>(); }
template <typename M, int A, int B> static void fwd3() { fwd<M, A, B, LV>(); fwd<M, A, B, CLV>(); fwd<M, A, B, RV>(); fwd<M, A, B, CRV>(); fwd<M, A, B, RV, LV, CRV, CLV>(); }
template <typename M> static void forwarding() {
    fwd<M>();
    fwd2<M, LV>(); fwd2<M, CLV>(); fwd2<M, RV>(); fwd2<M, CRV>();
    fwd3<M, LV, LV>(); fwd3<M, LV, RV>(); fwd3<M, RV, LV>(); fwd3<M, RV, RV>(); fwd3<M, CLV, RV>(); fwd3<M, RV, CLV>(); fwd3<M, CRV, LV>(); fwd3<M, LV, CRV>(); fwd3<M, CLV, CRV>();
}

// arguments of all kinds of types arrive as they are
static long n_typed;
struct Aggr { int a, b; };
struct Empty {};
struct Bits { unsigned a : 3, b : 5; };
enum Old { O0, O1 };
enum class New : char { N0, N1 };
static int some_function(int x) { return x + 1; }
struct NoCopy { int v = 3; NoCopy() = default; NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
template <int C, typename T> static decltype(auto) asx(T& a) {
    if constexpr (C == LV) return static_cast<T&>(a);
    else if constexpr (C == CLV) return static_cast<const T&>(a);
    else if constexpr (C == RV) return static_cast<T&&>(a);
    else return static_cast<const T&&>(a);
}
template <typename M, int C, typename T> static void typed_cat(T& x, const char* n) {
    using X = decltype(asx<C>(x));
    // what the language makes of it: functions are always lvalues, constness of an array is the one of its elements
    constexpr int want = cat_of<X>();
    const void* type = &TypeId<std::remove_const_t<std::remove_reference_t<X>>>::id;
    snprintf(ctx, sizeof ctx, "%s with an argument of type %s, category %d", M::name, n, want);
    Arg other(7);
    for (int pos = 0; pos < 3; ++pos) {
        lreset();
        auto r = [&] {
            if (pos == 0) return M::template make<Probe>(asx<C>(x));
            if (pos == 1) return M::template make<Probe>(other, asx<C>(x));
            return M::template make<Probe>(asx<C>(x), std::move(other));
        }();
        sole<M>(r);
        int at = pos == 1;
        if (L.ctors != 1 || L.nargs != (pos ? 2 : 1)) fail("make.args", "%d arguments arrive at %d objects", L.nargs, L.ctors);
        if (L.cat[at] != want) fail("make.category", "arrives with category %d", L.cat[at]);
        if (L.type[at] != type) fail("make.args", "arrives as another type");
        if (L.addr[at] != address(x)) fail("make.args", "is another object than the one passed");
        if (r.get() != L.self) fail("make.address", "the pointer does not refer to the object constructed");
        ++n_typed;
        ++n_made;
    }
    if (arg_copies || arg_moves) fail("make.copies", "arguments copied %ld and moved %ld times", arg_copies, arg_moves);
}
template <typename M, typename T> static void typed(T& x, const char* n) {
    if constexpr (std::is_function_v<T>) { typed_cat<M, LV>(x, n); typed_cat<M, RV>(x, n); }
    else {
        typed_cat<M, LV>(x, n);
        typed_cat<M, RV>(x, n);
        typed_cat<M, CLV>(x, n);
        typed_cat<M, CRV>(x, n);
    }
}
template <typename M> static void typed_all(Rng& r) {
    int i = int(r.next());
    int keep = i;
    switch (r.below(8)) {
    case 0: {
        typed<M>(i, "int");
        char c = 'c'; typed<M>(c, "char");
        bool b = true; typed<M>(b, "bool");
        long l = 5; typed<M>(l, "long");
        unsigned long long u = 7; typed<M>(u, "unsigned long long");
        break;
    }
    case 1: {
        double d = 2.5; typed<M>(d, "double");
        float f = 1.5f; typed<M>(f, "float");
        int* p = &i; typed<M>(p, "int*");
        const char* s = "abc"; typed<M>(s, "const char*");
        std::nullptr_t n = nullptr; typed<M>(n, "nullptr_t");
        void* v = &i; typed<M>(v, "void*");
        break;
    }
    case 2: {
        Old o = O1; typed<M>(o, "enum");
        New n = New::N1; typed<M>(n, "enum class");
        volatile int v = 4; typed<M>(v, "volatile int");
        int Aggr::*m = &Aggr::b; typed<M>(m, "int Aggr::*");
        break;
    }
    case 3: {
        int a[4] = {1, 2, 3, 4}; typed<M>(a, "int[4]");
        char t[6] = "array"; typed<M>(t, "char[6]");
        int aa[2][3] = {}; typed<M>(aa, "int[2][3]");
        std::string sa[2]; typed<M>(sa, "std::string[2]");
        break;
    }
    case 4: {
        typed<M>(some_function, "int(int)");
        auto fp = &some_function; typed<M>(fp, "int(*)(int)");
        auto lam = [&i] { return i; }; typed<M>(lam, "lambda");
        break;
    }
    case 5: {
        Aggr a{1, 2}; typed<M>(a, "aggregate");
        Empty e; typed<M>(e, "empty class");
        Bits b{3, 4}; typed<M>(b, "class of bit fields");
        NoCopy n; typed<M>(n, "class without copies");
        Probe p; typed<M>(i, "int");
        Arg g(4); typed<M>(g, "Arg");
        break;
    }
    case 6: {
        std::string s(r.below(60), 'q'), t = s; typed<M>(s, "std::string");
        if (s != t) fail("make.args", "an argument was consumed");
        std::vector<int> v(3, 4); typed<M>(v, "std::vector");
        std::initializer_list<int> il = {1, 2}; typed<M>(il, "std::initializer_list");
        std::pair<int, double> pr{1, 2}; typed<M>(pr, "std::pair");
        break;
    }
    default: {
        auto up = xmem::make_unique<int>(4); typed<M>(up, "xmem::unique_ptr");
        auto sp = xmem::make_shared<int>(4); typed<M>(sp, "xmem::shared_ptr");
        auto lp = xmem::make_local_shared<int>(4); typed<M>(lp, "xmem::local_shared_ptr");
        xmem::weak_ptr<int> wp = sp; typed<M>(wp, "xmem::weak_ptr");
        if (!up || !sp || !lp || sp.use_count() != 1 || lp.use_count() != 1) fail("make.args", "an argument was consumed");
    }
    }
    if (i != keep) fail("make.args", "an argument was changed");
}

// ------------------------------------------------------------------ creation from a value
struct Val {
    int v;
    int copies = 0, moves = 0;
    const void* from = nullptr;
    bool moved_from = false;
    explicit Val(int x) : v(x) { ++L.ctors; }
    Val(const Val& o) : v(o.v), copies(o.copies + 1), moves(o.moves), from(&o) { ++L.ctors; ++L.copy; }
    Val(Val&& o) : v(o.v), copies(o.copies), moves(o.moves + 1), from(&o) { ++L.ctors; ++L.move; o.moved_from = true; }
    ~Val() { ++L.dtors; v = -3; }
};
struct ConstVal {   // tells a copy of a const object from one of a non-const one
    int how = 0;
    ConstVal() = default;
    ConstVal(ConstVal&) : how(1) {}
    ConstVal(const ConstVal&) : how(2) {}
    ConstVal(ConstVal&&) : how(3) {}
    ConstVal(const ConstVal&&) : how(4) {}
};
struct CopyOnly { int v = 6; CopyOnly() = default; CopyOnly(const CopyOnly& o) : v(o.v + 1) {} };
struct MoveOnly { int v = 6; MoveOnly() = default; MoveOnly(MoveOnly&& o) : v(o.v) { o.v = 0; } };
template <typename M> static void from_value(Rng& r) {
    int x = int(r.below(1000));
    out.hash(nameh(M::name) * 77 + uint64_t(x));
    snprintf(ctx, sizeof ctx, "%s: pointer from an lvalue", M::name);
    Val v(x);
    lreset();
    {
        auto p = M::ptr(v);
        static_assert(std::is_same_v<std::decay_t<decltype(*p)>, Val>, "type");
        sole<M>(p);
        if (L.ctors != 1 || L.copy != 1) fail("make.value", "%d copies and %d moves of an lvalue", L.copy, L.move);
        if (p->v != x || p->from != &v || p->moves || p->copies != 1) fail("make.value", "not a copy of the value");
        if (v.v != x || v.moved_from) fail("make.value", "lvalue was changed");
        p->v = x + 1;
        if (v.v != x) fail("make.value", "shares its content with the lvalue");
        n_copies += 1;
    }
    if (L.dtors != 1) fail("make.value", "%d objects destroyed", L.dtors);
    snprintf(ctx, sizeof ctx, "%s: pointer from an rvalue", M::name);
    lreset();
    {
        auto p = M::ptr(std::move(v));
        sole<M>(p);
        if (L.ctors != 1 || L.move != 1) fail("make.value", "%d copies and %d moves of an rvalue", L.copy, L.move);
        if (p->v != x || p->from != &v || p->copies || p->moves != 1 || !v.moved_from) fail("make.value", "value not moved");
        n_moves += 1;
    }
    snprintf(ctx, sizeof ctx, "%s: pointer from a const lvalue", M::name);
    {
        const Val cv(x);
        lreset();
        auto p = M::ptr(cv);
        if (L.ctors != 1 || L.copy != 1 || p->v != x || p->from != &cv) fail("make.value", "not one copy");
        n_copies += 1;
    }
    snprintf(ctx, sizeof ctx, "%s: category of the value", M::name);
    {
        ConstVal c;
        const ConstVal cc;
        if (auto p = M::ptr(c); p->how != 1) fail("make.value", "non-const lvalue: constructor %d", p->how);
        if (auto p = M::ptr(cc); p->how != 2) fail("make.value", "const lvalue: constructor %d", p->how);
        if (auto p = M::ptr(std::move(c)); p->how != 3) fail("make.value", "rvalue: constructor %d", p->how);
        if (auto p = M::ptr(std::move(cc)); p->how != 4) fail("make.value", "const rvalue: constructor %d", p->how);
        CopyOnly co;
        if (auto p = M::ptr(co); p->v != 7) fail("make.value", "copy only type: %d", p->v);
        if (auto p = M::ptr(CopyOnly()); p->v != 7) fail("make.value", "copy only rvalue: %d", p->v);
        if (auto p = M::ptr(MoveOnly()); p->v != 6) fail("make.value", "move only type: %d", p->v);
        std::string s(50, 'x');
        const char* d = s.data();
        if (auto p = M::ptr(s); *p != s || p->data() == d) fail("make.value", "copied string");
        if (auto p = M::ptr(std::move(s)); p->data() != d || p->size() != 50) fail("make.value", "moved string");
        int i = 12;
        if (auto p = M::ptr(i); *p != 12) fail("make.value", "int");
        if (auto p = M::ptr(13); *p != 13) fail("make.value", "int");
        n_copies += 4;
        n_moves += 4;
    }
}

// ------------------------------------------------------------------ initialisation
struct Pod { int a; char b; double c[5]; void* d; short e : 3; };
struct Implicit { int a; std::string s; long b[3]; };           // zeroed before its members are constructed
struct PodBase : Pod { int more; };
struct User { int a; long b[2]; User() : a(4) { ++L.ctors; } ~User() { ++L.dtors; } };
struct Defaulted { int a; Defaulted() = default; int b = 9; };
union Un { int a; double b; char c[24]; };
enum class En : long { Z = 0, One = 1 };
struct alignas(64) Over { char c[70]; };
static const unsigned char* bytes(const volatile void* p) { return static_cast<const unsigned char*>(const_cast<const void*>(p)); }

template <typename T> static bool is_zero(const T& t) {
    for (size_t i = 0; i < sizeof(T); ++i, ++n_zero_bytes) if (bytes(std::addressof(t))[i]) return false;
    return true;
}
template <typename T> __attribute__((no_sanitize("memory"))) static bool is_dirty(const T& t) {
    for (size_t i = 0; i < sizeof(T); ++i, ++n_dirty_bytes) if (bytes(std::addressof(t))[i] != hm::fill) return false;
    return true;
}
template <typename M, typename T> static void zeroed(const char* n) {
    snprintf(ctx, sizeof ctx, "%s<%s>()", M::name, n);
    auto p = M::template make<T>();
    sole<M>(p);
    ++n_made;
    if constexpr (std::is_same_v<T, double> || std::is_arithmetic_v<T> || std::is_pointer_v<T>) { if (*p != T()) fail("make.value_init", "not zero"); n_zero_bytes += sizeof(T); }
    else if constexpr (std::is_same_v<T, Pod>) { if (p->a || p->b || p->d || p->e) fail("make.value_init", "not zero"); for (double d : p->c) if (d != 0) fail("make.value_init", "not zero"); n_zero_bytes += sizeof(T); }
    else if constexpr (std::is_same_v<T, PodBase>) { if (p->a || p->more || p->d || p->c[4] != 0) fail("make.value_init", "not zero"); n_zero_bytes += sizeof(T); }
    else if (!is_zero(*p)) fail("make.value_init", "not zero");
#ifndef HM_MSAN
    snprintf(ctx, sizeof ctx, "%s_for_overwrite<%s>()", M::name, n);
    auto q = M::template ow<T>();
    sole<M>(q);
    ++n_made;
    if (!is_dirty(*q)) fail("make.default_init", "memory was initialised");
#endif
    out.hash(mix(nameh(M::name) ^ nameh(n)) + hm::fill);
}
struct OwnNew {
    static int news, dels;
    int a;
    OwnNew() : a(3) {}
    static void* operator new(size_t s) { ++news; return ::operator new(s); }
    static void operator delete(void* p) { ++dels; ::operator delete(p); }
};
int OwnNew::news = 0, OwnNew::dels = 0;
struct InitList {
    int how = 0;
    InitList(int, int) : how(1) {}
    InitList(std::initializer_list<int>) : how(2) {}
    InitList() : how(3) {}
};
struct Narrow { int how; explicit Narrow(char) : how(1) {} };
template <typename M> static void init(Rng& r) {
    zeroed<M, int>("int");
    zeroed<M, char>("char");
    zeroed<M, double>("double");
    zeroed<M, void*>("void*");
    zeroed<M, Pod>("Pod");
    zeroed<M, PodBase>("PodBase");
    zeroed<M, Un>("Union");
    zeroed<M, En>("Enum");
    zeroed<M, Over>("Over");
    zeroed<M, bool>("bool");
    snprintf(ctx, sizeof ctx, "%s of special classes", M::name);
    {
        auto p = M::template make<Implicit>();
        if (p->a || p->b[0] || p->b[1] || p->b[2] || !p->s.empty()) fail("make.value_init", "class with an implicit constructor not zeroed");
        auto q = M::template ow<Implicit>();
        if (!q->s.empty()) fail("make.default_init", "member not constructed");
#ifndef HM_MSAN
        if (!is_dirty(q->a) || !is_dirty(q->b)) fail("make.default_init", "memory was initialised");
#endif
        auto d = M::template make<Defaulted>();
        if (d->a || d->b != 9) fail("make.value_init", "class with a defaulted constructor");
        auto e = M::template ow<Defaulted>();
        if (e->b != 9) fail("make.default_init", "member initialiser did not run");
        lreset();
        auto u = M::template make<User>();
        if (u->a != 4 || L.ctors != 1) fail("make.constructed", "%d constructors", L.ctors);
        u = M::template ow<User>();
        if (u->a != 4 || L.ctors != 2 || L.dtors != 1) fail("make.constructed", "%d constructors %d destructors", L.ctors, L.dtors);
    }
    {
        auto p = M::template make<InitList>(1, 2);
        if (p->how != 1) fail("make.args", "initializer_list constructor used");
        auto q = M::template make<InitList>();
        if (q->how != 3) fail("make.args", "default constructor not used");
        auto v = M::template make<std::vector<int>>(size_t(5), 8);
        if (v->size() != 5 || (*v)[4] != 8) fail("make.args", "vector(5, 8) has %zu elements", v->size());
        auto s = M::template make<std::string>(size_t(3), 'z');
        if (*s != "zzz") fail("make.args", "string(3, 'z')");
        auto n = M::template make<Narrow>(65);
        if (n->how != 1) fail("make.args", "narrowing");
        auto il = M::template make<std::vector<int>>(std::initializer_list<int>{1, 2, 3});
        if (il->size() != 3) fail("make.args", "initializer_list passed");
        auto pp = M::template make<std::pair<int, std::string>>(7, "seven");
        if (pp->first != 7 || pp->second != "seven") fail("make.args", "pair");
        long big = long(r.next());
        auto l = M::template make<long>(big);
        if (*l != big) fail("make.args", "long");
        int i = 5;
        auto ip = M::template make<int*>(&i);
        if (*ip != &i) fail("make.args", "pointer");
        auto mo = M::template make<MoveOnly>(MoveOnly());
        if (mo->v != 6) fail("make.args", "move only argument");
    }
    {
        OwnNew::news = OwnNew::dels = 0;
        {
            auto p = M::template make<OwnNew>();
            if (p->a != 3) fail("make.constructed", "class with its own operator new");
            if (!M::shared && OwnNew::news != 1) fail("make.constructed", "class specific operator new not used");
        }
        if (OwnNew::news != OwnNew::dels) fail("make.constructed", "class specific operator new %d times, delete %d times", OwnNew::news, OwnNew::dels);
        auto c = M::template make<const int>(31);
        if (*c != 31) fail("make.args", "const int");
        auto cp = M::template make<const Pod>();
        if (cp->a || cp->d) fail("make.value_init", "const Pod");
    }
    {   // two calls make two objects
        auto a = M::template make<int>(1);
        auto b = M::template make<int>(2);
        if (a.get() == b.get() || *a != 1 || *b != 2) fail("make.sole", "two calls share an object");
    }
}

// ------------------------------------------------------------------ arrays
struct Elem {
    int zero;       // not initialised by a constructor
    Elem* self;
    static Elem* log[64];
    static int n, d;
    Elem() : zero(77), self(this) { if (n < 64) log[n] = this; ++n; }
    ~Elem() { if (self != this) fail("make.array", "destroyed at another address"); ++d; self = nullptr; }
};
Elem* Elem::log[64];
int Elem::n, Elem::d;
template <typename T> static void zero_array(size_t n, const char* tn) {
    snprintf(ctx, sizeof ctx, "make_unique<%s[]>(%zu)", tn, n);
    auto a = xmem::make_unique<T[]>(n);
    if (!a) fail("make.null", "null");
    for (size_t i = 0; i < n; ++i) {
        if constexpr (std::is_same_v<T, Pod>) { if (a[i].a || a[i].b || a[i].d || a[i].c[4] != 0) fail("make.value_init", "element %zu not zero", i); n_zero_bytes += sizeof(T); }
        else if constexpr (std::is_same_v<T, Implicit>) { if (a[i].a || a[i].b[2] || !a[i].s.empty()) fail("make.value_init", "element %zu not zero", i); n_zero_bytes += sizeof(T); }
        else if (!is_zero(a[i])) fail("make.value_init", "element %zu not zero", i);
    }
    n_elems += long(n);
    ++n_arrays;
    if constexpr (!std::is_same_v<T, Implicit>) {
#ifndef HM_MSAN
        snprintf(ctx, sizeof ctx, "make_unique_for_overwrite<%s[]>(%zu)", tn, n);
        auto o = xmem::make_unique_for_overwrite<T[]>(n);
        for (size_t i = 0; i < n; ++i) if (!is_dirty(o[i])) fail("make.default_init", "element %zu was initialised", i);
        ++n_arrays;
#endif
    }
    out.hash(mix(sizeof(T) * 1000 + n + 7));
}
static void arrays(Rng& r) {
    size_t n = r.chance(1, 8) ? 0 : r.chance(1, 100) ? 1 + r.below(70000) : r.below(r.chance(1, 4) ? 2000 : 40);
    zero_array<int>(n, "int");
    zero_array<char>(n, "char");
    zero_array<Pod>(n, "Pod");
    zero_array<Implicit>(n, "Implicit");
    zero_array<Over>(n % 50, "Over");
    zero_array<double>(n, "double");
    for (int ow = 0; ow < 2; ++ow) {
        size_t m = n % 64;
        snprintf(ctx, sizeof ctx, "make_unique%s<Elem[]>(%zu)", ow ? "_for_overwrite" : "", m);
        Elem::n = Elem::d = 0;
        {
            auto a = ow ? xmem::make_unique_for_overwrite<Elem[]>(m) : xmem::make_unique<Elem[]>(m);
            if (Elem::n != int(m)) fail("make.array", "%d elements constructed", Elem::n);
            for (size_t i = 0; i < m; ++i) if (Elem::log[i] != &a[i] || a[i].self != &a[i] || a[i].zero != 77) fail("make.array", "element %zu", i);
            n_elems += long(m);
            ++n_arrays;
        }
        if (Elem::d != int(m)) fail("make.array", "%d elements destroyed", Elem::d);
    }
    // too many elements: fails
    snprintf(ctx, sizeof ctx, "make_unique<Pod[]> with a length which cannot be represented");
    volatile size_t huge = size_t(-1) / sizeof(Pod) + 1 + r.below(10);
    bool threw = false;
    try { auto a = xmem::make_unique<Pod[]>(huge); fail("make.array", "succeeds"); }
    catch (const std::bad_alloc&) { threw = true; }
    if (!threw) fail("make.array", "succeeds");
}

template <typename M> static void everything(Rng& r) {
    forwarding<M>();
    typed_all<M>(r);
    init<M>(r);
    from_value<M>(r);
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    hm::limit = size_t(1) << 26;
    out.before_finish = [] {
        out.stat("objects_made", n_made);
        out.stat("arguments_traced", n_args);
        out.stat("arguments_of_other_types_traced", n_typed);
        out.stat("arrays_made", n_arrays);
        out.stat("array_elements_checked", n_elems);
        out.stat("zero_bytes_checked", n_zero_bytes);
        out.stat("untouched_bytes_checked", n_dirty_bytes);
        out.stat("values_copied", n_copies);
        out.stat("values_moved", n_moves);
        out.stat("heap_blocks_monitored", hm::total);
    };
    bool xs = out.args.is("xstd");
    out.run([&](long c) {
        Rng r(mix(out.args.seed * 1000003ull + uint64_t(c)));
        hm::fill = static_cast<unsigned char>(r.chance(1, 4) ? 0xFF : 1 + r.below(254));
        long h0 = hm::live;
        if (xs) {
            if (c % 2) from_value<MXstd>(r);
            else from_value<MXstdU>(r);
        }
        else switch (c % 5) {
        case 0: everything<MUnique>(r); break;
        case 1: everything<MShared>(r); break;
        case 2: everything<MLocal>(r); break;
        case 3: everything<MCbf>(r); break;
        case 4: arrays(r); break;
        }
        if (hm::live != h0) { strcpy(ctx, "creation helpers"); fail("leak", "%ld blocks left", hm::live - h0); }
        if (out.want_sample()) out.sample(ctx);
        out.stat("cases");
    });
    return 0;
}
