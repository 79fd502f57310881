// Ordinary programs written against what xmem's and the standard pointers have in common:
// containers and algorithms of pointers, trees, lists, graphs, observers, caches, factories, polymorphic objects, arrays,
// deleters, self-registering objects, exceptions.  Each runs with std, with xmem's atomic and with its local pointers;
// everything the programs can observe is logged and the logs are compared.
#include "heapmon.hpp"
#include <memory>
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/ostream.hpp>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>
#include <deque>
#include <list>
using namespace hv;

static const char* scenario = "";
static long n_obs, n_events, n_objects;
static bool building;

struct Log {
    struct E { const char* what; long long v; };
    std::vector<E> e;
    int next_id = 0;
    int live = 0;
    void operator()(const char* w, long long v) { e.push_back({w, v}); }
};

// ------------------------------------------------------------------ libraries
template <typename T, typename = void> struct printable : std::false_type {};
template <typename T> struct printable<T, decltype(void(std::declval<std::ostream&>() << std::declval<const T&>()))> : std::true_type {};

struct LStd {
    static constexpr const char* name = "std";
    static Log log;
    template <typename T> using sp = std::shared_ptr<T>;
    template <typename T> using wp = std::weak_ptr<T>;
    template <typename T, typename D = std::default_delete<T>> using up = std::unique_ptr<T, D>;
    template <typename T> using esft = std::enable_shared_from_this<T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
    template <typename T, typename... A> static up<T> makeu(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
    template <typename T> static up<T> makea(size_t n) { return std::make_unique<T>(n); }
    template <typename T, typename S> static auto scast(const S& s) { return std::static_pointer_cast<T>(s); }
    template <typename T, typename S> static auto dcast(const S& s) { return std::dynamic_pointer_cast<T>(s); }
    template <typename T, typename S> static auto ccast(const S& s) { return std::const_pointer_cast<T>(s); }
    template <typename T, typename S> static auto rcast(const S& s) { return std::reinterpret_pointer_cast<T>(s); }
};
struct LXBase {
    template <typename T, typename D = xmem::default_delete<T>> using up = xmem::unique_ptr<T, D>;
    template <typename T, typename... A> static up<T> makeu(A&&... a) { return xmem::make_unique<T>(std::forward<A>(a)...); }
    template <typename T> static up<T> makea(size_t n) { return xmem::make_unique<T>(n); }
    template <typename T, typename S> static auto scast(const S& s) { return xmem::static_pointer_cast<T>(s); }
    template <typename T, typename S> static auto dcast(const S& s) { return xmem::dynamic_pointer_cast<T>(s); }
    template <typename T, typename S> static auto ccast(const S& s) { return xmem::const_pointer_cast<T>(s); }
    template <typename T, typename S> static auto rcast(const S& s) { return xmem::reinterpret_pointer_cast<T>(s); }
};
struct LX : LXBase {
    static constexpr const char* name = "xmem";
    static Log log;
    template <typename T> using sp = xmem::shared_ptr<T>;
    template <typename T> using wp = xmem::weak_ptr<T>;
    template <typename T> using esft = xmem::enable_shared_from_this<T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
};
struct LL : LXBase {
    static constexpr const char* name = "xmem local";
    static Log log;
    template <typename T> using sp = xmem::local_shared_ptr<T>;
    template <typename T> using wp = xmem::local_weak_ptr<T>;
    template <typename T> using esft = xmem::enable_local_shared_from_this<T>;
    template <typename T, typename... A> static sp<T> make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
};
Log LStd::log, LX::log, LL::log;

// ------------------------------------------------------------------ the programs
template <typename L> struct Prog {
    template <typename T> using sp = typename L::template sp<T>;
    template <typename T> using wp = typename L::template wp<T>;
    template <typename T> using up = typename L::template up<T>;
    template <typename T, typename D> using upd = typename L::template up<T, D>;
    static void o(const char* w, long long v) { L::log(w, v); }

    struct Item {
        int id, v;
        explicit Item(int v = 0) : id(L::log.next_id++), v(v) { ++L::log.live; o("construct", id); }
        Item(const Item& r) : id(L::log.next_id++), v(r.v) { ++L::log.live; o("copy construct", id * 1000 + r.id); }
        Item(Item&& r) : id(L::log.next_id++), v(r.v) { r.v = -1; ++L::log.live; o("move construct", id * 1000 + r.id); }
        Item& operator=(const Item& r) { v = r.v; o("copy assign", id * 1000 + r.id); return *this; }
        ~Item() { --L::log.live; o("destroy", id); id = v = -77; }
    };
    template <typename S> static long long idof(const S& p) { return p ? p->id : -1; }
    template <typename S> static void look(const char* w, const S& p) { o(w, idof(p)); }
    template <typename T> static void look(const char* w, const sp<T>& p) { o(w, idof(p)); o(w, p.use_count()); }
    template <typename T> static void look(const char* w, const wp<T>& p) { o(w, p.use_count()); o(w, p.expired()); o(w, idof(p.lock())); }

    // -- vectors of shared pointers and algorithms
    static void containers(Rng& r) {
        std::vector<sp<Item>> v, w;
        std::deque<sp<const Item>> q;
        std::list<wp<Item>> weak;
        int n = 3 + int(r.below(8));
        for (int i = 0; i < n; ++i) {
            if (!v.empty() && r.chance(1, 4)) v.push_back(v[r.below(uint32_t(v.size()))]);
            else if (r.chance(1, 6)) v.emplace_back();
            else if (r.chance(1, 3)) v.emplace_back(new Item(int(r.below(9))));
            else v.push_back(L::template make<Item>(int(r.below(9))));
        }
        auto val = [](const sp<Item>& p) { return p ? p->v : -1; };
        int steps = 6 + int(r.below(14));
        for (int s = 0; s < steps; ++s) {
            uint32_t k = r.below(22);
            uint32_t i = v.empty() ? 0 : r.below(uint32_t(v.size())), j = v.empty() ? 0 : r.below(uint32_t(v.size()));
            o("step", k);
            switch (k) {
            case 0: std::sort(v.begin(), v.end(), [&](const sp<Item>& a, const sp<Item>& b) { return val(a) < val(b); }); break;
            case 1: std::stable_sort(v.begin(), v.end(), [&](const sp<Item>& a, const sp<Item>& b) { return val(a) > val(b); }); break;
            case 2: std::reverse(v.begin(), v.end()); break;
            case 3: std::rotate(v.begin(), v.begin() + i, v.end()); break;
            case 4: v.erase(std::remove_if(v.begin(), v.end(), [&](const sp<Item>& p) { return val(p) == int(i % 9); }), v.end()); break;
            case 5: v.erase(std::unique(v.begin(), v.end()), v.end()); break;
            case 6: { auto it = std::partition(v.begin(), v.end(), [&](const sp<Item>& p) { return val(p) > 4; }); o("partition", it - v.begin()); break; }
            case 7: if (v.size() < 12) { std::vector<sp<Item>> c(v.begin(), v.end()); v.insert(v.begin() + i, c.begin() + j, c.end()); } break;
            case 8: if (!v.empty()) v.erase(v.begin() + i); break;
            case 9: if (!v.empty()) std::swap(v[i], v[j]); break;
            case 10: if (!v.empty()) v[i].swap(v[j]); break;
            case 11: std::move(v.begin() + i, v.end(), std::back_inserter(w)); v.resize(i); break;
            case 12: std::swap(v, w); break;
            case 13: v.resize(v.size() + r.below(3)); break;
            case 14: v.shrink_to_fit(); break;
            case 15: std::copy(v.begin(), v.end(), std::back_inserter(q)); while (q.size() > 6) q.pop_front(); break;
            case 16: for (auto& p : v) weak.push_back(p); break;
            case 17: weak.remove_if([](const wp<Item>& p) { return p.expired(); }); break;
            case 18: if (!v.empty()) v[i] = v[j]; break;
            case 19: if (!v.empty()) { v[i] = std::move(v[j]); } break;
            case 20: { std::vector<sp<Item>> c = v; std::next_permutation(c.begin(), c.end(), [&](const sp<Item>& a, const sp<Item>& b) { return val(a) < val(b); }); w = std::move(c); break; }
            case 21: if (!v.empty()) { v.at(i) = L::template make<Item>(val(v.at(j))); } break;
            }
            o("count equal", v.empty() ? 0 : std::count(v.begin(), v.end(), v[i < v.size() ? i : 0]));
            for (auto& p : v) look("v", p);
            for (auto& p : w) look("w", p);
            for (auto& p : q) { o("q", idof(p)); o("q", p.use_count()); }
            for (auto& p : weak) look("weak", p);
        }
        if (r.chance(1, 2)) v.clear();
    }
    // -- vectors of unique pointers
    static void uniques(Rng& r) {
        std::vector<up<Item>> v, w;
        int n = 2 + int(r.below(8));
        for (int i = 0; i < n; ++i) { if (r.chance(1, 5)) v.emplace_back(); else v.push_back(L::template makeu<Item>(int(r.below(9)))); }
        auto val = [](const up<Item>& p) { return p ? p->v : -1; };
        std::vector<Item*> freed;
        int steps = 6 + int(r.below(14));
        for (int s = 0; s < steps; ++s) {
            uint32_t k = r.below(18);
            uint32_t i = v.empty() ? 0 : r.below(uint32_t(v.size())), j = v.empty() ? 0 : r.below(uint32_t(v.size()));
            o("step", k);
            switch (k) {
            case 0: std::sort(v.begin(), v.end(), [&](const up<Item>& a, const up<Item>& b) { return val(a) < val(b); }); break;
            case 1: std::stable_sort(v.begin(), v.end(), [&](const up<Item>& a, const up<Item>& b) { return val(a) > val(b); }); break;
            case 2: std::reverse(v.begin(), v.end()); break;
            case 3: std::rotate(v.begin(), v.begin() + i, v.end()); break;
            case 4: v.erase(std::remove_if(v.begin(), v.end(), [&](const up<Item>& p) { return val(p) == int(i % 9); }), v.end()); break;
            case 5: if (!v.empty()) v.erase(v.begin() + i); break;
            case 6: if (!v.empty()) std::swap(v[i], v[j]); break;
            case 7: if (!v.empty()) v[i].swap(v[j]); break;
            case 8: std::move(v.begin() + i, v.end(), std::back_inserter(w)); v.resize(i); break;
            case 9: std::swap(v, w); break;
            case 10: v.resize(v.size() + r.below(3)); break;
            case 11: if (!v.empty() && i != j) { v[i] = std::move(v[j]); } break;
            case 12: if (!v.empty()) freed.push_back(v[i].release()); break;
            case 13: if (!v.empty() && !freed.empty()) { v[i].reset(freed.back()); freed.pop_back(); } break;
            case 14: if (!v.empty()) v[i].reset(); break;
            case 15: if (!v.empty()) v[i] = nullptr; break;
            case 16: v.insert(v.begin() + i, L::template makeu<Item>(int(j))); break;
            case 17: if (!v.empty()) v[i] = up<Item>(new Item(5)); break;
            }
            for (auto& p : v) look("v", p);
            for (auto& p : w) look("w", p);
        }
        for (auto* p : freed) delete p;
    }
    // -- maps, sets, caches
    struct OwnerLess {
        template <typename A, typename B> bool operator()(const A& a, const B& b) const { return a.owner_before(b); }
    };
    static void assoc(Rng& r) {
        std::map<int, sp<Item>> m;
        std::set<sp<Item>> s;
        std::set<wp<Item>, OwnerLess> os;
        std::unordered_map<int, wp<Item>> cache;
        auto get = [&](int k) {
            auto& w = cache[k];
            auto p = w.lock();
            if (!p) { o("cache miss", k); p = L::template make<Item>(k); w = p; }
            return p;
        };
        std::vector<sp<Item>> held;
        int steps = 10 + int(r.below(20));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(14);
            int key = int(r.below(6));
            o("step", k);
            switch (k) {
            case 0: case 1: held.push_back(get(key)); break;
            case 2: m[key] = get(key); break;
            case 3: m.erase(key); break;
            case 4: o("insert", s.insert(get(key)).second); break;
            case 5: { auto p = get(key); o("erase", s.erase(p)); break; }
            case 6: { auto p = get(key); o("owner insert", os.insert(p).second); break; }
            case 7: { auto p = get(key); o("owner find", os.count(p)); break; }
            case 8: if (!held.empty()) { std::swap(held[r.below(uint32_t(held.size()))], held.back()); held.pop_back(); } break;
            case 9: held.clear(); break;
            case 10: for (auto it = cache.begin(); it != cache.end();) it = it->second.expired() ? cache.erase(it) : std::next(it); break;
            case 11: o("try_emplace", m.try_emplace(key, get(key)).second); break;
            case 12: { auto nh = m.extract(key); o("extract", bool(nh)); if (nh) { nh.key() = key + 10; m.insert(std::move(nh)); } break; }
            case 13: { sp<Item> al(get(key), held.empty() ? nullptr : held[0].get()); o("owner find alias", os.count(al)); o("address", s.count(al)); break; }
            }
            o("sizes", int(m.size()) * 10000 + int(s.size()) * 100 + int(os.size()));
            for (auto& [a, b] : m) { o("key", a); look("mapped", b); }
            for (int c = 0; c < 6; ++c) { auto it = cache.find(c); if (it != cache.end()) look("cached", it->second); }
            for (auto& h : held) look("held", h);
        }
        std::vector<sp<Item>> rest; // the set itself is in the order of the addresses
        while (!s.empty()) rest.push_back(std::move(s.extract(s.begin()).value()));
        std::sort(rest.begin(), rest.end(), [](auto& a, auto& b) { return a->id < b->id; });
        for (auto& p : rest) p.reset();
    }
    // -- trees with parent links
    struct Node : Item {
        std::vector<sp<Node>> kids;
        wp<Node> parent;
        sp<Node> extra;
        using Item::Item;
    };
    static void walk(const sp<Node>& n, int depth) {
        look("node", n);
        o("depth", depth);
        auto p = n->parent.lock();
        o("parent", idof(p));
        o("siblings", p ? long(p->kids.size()) : -1);
        for (auto& k : n->kids) walk(k, depth + 1);
    }
    static void tree(Rng& r) {
        sp<Node> root = L::template make<Node>(0);
        std::vector<wp<Node>> all{root};
        auto any = [&]() -> sp<Node> { for (int t = 0; t < 4; ++t) if (auto p = all[r.below(uint32_t(all.size()))].lock()) return p; return root; };
        auto attach = [](const sp<Node>& p, sp<Node> c) { c->parent = p; p->kids.push_back(std::move(c)); };
        auto detach = [](const sp<Node>& c) -> sp<Node> {
            auto p = c->parent.lock();
            if (!p) return c;
            auto it = std::find(p->kids.begin(), p->kids.end(), c);
            sp<Node> ret = std::move(*it);
            p->kids.erase(it);
            ret->parent.reset();
            return ret;
        };
        int steps = 8 + int(r.below(25));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(9);
            o("step", k);
            switch (k) {
            case 0: case 1: case 2: { auto p = any(); auto c = r.chance(1, 2) ? L::template make<Node>(i) : sp<Node>(new Node(i)); all.push_back(c); attach(p, std::move(c)); break; }
            case 3: { auto c = any(); if (c != root) { auto d = detach(c); c.reset(); look("detached", d); } break; }
            case 4: {
                auto c = any(), p = any();
                bool below = false;
                for (auto x = p; x; x = x->parent.lock()) below |= x == c;
                if (!below && c != root) { auto d = detach(c); attach(p, std::move(d)); }
                break;
            }
            case 5: { auto p = any(); std::reverse(p->kids.begin(), p->kids.end()); break; }
            case 6: { auto p = any(); if (!p->kids.empty()) p->kids.pop_back(); break; }
            case 7: { auto p = any(); if (p->kids.size() == 1 && p != root) { /* replace the node by its only child */
                auto up_ = p->parent.lock();
                if (up_) { sp<Node> kid = p->kids[0]; p->kids.clear(); auto it = std::find(up_->kids.begin(), up_->kids.end(), p); *it = kid; kid->parent = up_; } } break; }
            case 8: if (r.chance(1, 3) && !root->kids.empty()) { auto nr = root->kids[0]; root = std::move(nr); root->parent.reset(); } break;
            }
            walk(root, 0);
            for (auto& w : all) look("all", w);
        }
    }
    // -- lists: singly linked owning, doubly linked with weak back links
    struct Cell : Item { sp<Cell> next; wp<Cell> prev; using Item::Item; };
    struct UCell : Item { up<UCell> next; using Item::Item; };
    static void lists(Rng& r) {
        sp<Cell> head;
        int n = 2 + int(r.below(8));
        for (int i = 0; i < n; ++i) { auto c = L::template make<Cell>(i); c->next = head; if (head) head->prev = c; head = std::move(c); }
        up<UCell> uh;
        for (int i = 0; i < n; ++i) { auto c = L::template makeu<UCell>(i); c->next = std::move(uh); uh = std::move(c); }
        int steps = 5 + int(r.below(12));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(9);
            o("step", k);
            switch (k) {
            case 0: if (head) head = head->next; break;
            case 1: if (head) head = std::move(head->next); break;
            case 2: if (uh) uh = std::move(uh->next); break;
            case 3: if (head && head->next) head->next = head->next->next; break;
            case 4: if (uh && uh->next) uh->next = std::move(uh->next->next); break;
            case 5: { sp<Cell> rev; while (head) { auto nx = std::move(head->next); head->next = std::move(rev); head->prev.reset(); if (head->next) head->next->prev = head; rev = std::move(head); head = std::move(nx); } head = std::move(rev); break; }
            case 6: { up<UCell> rev; while (uh) { auto nx = std::move(uh->next); uh->next = std::move(rev); rev = std::move(uh); uh = std::move(nx); } uh = std::move(rev); break; }
            case 7: { auto t = head; while (t && t->next) t = t->next; if (t) { auto c = sp<Cell>(new Cell(i)); c->prev = t; t->next = c; look("appended", c); } break; }
            case 8: { up<UCell>* t = &uh; while (*t) t = &(*t)->next; *t = L::template makeu<UCell>(i); break; }
            }
            for (sp<Cell> p = head; p; p = p->next) { look("cell", p); look("prev", p->prev); }
            for (UCell* p = uh.get(); p; p = p->next.get()) o("ucell", p->id);
        }
        if (r.chance(1, 2)) { head.reset(); uh.reset(); }
        else if (r.chance(1, 2)) { while (uh) uh = std::move(uh->next); while (head) head = head->next; }
    }
    // -- graphs with cycles
    static void graph(Rng& r) {
        struct V : Item { std::vector<sp<V>> to; std::vector<wp<V>> from; using Item::Item; };
        std::vector<sp<V>> vs;
        int n = 2 + int(r.below(6));
        for (int i = 0; i < n; ++i) vs.push_back(L::template make<V>(i));
        std::vector<wp<V>> ws(vs.begin(), vs.end());
        int e = int(r.below(14));
        for (int i = 0; i < e; ++i) { auto& a = vs[r.below(uint32_t(n))]; auto& b = vs[r.below(uint32_t(n))]; a->to.push_back(b); b->from.push_back(a); }
        for (auto& v : vs) { look("v", v); for (auto& f : v->from) look("from", f); }
        // break all cycles: cut the edges in random order while dropping the roots
        std::vector<int> order(size_t(n), 0);
        std::iota(order.begin(), order.end(), 0);
        for (int i = n - 1; i > 0; --i) std::swap(order[size_t(i)], order[r.below(uint32_t(i + 1))]);
        for (int i : order) {
            vs[size_t(i)].reset();
            if (auto p = ws[size_t(i)].lock()) { look("still", p); auto mine = std::move(p->to); p->to.clear(); look("cut", p); if (r.chance(1, 2)) p.reset(); }
            for (auto& w : ws) look("w", w);
        }
    }
    // -- observers
    struct Subject;
    struct Observer : Item { std::function<void(Observer&)> f; using Item::Item; };
    static void observers(Rng& r) {
        std::vector<wp<Observer>> subs;
        std::vector<sp<Observer>> obs;
        int calls = 0;
        int steps = 6 + int(r.below(10));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(5);
            o("step", k);
            switch (k) {
            case 0: case 1: {
                auto ob = L::template make<Observer>(i);
                int act = int(r.below(4));
                wp<Observer> self = ob;
                ob->f = [&obs, &calls, act, self](Observer& me) {
                    ++calls;
                    auto s = self.lock();
                    o("self", s.get() == &me);
                    if (act == 1 && !obs.empty()) obs.pop_back();
                    if (act == 2) { auto it = std::find(obs.begin(), obs.end(), s); if (it != obs.end()) obs.erase(it); look("leaving", s); }
                };
                subs.push_back(ob);
                obs.push_back(std::move(ob));
                break;
            }
            case 2: {
                auto copy = subs;
                for (auto& w : copy) if (auto s = w.lock()) s->f(*s); else o("expired", 1);
                break;
            }
            case 3: subs.erase(std::remove_if(subs.begin(), subs.end(), [](auto& w) { return w.expired(); }), subs.end()); break;
            case 4: if (!obs.empty()) obs.erase(obs.begin() + r.below(uint32_t(obs.size()))); break;
            }
            o("calls", calls);
            for (auto& w : subs) look("sub", w);
        }
    }
    // -- polymorphic objects
    struct Base : Item { using Item::Item; virtual ~Base() { o("~Base", this->id); } virtual int kind() const { return 0; } virtual sp<Base> clone() const { return L::template make<Base>(*this); } };
    struct Mixin { int mix = 9; virtual ~Mixin() = default; };
    struct Circle : Base, Mixin { using Base::Base; ~Circle() override { o("~Circle", this->id); } int kind() const override { return 1; } sp<Base> clone() const override { return L::template make<Circle>(*this); } };
    struct Square : Mixin, Base { using Base::Base; ~Square() override { o("~Square", this->id); } int kind() const override { return 2; } sp<Base> clone() const override { return sp<Base>(new Square(*this)); } };
    struct Flat : Item { int extra = 4; using Item::Item; ~Flat() { o("~Flat", this->id); } };    // no virtual destructor above
    struct StateDel { int st = 0; template <typename T> void operator()(T* p) const { o("deleter", st); delete p; } };
    template <typename T> static void fdel(T* p) { o("function deleter", p->id); delete p; }
    static up<Base> factory(int k, int v) {
        switch (k) {
        case 0: return L::template makeu<Base>(v);
        case 1: return L::template makeu<Circle>(v);
        default: { up<Square> s(new Square(v)); return s; }
        }
    }
    static void poly(Rng& r) {
        std::vector<sp<Base>> v;
        std::vector<sp<void>> erased;
        std::vector<sp<const Base>> consts;
        std::vector<sp<Mixin>> mixins;
        std::vector<sp<Item>> items;
        std::vector<sp<int>> members;
        int steps = 8 + int(r.below(15));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(20);
            o("step", k);
            sp<Base> b = v.empty() ? sp<Base>() : v[r.below(uint32_t(v.size()))];
            switch (k) {
            case 0: v.push_back(factory(int(r.below(3)), i)); break;
            case 1: v.push_back(L::template make<Circle>(i)); break;
            case 2: v.push_back(L::template make<Square>(i)); break;
            case 3: if (b) v.push_back(b->clone()); break;
            case 4: { auto c = L::template dcast<Circle>(b); look("circle", c); if (c) mixins.push_back(std::move(c)); break; }
            case 5: { auto c = L::template dcast<Square>(b); look("square", c); if (c) mixins.push_back(c); break; }
            case 6: if (b && b->kind() == 1) { auto c = L::template scast<Circle>(b); look("static", c); o("mix", c->mix); } break;
            case 7: erased.push_back(b); break;
            case 8: consts.push_back(std::move(b)); break;
            case 9: if (!consts.empty()) { auto c = L::template ccast<Base>(consts.back()); look("unconst", c); consts.pop_back(); } break;
            case 10: if (b) members.push_back(sp<int>(b, &b->v)); break;
            case 11: items.push_back(L::template make<Flat>(i)); break;
            case 12: items.push_back(sp<Flat>(new Flat(i))); break;
            case 13: items.push_back(sp<Item>(new Flat(i))); break;
            case 14: v.push_back(sp<Circle>(new Circle(i), StateDel{i})); break;
            case 15: v.push_back(upd<Square, StateDel>(new Square(i), StateDel{100 + i})); break;
            case 16: v.push_back(sp<Base>(new Circle(i), fdel<Base>)); break;
            case 17: if (!v.empty()) v.erase(v.begin() + r.below(uint32_t(v.size()))); break;
            case 18: if (!v.empty()) { auto& x = v[r.below(uint32_t(v.size()))]; x = factory(int(r.below(3)), i); } break;
            case 19: if (!mixins.empty()) { auto x = L::template dcast<Base>(mixins.back()); look("cross", x); mixins.pop_back(); } break;
            }
            b.reset();
            for (auto& p : v) { look("v", p); o("kind", p ? p->kind() : -1); }
            for (auto& p : erased) o("erased", p.use_count());
            for (auto& p : mixins) { o("mixin", p ? p->mix : -1); o("mixin", p.use_count()); }
            for (auto& p : members) { o("member", *p); o("member", p.use_count()); }
            for (auto& p : items) look("item", p);
        }
        switch (r.below(3)) { case 0: v.clear(); break; case 1: erased.clear(); mixins.clear(); break; default: break; }
    }
    // -- unique pointers with deleters
    struct Pool { std::vector<Item*> free; };
    struct PoolDel { Pool* pool = nullptr; void operator()(Item* p) const { o("to pool", p->id); pool->free.push_back(p); } };
    static void deleters(Rng& r) {
        Pool pool;
        using PP = upd<Item, PoolDel>;
        std::vector<PP> v;
        auto acquire = [&]() -> PP {
            if (pool.free.empty()) return PP(new Item(1), PoolDel{&pool});
            Item* p = pool.free.back();
            pool.free.pop_back();
            return PP(p, PoolDel{&pool});
        };
        std::vector<sp<Item>> shared;
        int lam = 0;
        auto ldel = [&lam](Item* p) { o("lambda deleter", ++lam); delete p; };
        using LP = upd<Item, decltype(ldel)>;
        std::vector<LP> lv;
        using FP = upd<Item, void (*)(Item*)>;
        std::vector<FP> fv;
        StateDel rd{77};
        int steps = 8 + int(r.below(15));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(17);
            o("step", k);
            uint32_t a = v.empty() ? 0 : r.below(uint32_t(v.size()));
            switch (k) {
            case 0: case 1: v.push_back(acquire()); break;
            case 2: if (!v.empty()) v.erase(v.begin() + a); break;
            case 3: if (!v.empty()) v[a].reset(); break;
            case 4: if (!v.empty()) v[a] = acquire(); break;
            case 5: if (!v.empty()) { shared.push_back(std::move(v[a])); look("moved", v[a]); } break;
            case 6: if (!v.empty() && v[a]) { Item* p = v[a].release(); v[a].get_deleter()(p); } break;
            case 7: lv.emplace_back(new Item(i), ldel); break;
            case 8: if (!lv.empty()) { LP p = std::move(lv.back()); look("lambda", p); lv.pop_back(); } break;
            case 9: fv.emplace_back(new Item(i), fdel<Item>); break;
            case 10: if (fv.size() > 1) { fv[0] = std::move(fv.back()); fv.pop_back(); } break;
            case 11: fv.emplace_back(nullptr, fdel<Item>); fv.back().reset(new Item(i)); break;
            case 12: { upd<Item, StateDel&> rp(new Item(i), rd); upd<Item, StateDel&> rq = std::move(rp); look("rp", rp); look("rq", rq); rd.st++; break; }
            case 13: { upd<Circle, StateDel> c(new Circle(i), StateDel{i}); upd<Base, StateDel> b(std::move(c)); o("state", b.get_deleter().st); look("b", b); upd<Base, StateDel> b2; b2 = std::move(b); o("state", b2.get_deleter().st); break; }
            case 14: if (!fv.empty()) shared.push_back(std::move(fv.back())), fv.pop_back(); break;
            case 15: if (!lv.empty() && lv.back()) shared.push_back(sp<Item>(std::move(lv.back()))), lv.pop_back(); break;
            case 16: if (!shared.empty()) { shared.erase(shared.begin() + r.below(uint32_t(shared.size()))); } break;
            }
            // what becomes of null unique pointers made shared differs: leave those out
            shared.erase(std::remove_if(shared.begin(), shared.end(), [](auto& p) { return !p; }), shared.end());
            for (auto& p : v) look("v", p);
            for (auto& p : fv) look("fv", p);
            for (auto& p : shared) look("shared", p);
            for (auto* p : pool.free) o("pool", p->id);
        }
        shared.clear();
        v.clear();
        for (auto* p : pool.free) delete p;
    }
    // -- arrays
    static void arrays(Rng& r) {
        std::vector<up<Item[]>> v;
        std::vector<sp<Item[]>> sv;
        std::vector<sp<Item>> elems;
        std::vector<size_t> len;
        int steps = 5 + int(r.below(10));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(12);
            o("step", k);
            size_t n = 1 + r.below(5);
            switch (k) {
            case 0: v.push_back(L::template makea<Item[]>(n)); v.back()[n - 1].v = i; break;
            case 1: v.emplace_back(new Item[n]); break;
            case 2: if (!v.empty()) v.pop_back(); break;
            case 3: if (!v.empty()) v.back().reset(new Item[n]); break;
            case 4: if (v.size() > 1) v[0].swap(v.back()); break;
            case 5: if (v.size() > 1) { v[0] = std::move(v.back()); v.pop_back(); } break;
            case 6: sv.push_back(sp<Item[]>(new Item[n])); o("elem", sv.back()[n - 1].id); break;
            case 7: if (!v.empty() && v.back()) { sv.push_back(std::move(v.back())); v.pop_back(); } break;
            case 8: if (!sv.empty()) { auto& s = sv[r.below(uint32_t(sv.size()))]; if (s) elems.push_back(sp<Item>(s, &s[0])); } break;
            case 9: if (!sv.empty()) { auto c = sv.back(); c.reset(new Item[n]); std::swap(c, sv.back()); } break;
            case 10: if (!sv.empty()) sv.erase(sv.begin()); break;
            case 11: { auto ip = L::template makea<int[]>(n); long s = 0; for (size_t x = 0; x < n; ++x) s += ip[x]; o("zero", s); break; }
            }
            for (auto& p : v) o("v", p ? p[0].id : -1);
            for (auto& p : sv) { o("sv", p ? p[0].id : -1); o("sv", p.use_count()); o("sv", p ? p.get() == &p[0] : 2); }
            for (auto& p : elems) look("elem", p);
        }
    }
    // -- objects which register themselves
    struct Self : L::template esft<Self>, Item {
        std::vector<sp<Self>>* reg;
        Self(int v, std::vector<sp<Self>>* g) : Item(v), reg(g) {}
        void enlist() { reg->push_back(this->shared_from_this()); }
        wp<Self> weak() { return this->weak_from_this(); }
        sp<const Self> cs() const { return this->shared_from_this(); }
        std::function<int()> later() { return [me = this->shared_from_this()] { return me->id; }; }
    };
    struct SubSelf : Mixin, Self { using Self::Self; };
    static void selfs(Rng& r) {
        std::vector<sp<Self>> reg;
        std::vector<sp<Self>> v;
        std::vector<wp<Self>> ws;
        std::vector<std::function<int()>> calls;
        int steps = 6 + int(r.below(14));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(14);
            o("step", k);
            sp<Self> p = v.empty() ? sp<Self>() : v[r.below(uint32_t(v.size()))];
            switch (k) {
            case 0: v.push_back(L::template make<Self>(i, &reg)); break;
            case 1: v.push_back(sp<Self>(new Self(i, &reg))); break;
            case 2: v.push_back(L::template make<SubSelf>(i, &reg)); break;
            case 3: v.push_back(up<SubSelf>(new SubSelf(i, &reg))); break;
            case 4: v.push_back(sp<SubSelf>(new SubSelf(i, &reg), StateDel{i})); break;
            case 5: if (p) p->enlist(); break;
            case 6: if (p) ws.push_back(p->weak()); break;
            case 7: if (p) { auto c = p->cs(); look("const", c); o("same", c == p); } break;
            case 8: if (p) calls.push_back(p->later()); break;
            case 9: if (!calls.empty()) { o("call", calls.back()()); calls.pop_back(); } break;
            case 10: if (!v.empty()) v.pop_back(); break;
            case 11: reg.clear(); break;
            case 12: if (p) { Self c(*p); wp<Self> w = c.weak(); o("copy expired", w.expired()); } break;
            case 13: if (p) { p->v = 5; *p = *v[0]; p->enlist(); } break;
            }
            p.reset();
            for (auto& x : v) look("v", x);
            for (auto& x : reg) look("reg", x);
            for (auto& x : ws) look("w", x);
        }
        switch (r.below(3)) { case 0: v.clear(); break; case 1: calls.clear(); break; default: break; }
    }
    // -- values in other values, functions, exceptions
    static sp<Item> pass(sp<Item> p) { look("arg", p); return p; }
    static sp<Item> choose(bool c, const sp<Item>& a, const sp<Item>& b) { return c ? a : b; }
    struct Bang {};
    static up<Item> thrower(up<Item> u, sp<Item> s, int n) {
        Item local(n);
        look("deep", s);
        if (n == 0) throw Bang{};
        auto t = thrower(std::move(u), s, n - 1);
        return t;
    }
    static void values(Rng& r) {
        std::optional<sp<Item>> opt;
        std::variant<int, sp<Item>, up<Item>> var;
        std::pair<sp<Item>, wp<Item>> pr;
        std::tuple<up<Item>, sp<const Item>> tup;
        std::array<sp<Item>, 3> arr;
        std::function<int()> fn;
        sp<Item> p;
        int steps = 8 + int(r.below(20));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(23);
            o("step", k);
            auto& q = arr[r.below(3)];
            switch (k) {
            case 0: p = L::template make<Item>(i); break;
            case 1: opt = p; break;
            case 2: opt.reset(); break;
            case 3: opt.emplace(new Item(i)); break;
            case 4: var = p; break;
            case 5: var = up<Item>(new Item(i)); break;
            case 6: if (auto* u = std::get_if<up<Item>>(&var)) { if (*u) q = std::move(*u); var = 3; } break;
            case 7: pr = {p, p}; break;
            case 8: pr = std::make_pair(q, wp<Item>(pr.first)); break;
            case 9: std::get<0>(tup) = L::template makeu<Item>(i); break;
            case 10: std::get<1>(tup) = p; break;
            case 11: tup = std::make_tuple(up<Item>(), sp<const Item>(q)); break;
            case 12: std::swap(arr[0], arr[2]); break;
            case 13: fn = [p] { return p ? p->id : -1; }; break;
            case 14: if (fn) o("fn", fn()); break;
            case 15: fn = nullptr; break;
            case 16: q = pass(p); break;
            case 17: q = pass(std::move(p)); break;
            case 18: q = choose(i & 1, p, arr[0]); break;
            case 19: p = std::exchange(q, sp<Item>()); break;
            case 20: try { auto u = thrower(up<Item>(new Item(i)), p, int(r.below(4))); look("returned", u); } catch (const Bang&) { o("caught", 1); } break;
            case 21: { std::vector<sp<Item>> il{p, q, p}; for (auto& x : il) look("il", x); break; }
            case 22: { sp<Item> a = p, b = std::move(a), c(b); b.swap(c); a = b; look("a", a); look("b", b); look("c", c); p = c ? c : q; break; }
            }
            look("p", p);
            for (auto& x : arr) look("arr", x);
            if (opt) look("opt", *opt);
            o("var", long(var.index()));
            look("pair", pr.first);
            look("pair", pr.second);
            look("tuple", std::get<0>(tup));
            look("tuple", std::get<1>(tup));
        }
    }
    // -- constructors which throw
    struct Risky : Item {
        Item part;
        sp<Item> dep;
        static int countdown;
        explicit Risky(int v = 3, sp<Item> d = {}) : Item(v), part(v + 100), dep(std::move(d)) { check(); }
        Risky(const Risky& r) : Item(r), part(r.part), dep(r.dep) { check(); }
        static void check() { if (countdown > 0 && --countdown == 0) { o("throwing", 1); throw Bang{}; } }
        ~Risky() { o("~Risky", this->id); }
    };
    struct RiskySelf : L::template esft<RiskySelf>, Risky { using Risky::Risky; };
    static void exceptions(Rng& r) {
        sp<Item> p, dep = L::template make<Item>(50);
        sp<Risky> q;
        sp<RiskySelf> se;
        up<Risky> u;
        up<Risky[]> ua;
        sp<Risky[]> sa;
        std::vector<sp<Risky>> v;
        int steps = 6 + int(r.below(16));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(18);
            o("step", k);
            Risky::countdown = r.chance(1, 2) ? 1 + int(r.below(5)) : 0;
            size_t n = 1 + r.below(5);
            try {
                switch (k) {
                case 0: p = L::template make<Risky>(i, dep); break;
                case 1: p = sp<Risky>(new Risky(i, dep)); break;
                case 2: p.reset(new Risky(i, p)); break;
                case 3: u = L::template makeu<Risky>(i, p); break;
                case 4: u.reset(new Risky(i)); break;
                case 5: ua = L::template makea<Risky[]>(n); break;
                case 6: ua.reset(new Risky[n]); break;
                case 7: sa = L::template makea<Risky[]>(n); break;
                case 8: sa.reset(new Risky[n]); break;
                case 9: v.push_back(L::template make<Risky>(i, dep)); break;
                case 10: for (size_t x = 0; x < n; ++x) v.emplace_back(new Risky(int(x))); break;
                case 11: if (!v.empty()) v.push_back(L::template make<Risky>(*v[r.below(uint32_t(v.size()))])); break;
                case 12: q = L::template make<RiskySelf>(i, dep); break;
                case 13: se = L::template make<RiskySelf>(i, se); break;
                case 14: if (se) p = se->shared_from_this(); break;
                case 15: if (u) p = std::move(u); break;
                case 16: { up<Risky> t = L::template makeu<Risky>(i); sp<Risky> w = L::template make<Risky>(*t); u = std::move(t); q = w; break; }
                case 17: { auto l = sp<Risky>(new Risky(i), [dep](Risky* x) { o("deleter", dep->id); delete x; }); v.push_back(l); l = L::template make<Risky>(i); p = l; break; }
                }
            }
            catch (const Bang&) { o("caught", k); }
            Risky::countdown = 0;
            look("p", p);
            look("dep", dep);
            look("q", q);
            look("self", se);
            look("u", u);
            o("ua", ua ? ua[0].id : -1);
            o("sa", sa ? sa[0].id : -1);
            o("sa", sa.use_count());
            for (auto& x : v) look("v", x);
            if (v.size() > 8) v.erase(v.begin(), v.begin() + 4);
            o("live", L::log.live);
        }
    }
    // -- values shared until they are changed
    struct Cow {
        sp<Item> d;
        Item& change() {
            if (!d) d = L::template make<Item>(0);
            else if (d.use_count() > 1) d = L::template make<Item>(*d);
            return *d;
        }
    };
    static void cows(Rng& r) {
        std::array<Cow, 5> c;
        std::vector<Cow> history;
        int steps = 10 + int(r.below(30));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(9);
            o("step", k);
            Cow &a = c[r.below(5)], &b = c[r.below(5)];
            switch (k) {
            case 0: case 1: a.change().v = i; break;
            case 2: a = b; break;
            case 3: { Cow t = std::move(a); a = b; b = std::move(t); break; }
            case 4: std::swap(a, b); break;
            case 5: history.push_back(a); break;
            case 6: if (!history.empty()) { a = std::move(history.back()); history.pop_back(); } break;
            case 7: if (!history.empty()) history.erase(history.begin()); break;
            case 8: { Cow t = a; t.change().v += 1; b = std::move(t); break; }
            }
            for (auto& x : c) { look("cow", x.d); o("cow", x.d ? x.d->v : -1); }
            for (auto& x : history) look("history", x.d);
        }
    }
    // -- pools whose objects may outlive them
    struct WPool : L::template esft<WPool>, Item {
        std::vector<up<Item>> idle;
        using Item::Item;
        sp<Item> get(int v) {
            up<Item> i;
            if (idle.empty()) i = L::template makeu<Item>(v);
            else { i = std::move(idle.back()); idle.pop_back(); }
            wp<WPool> home = this->weak_from_this();
            return sp<Item>(i.release(), [home](Item* x) {
                up<Item> own(x);
                if (auto h = home.lock()) { o("back", x->id); h->idle.push_back(std::move(own)); }
                else o("homeless", x->id);
            });
        }
    };
    static void pools(Rng& r) {
        std::array<sp<WPool>, 2> pool{L::template make<WPool>(1), sp<WPool>(new WPool(2))};
        std::vector<sp<Item>> used;
        std::vector<wp<Item>> seen;
        int steps = 8 + int(r.below(20));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(9);
            o("step", k);
            auto& p = pool[r.below(2)];
            switch (k) {
            case 0: case 1: case 2: if (p) { used.push_back(p->get(i)); seen.push_back(used.back()); } break;
            case 3: case 4: if (!used.empty()) used.erase(used.begin() + r.below(uint32_t(used.size()))); break;
            case 5: if (!used.empty()) used.push_back(used[r.below(uint32_t(used.size()))]); break;
            case 6: if (r.chance(1, 3)) p.reset(); break;
            case 7: if (!p) p = L::template make<WPool>(i); break;
            case 8: if (!used.empty() && p) { auto x = p->get(i); std::swap(x, used[0]); } break;
            }
            for (auto& x : pool) { look("pool", x); o("idle", x ? long(x->idle.size()) : -1); }
            for (auto& x : used) look("used", x);
            for (auto& x : seen) look("seen", x);
        }
    }
    // -- queues of calls with guards
    static void events(Rng& r) {
        std::deque<std::function<void()>> queue;
        std::vector<sp<Item>> owners;
        std::vector<sp<void>> tokens;
        int steps = 8 + int(r.below(16));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(9);
            o("step", k);
            sp<Item> p = owners.empty() ? sp<Item>() : owners[r.below(uint32_t(owners.size()))];
            switch (k) {
            case 0: owners.push_back(L::template make<Item>(i)); break;
            case 1: if (p) { wp<Item> w = p; queue.push_back([w, i] { if (auto s = w.lock()) { o("alive", s->id); s->v += i; } else o("gone", i); }); } break;
            case 2: if (p) queue.push_back([p] { o("held", p->id); o("held", p.use_count()); }); break;
            case 3: { sp<void> t = sp<Item>(new Item(i)); wp<void> w = t; tokens.push_back(std::move(t)); queue.push_back([w, &queue, i] { if (!w.expired()) { o("token", i); if (queue.size() < 30) queue.push_back([w] { o("again", w.use_count()); }); } else o("cancelled", i); }); break; }
            case 4: if (!tokens.empty()) tokens.erase(tokens.begin()); break;
            case 5: case 6: for (int n = 0; n < 4 && !queue.empty(); ++n) { auto f = std::move(queue.front()); queue.pop_front(); f(); } break;
            case 7: if (!owners.empty()) owners.erase(owners.begin() + r.below(uint32_t(owners.size()))); break;
            case 8: { auto box = L::template make<std::function<void()>>(); wp<std::function<void()>> wb = box; *box = [wb, p] { o("box", wb.use_count()); look("box", p); }; queue.push_back([box] { (*box)(); }); break; }
            }
            p.reset();
            for (auto& x : owners) look("owner", x);
            for (auto& x : tokens) o("token", x.use_count());
            o("queue", long(queue.size()));
        }
        if (r.chance(1, 2)) queue.clear();
    }
    // -- objects which look around when they die
    struct Dying : Item {
        std::vector<wp<Dying>>* all;
        std::vector<sp<Dying>> more;
        wp<Dying> buddy;
        int act;
        Dying(int v, std::vector<wp<Dying>>* a, int act) : Item(v), all(a), act(act) {}
        ~Dying() {
            o("dying", this->id);
            auto b = buddy.lock();
            o("buddy", idof(b));
            if (act == 1 && b && !b->more.empty()) { o("drops", long(b->more.size())); auto m = std::move(b->more); b->more.clear(); m.pop_back(); }
            if (act == 2) while (!more.empty()) more.pop_back();
            if (act == 3) { for (auto& w : *all) { auto s = w.lock(); o("sees", idof(s)); } }
            if (act == 4 && b) { wp<Dying> t = buddy; buddy = std::move(b->buddy); b->buddy = t; o("relinked", 1); }
            b.reset();
        }
    };
    static void deaths(Rng& r) {
        std::vector<wp<Dying>> all;
        std::vector<sp<Dying>> v;
        int steps = 8 + int(r.below(20));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(10);
            o("step", k);
            uint32_t n = uint32_t(v.size());
            uint32_t a = n ? r.below(n) : 0, b = n ? r.below(n) : 0;
            int act = int(r.below(5));
            switch (k) {
            case 0: case 1: case 2: v.push_back(k ? L::template make<Dying>(i, &all, act) : sp<Dying>(new Dying(i, &all, act))); all.push_back(v.back()); break;
            case 3: if (n) v[a]->buddy = v[b]; break;
            case 4: case 5: if (n && a < b) { v[a]->more.push_back(v[b]); } break;    // only older ones own younger ones: no cycles
            case 6: case 7: if (n) v.erase(v.begin() + a); break;
            case 8: if (n && a < b) { auto t = v[a]; v.erase(v.begin() + a); t.reset(); } break;
            case 9: if (n) { wp<Dying> w = v[a]; v.erase(v.begin() + a); look("after", w); } break;
            }
            for (auto& x : v) { look("v", x); look("buddy of", x->buddy); }
            for (auto& x : all) look("all", x);
        }
        // youngest last, oldest first, or in between
        if (r.chance(1, 2)) while (!v.empty()) v.pop_back();
    }
    // -- erased and recovered
    static void erased(Rng& r) {
        struct Box { int tag; sp<void> p; wp<const void> w; };
        struct Big : Item { Item x, y; std::array<Item, 2> z; explicit Big(int v) : Item(v), x(v + 1), y(v + 2) {} };
        std::vector<Box> v;
        std::map<int, sp<const Item>> parts;
        int steps = 8 + int(r.below(16));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(12);
            o("step", k);
            Box* b = v.empty() ? nullptr : &v[r.below(uint32_t(v.size()))];
            switch (k) {
            case 0: v.push_back({0, L::template make<Item>(i), {}}); break;
            case 1: v.push_back({1, sp<Big>(new Big(i)), {}}); break;
            case 2: v.push_back({1, L::template make<Big>(i), {}}); break;
            case 3: v.push_back({0, up<Item>(new Item(i)), {}}); break;
            case 4: if (b && b->p && b->tag == 1) { auto big = L::template scast<Big>(b->p); parts[i] = sp<const Item>(big, r.chance(1, 2) ? &big->x : &big->z[1]); } break;
            case 5: if (b && b->p && b->tag == 0) { auto it = L::template scast<Item>(b->p); parts[i] = it; it->v = i; look("item", it); } break;
            case 6: if (b) { b->w = b->p; } break;
            case 7: if (b && b->p && b->tag == 1) { auto big = L::template rcast<Big>(b->p); o("y", big->y.v); sp<Item> y(big, &big->y); b->p.reset(); v.push_back({0, y, y}); } break;
            case 8: if (!parts.empty()) parts.erase(parts.begin()); break;
            case 9: if (b) { auto t = std::move(*b); *b = v.back(); v.pop_back(); if (r.chance(1, 2)) v.push_back(t); } break;
            case 10: if (!parts.empty()) { auto c = L::template ccast<Item>(parts.begin()->second); c->v += 7; o("v", parts.begin()->second->v); sp<void> e = c; v.push_back({0, e, c}); } break;
            case 11: v.erase(std::remove_if(v.begin(), v.end(), [](auto& x) { return !x.p; }), v.end()); break;
            }
            for (auto& x : v) { o("box", x.tag); o("box", x.p.use_count()); o("weak", x.w.use_count()); o("weak", x.w.expired()); auto l = x.w.lock(); o("locked", bool(l)); o("same", l == x.p); }
            for (auto& [key, x] : parts) { o("key", key); look("part", x); }
        }
    }
    // -- two level cache, most recently used first
    static void lru(Rng& r) {
        using List = std::list<std::pair<int, sp<Item>>>;
        List order;
        std::unordered_map<int, typename List::iterator> index;
        std::map<int, wp<Item>> second;
        std::vector<sp<const Item>> users;
        size_t cap = 2 + r.below(4);
        auto get = [&](int key) -> sp<Item> {
            if (auto it = index.find(key); it != index.end()) { order.splice(order.begin(), order, it->second); o("hit", key); return it->second->second; }
            sp<Item> p = second[key].lock();
            if (!p) { o("miss", key); p = key % 2 ? L::template make<Item>(key) : sp<Item>(L::template makeu<Item>(key)); second[key] = p; }
            order.emplace_front(key, p);
            index[key] = order.begin();
            if (order.size() > cap) { index.erase(order.back().first); order.pop_back(); }
            return p;
        };
        int steps = 12 + int(r.below(30));
        for (int i = 0; i < steps; ++i) {
            uint32_t k = r.below(8);
            o("step", k);
            int key = int(r.below(9));
            switch (k) {
            case 0: case 1: case 2: look("got", get(key)); break;
            case 3: users.push_back(get(key)); break;
            case 4: if (!users.empty()) { users.front() = std::move(users.back()); users.pop_back(); } break;
            case 5: for (auto it = second.begin(); it != second.end();) if (it->second.expired()) { o("forget", it->first); it = second.erase(it); } else ++it; break;
            case 6: if (!order.empty()) { auto p = std::move(order.back().second); index.erase(order.back().first); order.pop_back(); look("evicted", p); } break;
            case 7: { wp<Item> w = get(key); order.clear(); index.clear(); look("cleared", w); break; }
            }
            for (auto& [a, b] : order) { o("key", a); look("cached", b); }
            for (auto& [a, b] : second) { o("key2", a); look("second", b); }
            for (auto& x : users) look("user", x);
        }
    }
    // -- printing, comparing
    static void prints(Rng& r) {
        char text[] = "some text";
        auto a = L::template make<std::array<int, 8>>();
        sp<int> v[4];
        for (auto& p : v) if (r.chance(3, 4)) p = sp<int>(a, &(*a)[r.below(8)]);
        sp<char> c(a, text + r.below(9));
        sp<void> vo = v[0];
        up<int> u(r.chance(1, 2) ? new int(5) : nullptr);
        auto same = [](const auto& p, const auto* raw) { std::ostringstream x, y; x << p; y << raw; o("printed", x.str() == y.str()); };
        for (auto& p : v) same(p, p.get());
        same(vo, vo.get());
        { std::ostringstream x; x << c; o("text", long(std::hash<std::string>()(x.str()) >> 8)); }
        if constexpr (printable<up<int>>::value) same(u, u.get());
        else o("printed", true); // only from C++20 on
        { std::ostringstream x; x << v[0] << '-' << 5 << std::hex << v[1] << 77; std::ostringstream y; y << v[0].get() << '-' << 5 << std::hex << v[1].get() << 77; o("chain", x.str() == y.str()); }
        for (auto& p : v) for (auto& q : v) {
            o("eq", p == q); o("ne", p != q);
            if (p && q) { o("lt", p < q); o("le", p <= q); o("gt", p > q); o("ge", p >= q); }
        }
        auto best = std::max_element(v, v + 4);
        if (v[0] && v[1] && v[2] && v[3]) o("max", best - v);
        std::sort(v, v + 4, [](auto& x, auto& y) { return (x ? *x : -1) < (y ? *y : -1); });
        up<int> e;
        o("ueq", u == e); o("une", u != e);
        up<const int> cu(new int(4));
        o("ucmp", cu == u); o("unot", !cu);
    }

    static void run(int k, uint64_t seed) {
        Rng r(seed);
        L::log.e.clear();
        L::log.next_id = 0;
        switch (k) {
        case 0: scenario = "containers"; containers(r); break;
        case 1: scenario = "uniques"; uniques(r); break;
        case 2: scenario = "assoc"; assoc(r); break;
        case 3: scenario = "tree"; tree(r); break;
        case 4: scenario = "lists"; lists(r); break;
        case 5: scenario = "graph"; graph(r); break;
        case 6: scenario = "observers"; observers(r); break;
        case 7: scenario = "poly"; poly(r); break;
        case 8: scenario = "deleters"; deleters(r); break;
        case 9: scenario = "arrays"; arrays(r); break;
        case 10: scenario = "selfs"; selfs(r); break;
        case 11: scenario = "values"; values(r); break;
        case 12: scenario = "prints"; prints(r); break;
        case 13: scenario = "exceptions"; exceptions(r); break;
        case 14: scenario = "cows"; cows(r); break;
        case 15: scenario = "pools"; pools(r); break;
        case 16: scenario = "events"; events(r); break;
        case 17: scenario = "deaths"; deaths(r); break;
        case 18: scenario = "erased"; erased(r); break;
        case 19: scenario = "lru"; lru(r); break;
        }
        o("alive at the end", L::log.live);
    }
    static constexpr int N = 20;
};
template <typename L> int Prog<L>::Risky::countdown = 0;

template <typename L> static void compare() {
    auto& a = LStd::log.e;
    auto& b = L::log.e;
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) {
        ++n_obs;
        if (a[i].v != b[i].v || strcmp(a[i].what, b[i].what)) {
            char before[300];
            int l = 0;
            before[0] = 0;
            for (size_t k = i > 6 ? i - 6 : 0; k < i && l < 250; ++k) l += snprintf(before + l, sizeof before - size_t(l), " %s=%lld", a[k].what, a[k].v);
            out.violation("diff.observation", "program '%s', observation %zu: %s=%lld with std, %s=%lld with %s; before:%s", scenario, i, a[i].what, a[i].v, b[i].what, b[i].v, L::name, before);
        }
    }
    if (a.size() != b.size()) out.violation("diff.length", "program '%s': %zu observations with std, %zu with %s", scenario, a.size(), b.size(), L::name);
}

int main(int argc, char** argv) {
    out.init(argc, argv);
    out.before_finish = [] {
        out.stat("observations_compared", n_obs);
        out.stat("objects_in_programs", n_objects);
    };
    LStd::log.e.reserve(1 << 16); LX::log.e.reserve(1 << 16); LL::log.e.reserve(1 << 16);
    out.run([&](long c) {
        uint64_t seed = mix(out.args.seed * 1000003ull + uint64_t(c));
        int k = int(c % Prog<LStd>::N);
        hm::fill = static_cast<unsigned char>(1 + (seed >> 7) % 254);
        long hs = hm::live;
        Prog<LStd>::run(k, seed);
        long h0 = hm::live;
        if (h0 != hs) { printf("program '%s' leaks with std\n", scenario); fflush(stdout); abort(); }
        Prog<LX>::run(k, seed);
        if (hm::live != h0) out.violation("leak", "program '%s': %ld blocks left", scenario, hm::live - h0);
        Prog<LL>::run(k, seed);
        if (hm::live != h0) out.violation("leak", "program '%s' (local): %ld blocks left", scenario, hm::live - h0);
        compare<LX>();
        compare<LL>();
        n_objects += LX::log.next_id;
        uint64_t h = uint64_t(k);
        for (auto& e : LStd::log.e) h = mix(h ^ uint64_t(e.v));
        out.hash(h);
        if (out.want_sample()) {
            char b[600];
            int l = snprintf(b, sizeof b, "program '%s' seed %llu: %zu observations:", scenario, (unsigned long long)seed, LStd::log.e.size());
            for (size_t i = 0; i < LStd::log.e.size() && l < 500; ++i) l += snprintf(b + l, sizeof b - size_t(l), " %s=%lld", LStd::log.e[i].what, LStd::log.e[i].v);
            out.sample(b);
        }
        out.stat("cases");
    });
    return 0;
}
