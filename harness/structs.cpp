// D05-D07: the bounded allocator, dynamic forests and index structures under
// failing allocations, element copies and user functions.
#include "../sim/env.h"
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
using namespace sim;

#ifdef P_D05
// malloc and free are simulated: they may fail, and every block is accounted for
static uint64_t g_blocks;
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (g_in_new) return __real_malloc(n); if (fp_malloc()) { fault("malloc-fails"); errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); if (p) g_blocks++; return p; }
void* __wrap_calloc(size_t n, size_t m) { if (g_in_new) return __real_calloc(n, m); if (fp_malloc()) { fault("malloc-fails"); errno = ENOMEM; return nullptr; } void* p = __real_calloc(n, m); if (p) g_blocks++; return p; }
void* __wrap_realloc(void* q, size_t n) { if (g_in_new) return __real_realloc(q, n); if (fp_malloc()) { fault("malloc-fails"); errno = ENOMEM; return nullptr; } void* p = __real_realloc(q, n); if (p && !q) g_blocks++; return p; }
void __wrap_free(void* p) { if (p && !g_in_new) g_blocks--; __real_free(p); }
}
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
using namespace altruct::container;
namespace bdh = altruct::container::bst_duplicate_handling;
struct Three { void* a; short b; double c; }; struct Odd { char c[5]; };
static void arm_some(int* kind) { *kind = choose(3); if (*kind == 2) fp_arm(1 + choose(3)); else if (*kind == 1 && choose(3) == 2) fp_arm(1); }

template<typename T> struct Holder {
    typedef bounded_contiguous_allocator<T> A;
    struct Live { T* p; uint32_t pat; };
    std::unique_ptr<A> a; long cap; std::vector<Live> live;     // cap -1: not known (moved from)
};
template<typename T> static void fill(T* p, uint32_t pat) { unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < sizeof(T); i++) b[i] = (unsigned char)(pat >> (8 * (i & 3))) ^ (unsigned char)(i * 7); }
template<typename T> static bool intact(T* p, uint32_t pat) { unsigned char* b = (unsigned char*)p; for (size_t i = 0; i < sizeof(T); i++) if (b[i] != (unsigned char)((unsigned char)(pat >> (8 * (i & 3))) ^ (unsigned char)(i * 7))) return false; return true; }
template<typename T> static void check_all(std::vector<std::unique_ptr<Holder<T>>>& hs, const char* when) {
    std::vector<std::pair<char*, char*>> r;
    for (auto& h : hs) {
        char* lo = nullptr; char* hi = nullptr;
        for (auto& l : h->live) { SIM_CHECK((size_t)l.p % alignof(T) == 0, "misaligned", "%s: misaligned address", when); SIM_CHECK(intact(l.p, l.pat), "contents-changed", "%s: contents of a live allocation have changed", when); char* b = (char*)l.p; r.push_back({b, b + sizeof(T)}); if (!lo || b < lo) lo = b; if (!hi || b + sizeof(T) > hi) hi = b + sizeof(T); }
        if (lo && h->cap >= 0) SIM_CHECK((size_t)(hi - lo) <= (size_t)h->cap * sizeof(T), "not-contiguous", "%s: live elements span %zu bytes with a capacity of %ld", when, (size_t)(hi - lo), h->cap);
        if (h->cap >= 0) SIM_CHECK(h->live.size() <= (size_t)h->cap, "over-capacity", "%s: more elements than the capacity", when);
        if (h->cap >= 0) SIM_CHECK(h->a->capacity() == (size_t)h->cap, "wrong-capacity", "%s: capacity is %zu, expected %ld", when, h->a->capacity(), h->cap);
    }
    std::sort(r.begin(), r.end()); for (size_t i = 1; i < r.size(); i++) SIM_CHECK(r[i].first >= r[i - 1].second, "overlap", "%s: two live allocations overlap", when);
}
template<typename T, typename U> static void allocator_run(const char* name) {
    typedef bounded_contiguous_allocator<T> A; typedef bounded_contiguous_allocator<U> B; typedef Holder<T> H;
    uint64_t blocks0 = g_blocks; log("allocator of %s", name);
    {
        std::vector<std::unique_ptr<H>> hs; int ops = 5 + small(60); uint32_t pat = 1;
        auto add = [&](A* a, long cap) { std::unique_ptr<H> h(new H); h->a.reset(a); h->cap = cap; hs.push_back(std::move(h)); };
        auto some_cap = [&]() { return (long)(choose(4) ? choose(7) : choose(40)); };
        long c0 = some_cap(); add(new A(c0), c0); log("a0 has capacity %ld", c0);
        set_crash_class("allocator");
        for (int op = 0; op < ops; op++) {
            int i = choose((uint32_t)hs.size()), j = choose((uint32_t)hs.size()); H& h = *hs[i]; H& g = *hs[j]; int k = choose(22);
            if (k < 9) {   // allocate
                bool armed = choose(4) == 3; if (armed) fp_arm(1 + choose(2), FP_ALLOC);
                T* p = nullptr; bool threw = false; try { p = h.a->allocate(1); } catch (const std::bad_alloc&) { threw = true; } bool fired = fp_disarm();
                log("a%d allocate %s", i, threw ? "refused" : "ok");
                if (threw) SIM_CHECK(fired || h.cap < 0 || (long)h.live.size() >= h.cap, "refused", "an allocation was refused with %zu of %ld elements in use", h.live.size(), h.cap);
                else { SIM_CHECK(p != nullptr, "null", "a null address was handed out"); SIM_CHECK(h.cap < 0 || (long)h.live.size() < h.cap, "over-capacity", "element %zu was handed out with a capacity of %ld", h.live.size() + 1, h.cap); fill(p, ++pat); h.live.push_back({p, pat}); }
            } else if (k < 13) { // release
                if (h.live.empty()) continue; size_t x = choose((uint32_t)h.live.size()); log("a%d release %zu", i, x); SIM_CHECK(intact(h.live[x].p, h.live[x].pat), "contents-changed", "before the release"); T* p = h.live[x].p; h.live.erase(h.live.begin() + x); h.a->deallocate(p, 1);
            } else if (k == 13) { size_t n = choose(2) ? 0 : 2 + choose(5); bool threw = false; try { h.a->allocate(n); } catch (const std::bad_alloc&) { threw = true; } log("a%d allocate(%zu)", i, n); if (n) SIM_CHECK(threw, "many-at-once", "allocate(%zu) was not refused", n); else if (!threw) { /* a zero-sized request may be honoured with one element; nothing may use it */ h.cap = h.cap < 0 ? -1 : h.cap; hs[i]->live.size(); } }
            else if (k == 14 || k == 15) { if (hs.size() >= 6) continue; log("a%zu = copy of a%d", hs.size(), i); add(new A(*h.a), h.cap); probe("copy"); }
            else if (k == 16) { if (hs.size() >= 6) continue; log("a%zu = move of a%d", hs.size(), i); A* n = new A(std::move(*h.a)); long c = h.cap; auto lv = std::move(h.live); h.live.clear(); h.cap = -1; add(n, c); hs.back()->live = lv; probe("move"); }
            else if (k == 17) { if (!h.live.empty()) continue; log("a%d = a%d", i, j); *h.a = *g.a; h.cap = g.cap; probe(i == j ? "self-assign" : "assign"); }
            else if (k == 18) { if (!h.live.empty() || i == j) continue; log("a%d = move of a%d", i, j); *h.a = std::move(*g.a); h.cap = g.cap; h.live = std::move(g.live); g.live.clear(); g.cap = -1; }
            else if (k == 19) { log("swap a%d a%d", i, j); std::swap(*h.a, *g.a); std::swap(h.cap, g.cap); std::swap(h.live, g.live); probe("swap"); }
            else if (k == 20) { // to and from an allocator of another type
                if (choose(2)) { if (hs.size() >= 6) continue; log("a%zu converted from a%d and back", hs.size(), i); B b(*h.a); U* p = nullptr; try { p = b.allocate(1); } catch (const std::bad_alloc&) {} add(new A(b), h.cap); if (p) b.deallocate(p, 1); }
                else { if (!h.live.empty()) continue; size_t c = choose(9); log("a%d = other type of capacity %zu", i, c); B b(c); *h.a = b; h.cap = (long)c; } }
            else { if (hs.size() < 2) { long c = some_cap(); add(new A(c), c); log("new allocator of capacity %ld", c); continue; } if (!h.live.empty() && choose(3)) continue; log("destroy a%d", i); hs.erase(hs.begin() + i); }
            check_all(hs, "after the operation");
            state(mix(hs.size(), mix(op, hs[0]->live.size())));
        }
    }
    SIM_CHECK(g_blocks == blocks0, "leak", "%lld blocks were not given back", (long long)(g_blocks - blocks0));
}
SIM_SCENARIO(D05, bytes, 2) { allocator_run<char, double>("char"); }
SIM_SCENARIO(D05, doubles, 2) { allocator_run<double, Odd>("double"); }
SIM_SCENARIO(D05, records, 2) { allocator_run<Three, char>("record"); }
SIM_SCENARIO(D05, odd, 1) { allocator_run<Odd, Three>("five bytes"); }
// capacities whose memory cannot exist
SIM_SCENARIO(D05, huge, 1) {
    uint64_t blocks0 = g_blocks;
    { static const size_t c[] = {SIZE_MAX, SIZE_MAX / 8, SIZE_MAX / 8 + 1, SIZE_MAX / 8 + 2, SIZE_MAX / 24 + 1, SIZE_MAX / 24 + 2, SIZE_MAX / 16 + 3, (SIZE_MAX / 8) * 3 + 5, SIZE_MAX - 1, SIZE_MAX / 2 + 1}; size_t n = c[choose(10)] + (choose(3) ? 0 : choose(5)); if (n < 1000) n = SIZE_MAX; log("capacity %zu", n); fault("oversized-capacity");
      set_crash_class("huge-capacity"); bounded_contiguous_allocator<Three> a(n); bounded_contiguous_allocator<double> b(n); bool t1 = false, t2 = false;
      try { a.allocate(1); } catch (const std::bad_alloc&) { t1 = true; } try { b.allocate(1); } catch (const std::bad_alloc&) { t2 = true; }
      SIM_CHECK(t1 && t2, "impossible-capacity", "an allocator of capacity %zu handed out memory", n); state(n); bounded_contiguous_allocator<double> d(a); try { d.allocate(1); SIM_CHECK(false, "impossible-capacity", "a copy handed out memory"); } catch (const std::bad_alloc&) {} }
    SIM_CHECK(g_blocks == blocks0, "leak", "blocks were not given back");
}

// containers with a bounded allocator
template<typename C> struct Use;
template<> struct Use<binary_search_tree<Elem, Elem, bdh::STORE, std::less<Elem>, bounded_contiguous_allocator<bst_node<Elem>>>> { typedef binary_search_tree<Elem, Elem, bdh::STORE, std::less<Elem>, bounded_contiguous_allocator<bst_node<Elem>>> C; enum { seq = 0 }; static C* make(size_t cap) { return new C(std::less<Elem>(), bounded_contiguous_allocator<bst_node<Elem>>(cap)); } static void insert(C& c, int v, size_t) { Elem e(v); c.insert(e); } static void erase(C& c, size_t pos) { auto it = c.begin(); while (pos--) ++it; c.erase(it); } };
static int small_prio() { return (int)choose(1000); }
template<> struct Use<treap<Elem, Elem, bdh::STORE, std::less<Elem>, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>>> { typedef treap<Elem, Elem, bdh::STORE, std::less<Elem>, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>> C; enum { seq = 0 }; static C* make(size_t cap) { return new C(std::less<Elem>(), small_prio, bounded_contiguous_allocator<bst_node<Elem>>(cap)); } static void insert(C& c, int v, size_t) { Elem e(v); c.insert(e); } static void erase(C& c, size_t pos) { auto it = c.begin(); while (pos--) ++it; c.erase(it); } };
template<> struct Use<rope<Elem, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>>> { typedef rope<Elem, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>> C; enum { seq = 1 }; static C* make(size_t cap) { return new C(small_prio, bounded_contiguous_allocator<bst_node<Elem>>(cap)); } static void insert(C& c, int v, size_t pos) { Elem e(v); c.insert(c.begin() + pos, e); } static void erase(C& c, size_t pos) { c.erase(c.begin() + pos); } };
template<typename C> struct Slot { std::unique_ptr<C> c; std::vector<int> v; long cap; };
template<typename C> static void same(Slot<C>& s, const char* when) {
    size_t i = 0; SIM_CHECK((size_t)s.c->size() == s.v.size(), "contents", "%s: size %d, expected %zu", when, (int)s.c->size(), s.v.size());
    for (auto it = s.c->begin(); it != s.c->end(); ++it, ++i) { SIM_CHECK(i < s.v.size() && (*it).get() == s.v[i], "contents", "%s: entry %zu differs", when, i); }
    SIM_CHECK(i == s.v.size(), "contents", "%s: %zu entries, expected %zu", when, i, s.v.size());
}
template<typename C> static void container_run(const char* name) {
    typedef Use<C> UC; uint64_t blocks0 = g_blocks, lb = live_blocks(); int64_t le = Elem::live; log("%s", name); set_crash_class("bounded-container");
    {
        std::vector<std::unique_ptr<Slot<C>>> s; s.reserve(8); int ops = 5 + small(40);
        auto fresh = [&](long cap) { std::unique_ptr<Slot<C>> x(new Slot<C>); x->cap = cap; bool threw = false; bool armed = choose(6) == 5; if (armed) fp_arm(1 + choose(3)); try { x->c.reset(UC::make(cap)); } catch (const std::bad_alloc&) { threw = true; } bool fired = fp_disarm(); log("c%zu with capacity %ld%s", s.size(), cap, threw ? " refused" : ""); SIM_CHECK(!threw || fired || cap < 1, "refused", "construction was refused"); if (!threw) { SIM_CHECK(cap >= 1, "over-capacity", "constructed without capacity"); s.push_back(std::move(x)); } };
        while (s.empty()) fresh(1 + choose(9));
        for (int op = 0; op < ops; op++) {
            int i = choose((uint32_t)s.size()), j = choose((uint32_t)s.size()); Slot<C>& a = *s[i]; Slot<C>& b = *s[j]; int k = choose(16); bool armed = choose(3) == 2; auto arm = [&]() { if (armed) fp_arm(1 + choose(6)); }; bool threw = false; const char* what = "";
            try {
                if (k < 7) { int v = choose(20); size_t pos = choose((uint32_t)a.v.size() + 1); what = "insert"; arm(); UC::insert(*a.c, v, pos); fp_disarm(); SIM_CHECK(a.cap < 0 || (long)a.v.size() + 1 < a.cap, "over-capacity", "%zu elements and the sentinel fit a capacity of %ld", a.v.size() + 1, a.cap); if (UC::seq) a.v.insert(a.v.begin() + pos, v); else a.v.insert(std::upper_bound(a.v.begin(), a.v.end(), v), v); log("c%d insert %d", i, v); }
                else if (k < 9) { if (a.v.empty()) continue; size_t pos = choose((uint32_t)a.v.size()); what = "erase"; log("c%d erase %zu", i, pos); UC::erase(*a.c, pos); a.v.erase(a.v.begin() + pos); }
                else if (k == 9) { if (s.size() < 5) fresh(choose(12)); }
                else if (k == 10) { if (s.size() >= 6) continue; what = "copy"; std::unique_ptr<Slot<C>> x(new Slot<C>); arm(); x->c.reset(new C(*a.c)); fp_disarm(); x->v = a.v; x->cap = a.cap; log("c%zu = copy of c%d", s.size(), i); s.push_back(std::move(x)); probe("copy"); }
                else if (k == 11) { if (s.size() >= 6) continue; what = "move"; std::unique_ptr<Slot<C>> x(new Slot<C>); arm(); x->c.reset(new C(std::move(*a.c))); fp_disarm(); x->v = std::move(a.v); x->cap = a.cap; a.v.clear(); a.cap = -1; log("c%zu = move of c%d", s.size(), i); s.push_back(std::move(x)); probe("move"); }
                else if (k == 12) { what = "assign"; arm(); *a.c = *b.c; fp_disarm(); log("c%d = c%d", i, j); std::vector<int> t = b.v; a.v = t; a.cap = b.cap; }
                else if (k == 13) { if (i == j) continue; what = "swap"; log("swap c%d c%d", i, j); a.c->swap(*b.c); std::swap(a.v, b.v); std::swap(a.cap, b.cap); }
                else if (k == 14) { what = "clear"; log("c%d clear", i); a.c->clear(); a.v.clear(); }
                else { if (s.size() < 2) continue; log("destroy c%d", i); s.erase(s.begin() + i); }
            } catch (const std::bad_alloc&) { threw = true; } catch (const SimFault&) { threw = true; }
            bool fired = fp_disarm();
            if (threw) { log("c%d %s refused", i, what); bool full = k < 7 && (a.cap < 0 || (long)a.v.size() + 1 >= a.cap); SIM_CHECK(fired || full || a.cap < 0, "refused", "%s was refused with %zu elements in a capacity of %ld", what, a.v.size(), a.cap); if (full && !fired) probe("exhausted"); }
            for (auto& x : s) same(*x, what);
            state(mix(s.size(), mix(k, mix(s[0]->v.size(), s.back()->cap))));
        }
    }
    SIM_CHECK(g_blocks == blocks0, "leak", "%lld blocks were not given back", (long long)(g_blocks - blocks0)); SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le)); SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks of operator new remain", (long long)(live_blocks() - lb));
}
SIM_SCENARIO(D05, tree, 2) { container_run<binary_search_tree<Elem, Elem, bdh::STORE, std::less<Elem>, bounded_contiguous_allocator<bst_node<Elem>>>>("binary search tree"); }
SIM_SCENARIO(D05, treap_, 2) { container_run<treap<Elem, Elem, bdh::STORE, std::less<Elem>, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>>>("treap"); }
SIM_SCENARIO(D05, rope_, 2) { container_run<rope<Elem, std::function<int()>, bounded_contiguous_allocator<bst_node<Elem>>>>("rope"); }
#endif

#ifdef P_D06
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
// path values do not commute: the path from the root to a node as a polynomial hash
struct PV { Elem e; uint64_t own, h; int len; PV(uint64_t own = 0) : e((int)own), own(own), h(own), len(own ? 1 : 0) {} };
static const uint64_t BASE_ = 1000003;
static uint64_t pw(int n) { uint64_t r = 1; while (n-- > 0) r *= BASE_; return r; }
static void up(PV& p, const PV& l, const PV& r) { if (p.e.get() != (int)p.own) fail("element", "an element is damaged"); uint64_t h = l.h * BASE_ + p.own; p.h = h * pw(r.len) + r.h; p.len = l.len + 1 + r.len; }
typedef link_cut_tree<PV> LCT;
struct Forest { std::unique_ptr<LCT> t; std::vector<int> par; std::vector<uint64_t> val;   // 1-based, 0 is nil
    int root(int v) { while (par[v]) v = par[v]; return v; } int depth(int v) { int d = 0; while (par[v]) { v = par[v]; d++; } return d; }
    std::vector<int> path(int v) { std::vector<int> p; for (; v; v = par[v]) p.push_back(v); std::reverse(p.begin(), p.end()); return p; }
    uint64_t hash(int v) { uint64_t h = 0; for (int x : path(v)) h = h * BASE_ + val[x]; return h; }
    int lca(int a, int b) { auto p = path(a), q = path(b); int l = 0; for (size_t i = 0; i < p.size() && i < q.size() && p[i] == q[i]; i++) l = p[i]; return l; } int n() { return (int)par.size() - 1; } };
static void query(Forest& f, int v, int w, int kind, const char* when) {
    switch (kind) {
        case 0: { int x = f.t->find_root(v); SIM_CHECK(x == f.root(v), "wrong-root", "%s: root of %d is %d, expected %d", when, v, x, f.root(v)); break; }
        case 1: { int x = f.t->find_parent(v); SIM_CHECK(x == f.par[v], "wrong-parent", "%s: parent of %d is %d, expected %d", when, v, x, f.par[v]); break; }
        case 2: { int x = f.t->find_lca(v, w), e = f.lca(v, w); SIM_CHECK(x == e, "wrong-lca", "%s: lowest common ancestor of %d and %d is %d, expected %d", when, v, w, x, e); break; }
        case 3: { int x = f.t->depth(v); SIM_CHECK(x == f.depth(v), "wrong-depth", "%s: depth of %d is %d, expected %d", when, v, x, f.depth(v)); break; }
        case 4: { PV& x = f.t->get(v); uint64_t e = f.hash(v); SIM_CHECK(x.h == e && x.len == f.depth(v) + 1 && x.own == f.val[v] && x.e.get() == (int)x.own, "wrong-path-value", "%s: the value of the path to %d is wrong", when, v); break; }
        default: { auto p = f.path(v); int d = (int)choose((uint32_t)p.size() + 2) - 1, want = d >= 0 && d < (int)p.size() ? p[d] : 0, deepest = -1; uint64_t at = 0; 
            int x = f.t->traverse(v, [&](const PV& val, const PV&, const PV&, int dep) { if (dep < 0 || dep >= (int)p.size() || f.val[p[dep]] != val.own) fail("wrong-traversal", "%s: the traversal shows a node of another depth (%d)", when, dep); deepest = dep; at = val.own; return d < dep ? -1 : d > dep ? 1 : 0; });
            SIM_CHECK(x == want, "wrong-traversal", "%s: the node at depth %d above %d is %d, expected %d", when, d, v, x, want); (void)deepest; (void)at; break; }
    }
}
static void check_forest(Forest& f, const char* when) {
    SIM_CHECK(f.t->size() == f.n(), "wrong-size", "%s: %d nodes, expected %d", when, f.t->size(), f.n());
    for (int v = 1; v <= f.n(); v++) { query(f, v, v, 0, when); query(f, v, v, 1, when); query(f, v, v, 3, when); query(f, v, v, 4, when); }
}
SIM_SCENARIO(D06, forest, 1) {
    uint64_t lb = live_blocks(); int64_t le = Elem::live; set_crash_class("forest");
    {
        std::vector<std::unique_ptr<Forest>> fs; int ops = 10 + small(120); uint64_t nv = 1;
        auto fresh = [&]() {
            std::unique_ptr<Forest> f(new Forest); int n = choose(3) ? choose(12) : 0, how = choose(3); f->par.assign(1, 0); f->val.assign(1, 0); bool threw = false; std::vector<PV> vals; if (how == 2) for (int i = 0; i < n; i++) vals.push_back(PV(nv++)); bool armed = choose(3) == 2;
            uint64_t b0 = live_blocks(); int64_t e0 = Elem::live; if (armed) fp_arm(1 + choose(2 * n + 6));
            try { if (how == 0) f->t.reset(new LCT(up)); else if (how == 1) f->t.reset(new LCT((size_t)n, up)); else f->t.reset(new LCT(vals.begin(), vals.end(), up)); } catch (const std::bad_alloc&) { threw = true; } catch (const SimFault&) { threw = true; }
            fp_disarm(); log("f%zu built in way %d with %d nodes%s", fs.size(), how, n, threw ? " failed" : "");
            if (threw) { SIM_CHECK(live_blocks() == b0, "leak", "a failed construction leaves %lld blocks behind", (long long)(live_blocks() - b0)); SIM_CHECK(Elem::live == e0, "elements-leak", "a failed construction leaves %lld elements behind", (long long)(Elem::live - e0)); return; }
            for (int i = 0; how && i < n; i++) { f->par.push_back(0); f->val.push_back(how == 2 ? vals[i].own : 0); }
            if (how == 1) for (int v = 1; v <= n; v++) { f->val[v] = nv++; PV& p = f->t->get(v); p.own = f->val[v]; p.e = Elem((int)p.own); }
            fs.push_back(std::move(f)); };
        while (fs.empty()) fresh();
        for (int op = 0; op < ops; op++) {
            int i = choose((uint32_t)fs.size()), j = choose((uint32_t)fs.size()); Forest& f = *fs[i]; int n = f.n(); int k = choose(32); int v = n ? 1 + choose(n) : 0, w = n ? 1 + choose(n) : 0;
            if (k < 5 || (n < 6 && k < 10)) {
                bool armed = choose(3) == 2, threw = false; uint64_t val = nv++; { PV p(val); if (armed) fp_arm(1 + choose(5)); int x = -1; try { x = f.t->add(p); } catch (const std::bad_alloc&) { threw = true; } catch (const SimFault&) { threw = true; } fp_disarm(); if (!threw) { SIM_CHECK(x == n + 1, "wrong-index", "the new node is %d, expected %d", x, n + 1); f.par.push_back(0); f.val.push_back(val); } } log("f%d add %llu%s", i, (unsigned long long)val, threw ? " failed" : ""); if (threw) { check_forest(f, "after a failed add"); probe("failed-add"); } }
            else if (!n) { if (k == 31 && fs.size() < 4) fresh(); continue; }
            else if (k < 14) { v = f.root(v); if (f.root(w) == v) continue; log("f%d link %d below %d", i, v, w); f.t->link(v, w); f.par[v] = w; }
            else if (k < 17) { log("f%d cut %d", i, v); f.t->cut(v); f.par[v] = 0; }
            else if (k == 17) { log("f%d set %d", i, v); uint64_t x = nv++; PV& p = f.t->get(v); p.own = x; p.e = Elem((int)x); f.val[v] = x; }
            else if (k < 26) { int q = choose(6); log("f%d query %d of %d, %d", i, q, v, w); query(f, v, w, q, "query"); }
            else if (k == 26) { // a path of all nodes, then its far ends
                log("f%d one long path", i); for (int x = 1; x <= n; x++) { f.t->cut(x); f.par[x] = 0; } for (int x = 2; x <= n; x++) { f.t->link(x, x - 1); f.par[x] = x - 1; } query(f, n, 1, choose(6), "long path"); }
            else if (k == 27) { if (fs.size() >= 4) continue; std::unique_ptr<Forest> c(new Forest); c->par = f.par; c->val = f.val; bool threw = false, armed = choose(2); uint64_t b0 = live_blocks(); int64_t e0 = Elem::live; if (armed) fp_arm(1 + choose(2 * n + 6)); try { c->t.reset(new LCT(*f.t)); } catch (const std::bad_alloc&) { threw = true; } catch (const SimFault&) { threw = true; } fp_disarm(); log("f%zu = copy of f%d%s", fs.size(), i, threw ? " failed" : ""); if (threw) { SIM_CHECK(live_blocks() == b0 && Elem::live == e0, "leak", "a failed copy leaves %lld blocks and %lld elements behind", (long long)(live_blocks() - b0), (long long)(Elem::live - e0)); check_forest(f, "after a failed copy"); } else { fs.push_back(std::move(c)); probe("copy"); } }
            else if (k == 28) { if (i == j) continue; bool threw = false, armed = choose(2); if (armed) fp_arm(1 + choose(2 * fs[j]->n() + 6)); try { *f.t = *fs[j]->t; } catch (const std::bad_alloc&) { threw = true; } catch (const SimFault&) { threw = true; } fp_disarm(); log("f%d = f%d%s", i, j, threw ? " failed" : ""); if (!threw) { f.par = fs[j]->par; f.val = fs[j]->val; } else check_forest(f, "after a failed assignment"); probe("assign"); }
            else if (k == 29) { if (i == j) continue; log("swap f%d f%d", i, j); bool threw = false; try { std::swap(*f.t, *fs[j]->t); std::swap(f.par, fs[j]->par); std::swap(f.val, fs[j]->val); } catch (const std::bad_alloc&) { threw = true; } SIM_CHECK(!threw, "swap-failed", "a swap failed"); probe("swap"); }
            else if (k == 30) { if (fs.size() < 2) continue; log("destroy f%d", i); fs.erase(fs.begin() + i); }
            else { if (fs.size() < 4) fresh(); }
            if (op % 8 == 7) for (auto& x : fs) check_forest(*x, "now and then");
            uint64_t h = fs.size(); for (auto& x : fs) for (int p : x->par) h = mix(h, p); state(h);
        }
        for (auto& x : fs) check_forest(*x, "at the end");
    }
    SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb)); SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le));
}
#endif
