// D01-D04: ordered containers and ropes against plain reference models, under
// adversarial priorities, failing allocations, copies and comparisons.
#include "../sim/env.h"
#include <string.h>
#include <limits.h>
#include <memory>
#include <iterator>
#include <map>
#include <functional>
#include <limits>
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
using namespace sim;
using namespace altruct::container;
namespace bdh = altruct::container::bst_duplicate_handling;

// ---------------------------------------------------------------- priorities
struct PrioState { int mode; int n; int last; };
static PrioState g_prio;
static int draw_prio() {
    PrioState& p = g_prio; p.n++;
    switch (p.mode) {
        case 0: return (int)(choose(1u << 30));                        // ordinary
        case 1: return 0;                                              // stuck at zero
        case 2: return 77;                                             // stuck
        case 3: { static const int x[] = {0, INT_MAX, INT_MIN, -1, 1, INT_MIN + 1}; return x[choose(6)]; }
        case 4: return (int)choose(1u << 31) - (1 << 30);              // full range, half negative
        case 5: return p.n;                                            // ever larger
        case 6: return -p.n;                                           // ever smaller
        case 7: return (p.n & 1) ? p.n : -p.n;                         // zigzag
        default: return (int)choose(3) - 1;
    }
}
// the library's default source of priorities
extern "C" int rand() noexcept { return draw_prio() & INT_MAX; }
static const char* prio_name(int m) { static const char* n[] = {"ordinary", "zero", "stuck", "extreme", "signed", "rising", "falling", "zigzag", "tiny"}; return n[m]; }
static void setup_prio() {
    g_prio.mode = choose(9); g_prio.n = 0; g_prio.last = 0;
    log("priorities: %s", prio_name(g_prio.mode));
    if (g_prio.mode) { char b[48]; snprintf(b, sizeof b, "prio-%s", prio_name(g_prio.mode)); fault(b); }
}

// ---------------------------------------------------------------- D01 / D04 value access
template<typename T> struct Val { static int key(const T& t) { return t; } static int id(const T&) { return 0; } static T make(int k, int) { return k; } enum { has_id = 0 }; };
template<> struct Val<std::pair<const int, int>> { typedef std::pair<const int, int> T; static int key(const T& t) { return t.first; } static int id(const T& t) { return t.second; } static T make(int k, int id) { return T(k, id); } enum { has_id = 1 }; };
template<> struct Val<Elem> { static int key(const Elem& t) { return t.get(); } static int id(const Elem&) { return 0; } static Elem make(int k, int) { return Elem(k); } enum { has_id = 0 }; };

struct Ent { int key, id, cnt; };

// Reference model: a sorted vector of entries
struct Model {
    std::vector<Ent> v; int dup; bool desc;
    bool lt(int a, int b) const { return desc ? b < a : a < b; }
    size_t lower(int k) const { size_t i = 0; while (i < v.size() && lt(v[i].key, k)) i++; return i; }
    size_t upper(int k) const { size_t i = 0; while (i < v.size() && !lt(k, v[i].key)) i++; return i; }
    int size() const { int s = 0; for (auto& e : v) s += e.cnt; return s; }
    size_t insert(int k, int id, int cnt) {
        size_t l = lower(k), u = upper(k);
        if (dup == bdh::STORE) { v.insert(v.begin() + u, Ent{k, id, 1}); return u; }
        if (l < u) { if (dup == bdh::COUNT) v[l].cnt += cnt; return l; }
        v.insert(v.begin() + l, Ent{k, id, dup == bdh::COUNT ? cnt : 1}); return l;
    }
    void erase_at(size_t i, int cnt) { if (dup == bdh::COUNT && cnt < v[i].cnt) v[i].cnt -= cnt; else v.erase(v.begin() + i); }
};

template<typename Tree>
static void check_tree(Tree& t, const Model& m, const char* when) {
    typedef typename Tree::value_type T; typedef Val<T> VA;
    const Tree& ct = t;
    SIM_CHECK(t.size() == m.size(), "tree-size", "%s: size %d, expected %d", when, t.size(), m.size());
    SIM_CHECK(t.empty() == m.v.empty(), "tree-empty", "%s: empty() is %d with %zu entries expected", when, (int)t.empty(), m.v.size());
    size_t i = 0;
    for (auto it = ct.begin(); it != ct.end(); ++it, ++i) {
        SIM_CHECK(i < m.v.size(), "tree-contents", "%s: more than the %zu expected entries when iterating", when, m.v.size());
        SIM_CHECK(VA::key(*it) == m.v[i].key && (!VA::has_id || VA::id(*it) == m.v[i].id), "tree-contents", "%s: entry %zu is %d/%d, expected %d/%d", when, i, VA::key(*it), VA::id(*it), m.v[i].key, m.v[i].id);
        SIM_CHECK(it.count() == m.v[i].cnt, "tree-count", "%s: entry %zu has count %d, expected %d", when, i, it.count(), m.v[i].cnt);
    }
    SIM_CHECK(i == m.v.size(), "tree-contents", "%s: iteration ended after %zu of %zu entries", when, i, m.v.size());
    i = m.v.size();
    for (auto it = ct.end(); it != ct.begin();) {
        --it; SIM_CHECK(i > 0, "tree-contents", "%s: more entries backwards than expected", when); --i;
        SIM_CHECK(VA::key(*it) == m.v[i].key, "tree-contents", "%s: backwards entry %zu is %d, expected %d", when, i, VA::key(*it), m.v[i].key);
    }
    SIM_CHECK(i == 0, "tree-contents", "%s: backwards iteration stopped %zu entries early", when, i);
    i = m.v.size();
    for (auto it = ct.rbegin(); it != ct.rend(); ++it) { SIM_CHECK(i > 0, "tree-contents", "%s: more entries in reverse than expected", when); --i; SIM_CHECK(VA::key(*it) == m.v[i].key, "tree-contents", "%s: entry %zu is %d in reverse, expected %d", when, i, VA::key(*it), m.v[i].key); }
    SIM_CHECK(i == 0, "tree-contents", "%s: reverse iteration stopped %zu entries early", when, i);
}
// A comparator and an allocator with a state of their own: what one tree took
// from its arena goes back to that arena, also after copies, moves and swaps.
struct Dir { bool down; Dir(bool d = false) : down(d) {} bool operator()(int a, int b) const { return down ? b < a : a < b; } };
struct Arenas { enum { N = 16 }; long open[N]; int next; std::map<void*, int> of; };
static Arenas* g_arenas;
template<typename T> struct ArenaAlloc {
    typedef T value_type; int id;
    ArenaAlloc() : id(g_arenas->next++ % Arenas::N) {}
    explicit ArenaAlloc(int id) : id(id) {}
    template<typename U> ArenaAlloc(const ArenaAlloc<U>& r) : id(r.id) {}
    T* allocate(size_t n) { T* p = (T*)malloc(n * sizeof(T)); g_arenas->open[id]++; g_arenas->of[p] = id; return p; }
    void deallocate(T* p, size_t) {
        auto it = g_arenas->of.find(p);
        SIM_CHECK(it != g_arenas->of.end(), "foreign-block", "a block is given back that no arena handed out");
        SIM_CHECK(it->second == id, "wrong-arena", "a block of arena %d is given back to arena %d", it->second, id);
        g_arenas->of.erase(it); g_arenas->open[id]--; free(p);
    }
    template<typename U, typename... P> void construct(U* p, P&&... a) { ::new ((void*)p) U(std::forward<P>(a)...); }
    template<typename U> void destroy(U* p) { p->~U(); }
    bool operator==(const ArenaAlloc& r) const { return id == r.id; } bool operator!=(const ArenaAlloc& r) const { return id != r.id; }
    template<typename U> struct rebind { typedef ArenaAlloc<U> other; };
};
template<typename F> static void with_arenas(F f) { Arenas a{}; g_arenas = &a; f(); for (int i = 0; i < Arenas::N; i++) SIM_CHECK(a.open[i] == 0, "arena-leak", "arena %d still has %ld blocks out", i, a.open[i]); g_arenas = nullptr; }

template<typename Tree> static int depth_of(typename Tree::const_iterator it, typename Tree::const_iterator end) {
    // iterative depth measure over the public navigation of the nodes
    std::vector<std::pair<typename Tree::const_iterator, int>> st; int best = 0;
    if (it == end) return 0;
    st.push_back({it, 1});
    while (!st.empty()) {
        auto p = st.back(); st.pop_back(); if (p.second > best) best = p.second;
        if (p.first.left() != end) st.push_back({p.first.left(), p.second + 1});
        if (p.first.right() != end) st.push_back({p.first.right(), p.second + 1});
    }
    return best;
}

template<typename Tree, typename It> static size_t index_of(const Tree& t, It x) { size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) if (it == typename Tree::const_iterator(x)) return i; return i; }

template<typename Tree, typename MK>
static void drive_tree(int dup, bool desc, MK mk, bool many, bool mixed = false) {
    typedef typename Tree::value_type T; typedef Val<T> VA;
    int64_t live0 = Elem::live; uint64_t blocks0;
    { 
        int n_trees = many ? 2 + choose(2) : 1 + choose(2);
        blocks0 = live_blocks();
        {
        std::vector<std::unique_ptr<Tree>> t; std::vector<Model> m;
        // mixed: the trees of one type order their entries differently
        for (int i = 0; i < n_trees; i++) { bool down = mixed ? choose(2) != 0 : desc; if (mixed) log("t%d %s", i, down ? "descends" : "ascends"); t.emplace_back(mk(down)); m.push_back(Model{{}, dup, down}); }
        int ops = 4 + small(many ? 60 : 120), range_k = choose(3) ? 1 + choose(12) : 200, next_id = 1;
        for (int op = 0; op < ops; op++) {
            int w = choose(n_trees); Tree& a = *t[w]; Model& ma = m[w];
            int k = (int)choose(range_k), kind = choose(many ? 22 : 16);
            int cnt = dup == bdh::COUNT ? 1 + choose(3) : 1;
            switch (kind) {
                default: {
                    log("t%d insert %d x%d", w, k, cnt);
                    int id = next_id++;
                    auto it = a.insert(VA::make(k, id), cnt); size_t j = ma.insert(k, id, cnt);
                    SIM_CHECK(VA::key(*it) == k && it.count() == ma.v[j].cnt && index_of(a, it) == j, "tree-insert-result", "insert(%d) returned a wrong position", k);
                    break;
                }
                case 6: case 7: {
                    int c = choose(3) && dup == bdh::COUNT ? 1 + choose(4) : INT_MAX;
                    log("t%d erase key %d x%d", w, k, c);
                    if (c == INT_MAX) a.erase(k); else a.erase(k, c);
                    size_t l = ma.lower(k), u = ma.upper(k);
                    if (l < u) { if (dup == bdh::STORE) ma.v.erase(ma.v.begin() + l, ma.v.begin() + u); else ma.erase_at(l, c); }
                    break;
                }
                case 8: {
                    if (ma.v.empty()) break;
                    size_t i = choose((uint32_t)ma.v.size()); int c = dup == bdh::COUNT && choose(2) ? 1 + choose(4) : INT_MAX;
                    log("t%d erase at %zu x%d", w, i, c);
                    auto it = a.begin(); for (size_t q = 0; q < i; q++) ++it;
                    if (c == INT_MAX) a.erase(it); else a.erase(it, c);
                    ma.erase_at(i, c);
                    break;
                }
                case 9: {
                    size_t i = choose((uint32_t)ma.v.size() + 1), j = i + choose((uint32_t)(ma.v.size() - i) + 1);
                    log("t%d erase range %zu..%zu", w, i, j);
                    auto b = a.begin(); for (size_t q = 0; q < i; q++) ++b; auto e = b; for (size_t q = i; q < j; q++) ++e;
                    if (dup == bdh::COUNT && choose(3) == 2) {
                        int c = 1 + choose(4); log("of each at most %d", c); a.erase(b, e, c);
                        for (size_t q = j; q-- > i;) ma.erase_at(q, c);
                    } else { a.erase(b, e); ma.v.erase(ma.v.begin() + i, ma.v.begin() + j); }
                    break;
                }
                case 10: {
                    if (dup != bdh::STORE) { // a new key, put where it belongs
                        size_t l = ma.lower(k); if (l != ma.upper(k)) break;
                        int id = next_id++; bool given = choose(2) != 0; log("t%d insert_before %zu %d x%d", w, l, k, given ? cnt : 1);
                        auto it = a.begin(); for (size_t q = 0; q < l; q++) ++it;
                        auto r = given ? a.insert_before(it, VA::make(k, id), cnt) : a.insert_before(it, VA::make(k, id)); ma.insert(k, id, given ? cnt : 1);
                        SIM_CHECK(index_of(a, r) == l && r.count() == ma.v[l].cnt, "tree-insert-result", "insert_before returned a wrong position");
                        break;
                    }
                    if (ma.v.empty()) break;
                    size_t i = choose((uint32_t)ma.v.size()); int id = next_id++;
                    log("t%d insert_before %zu", w, i);
                    auto it = a.begin(); for (size_t q = 0; q < i; q++) ++it;
                    int kk = ma.v[i].key;
                    auto r = a.insert_before(it, VA::make(kk, id)); ma.v.insert(ma.v.begin() + i, Ent{kk, id, 1});
                    SIM_CHECK(index_of(a, r) == i, "tree-insert-result", "insert_before returned a wrong position");
                    break;
                }
                case 11: case 12: {
                    const Tree& c = a; size_t l = ma.lower(k), u = ma.upper(k);
                    int less = 0, leq = 0; for (size_t q = 0; q < u; q++) { if (q < l) less += ma.v[q].cnt; leq += ma.v[q].cnt; }
                    log("t%d query %d", w, k);
                    SIM_CHECK(index_of(c, c.lower_bound(k)) == l && index_of(a, a.lower_bound(k)) == l, "tree-query", "lower_bound(%d) is wrong", k);
                    SIM_CHECK(index_of(c, c.upper_bound(k)) == u && index_of(a, a.upper_bound(k)) == u, "tree-query", "upper_bound(%d) is wrong", k);
                    auto er = c.equal_range(k); SIM_CHECK(index_of(c, er.first) == l && index_of(c, er.second) == u, "tree-query", "equal_range(%d) is wrong", k);
                    auto f = c.find(k); size_t fi = index_of(c, f);
                    SIM_CHECK(l < u ? fi == l : f == c.end(), "tree-query", "find(%d) is wrong", k);
                    SIM_CHECK(c.count(k) == leq - less, "tree-query", "count(%d) is %d, expected %d", k, c.count(k), leq - less);
                    SIM_CHECK(c.count_less(k) == less, "tree-query", "count_less(%d) is %d, expected %d", k, c.count_less(k), less);
                    SIM_CHECK(c.count_less_or_equal(k) == leq, "tree-query", "count_less_or_equal(%d) is %d, expected %d", k, c.count_less_or_equal(k), leq);
                    break;
                }
                case 13: case 14: {
                    int s = ma.size(); int p = choose(s + 1); size_t j = 0; int acc = 0;
                    while (j < ma.v.size() && acc + ma.v[j].cnt <= p) acc += ma.v[j++].cnt;
                    log("t%d kth %d", w, p);
                    auto it = a.find_kth(p);
                    SIM_CHECK(index_of(a, it) == j, "tree-kth", "find_kth(%d) is wrong", p);
                    if (dup != bdh::COUNT) {
                        SIM_CHECK(it.pos() == p, "tree-kth", "pos() is %d, expected %d", it.pos(), p);
                        int q = choose(s + 1); auto it2 = it.add(q - p);
                        SIM_CHECK(index_of(a, it2) == (size_t)q, "tree-kth", "position %d moved by %d is wrong", p, q - p);
                    }
                    break;
                }
                case 15: {
                    int o = choose(n_trees); const Tree &x = a, &y = *t[o]; if (ma.desc != m[o].desc) break; log("compare t%d t%d", w, o);
                    // lexicographic by keys, entry by entry
                    int r = 0; size_t i = 0; const auto& p = ma.v; const auto& q = m[o].v;
                    for (; i < p.size() && i < q.size() && !r; i++) { if (ma.lt(p[i].key, q[i].key)) r = -1; else if (ma.lt(q[i].key, p[i].key)) r = 1; }
                    if (!r) r = p.size() < q.size() ? -1 : p.size() > q.size() ? 1 : 0;
                    SIM_CHECK((x == y) == (r == 0) && (x != y) == (r != 0) && (x < y) == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0), "tree-compare", "comparison result is wrong (expected order %d)", r);
                    break;
                }
                case 16: {
                    if (mixed || choose(2)) { log("t%d clear", w); a.clear(); ma.v.clear(); break; }
                    std::vector<T> list; int q = choose(20); ma.v.clear(); log("t%d made from %d values", w, q);
                    if (q < 16) { for (; q > 0; q--) { int kk = choose(range_k), id = next_id++; list.push_back(VA::make(kk, id)); ma.insert(kk, id, 1); } a = Tree(list.begin(), list.end()); }
                    else { int i1 = next_id++, i2 = next_id++, i3 = next_id++, k2 = choose(range_k), k3 = choose(range_k); a = Tree{VA::make(k, i1), VA::make(k2, i2), VA::make(k3, i3)}; ma.insert(k, i1, 1); ma.insert(k2, i2, 1); ma.insert(k3, i3, 1); }
                    break;
                }
                case 17: { int o = choose(n_trees); log("t%d = copy of t%d", w, o); a = *t[o]; { auto v = m[o].v; ma.v = v; ma.desc = m[o].desc; } break; }
                case 18: { int o = choose(n_trees); log("t%d swap t%d", w, o); a.swap(*t[o]); std::swap(ma.v, m[o].v); std::swap(ma.desc, m[o].desc); break; }
                case 19: { int o = choose(n_trees); log("t%d copy constructed from t%d", w, o); Tree* c = new Tree(*t[o]); auto v = m[o].v; t[w].reset(c); m[w].v = v; m[w].desc = m[o].desc; break; }
                case 20: { // move construction; the moved-from object stays valid and is then reused
                    int o = choose(n_trees); if (o == w) break; log("t%d move constructed from t%d", w, o);
                    Tree* c = new Tree(std::move(*t[o])); t[w].reset(c); m[w].v = m[o].v; m[w].desc = m[o].desc;
                    t[o]->clear(); m[o].v.clear(); if (mixed) *t[o] = *std::unique_ptr<Tree>(mk(m[o].desc)); break; }
                case 21: { int o = choose(n_trees); if (o == w) break; log("t%d move assigned from t%d", w, o); a = std::move(*t[o]); ma.v = m[o].v; ma.desc = m[o].desc; t[o]->clear(); m[o].v.clear(); if (mixed) *t[o] = *std::unique_ptr<Tree>(mk(m[o].desc)); break; }
            }
            if (many || choose(3) == 0 || op + 1 == ops) for (int i = 0; i < n_trees; i++) check_tree(*t[i], m[i], "after the operation");
            uint64_t h = 7; for (auto& e : ma.v) h = mix(h, e.key * 31 + e.cnt); state(h);
            if (std::is_same<T, Elem>::value) { int64_t want = live0; for (auto& x : m) want += (int64_t)x.v.size(); SIM_CHECK(Elem::live == want, "element-leak", "%lld elements alive, the containers hold %lld", (long long)(Elem::live - live0), (long long)(want - live0)); }
        }
        }
    }
    SIM_CHECK(Elem::live == live0, "element-leak", "%lld elements never destroyed", (long long)(Elem::live - live0));
    SIM_CHECK(live_blocks() == blocks0, "memory-leak", "%lld allocations never released", (long long)(live_blocks() - blocks0));
}

#ifdef P_D01
template<int DUP> using treap_i = treap<int, int, DUP>;
template<int DUP> using treap_p = treap<int, std::pair<const int, int>, DUP>;
SIM_SCENARIO(D01, treap_set, 3) {
    setup_prio(); int d = choose(3); log("duplicates mode %d", d);
    if (d == 0) drive_tree<treap_i<bdh::IGNORE>>(bdh::IGNORE, false, [](bool) { return new treap_i<bdh::IGNORE>(std::less<int>(), draw_prio); }, choose(2));
    else if (d == 1) drive_tree<treap_i<bdh::COUNT>>(bdh::COUNT, false, [](bool) { return new treap_i<bdh::COUNT>(std::less<int>(), draw_prio); }, choose(2));
    else drive_tree<treap_i<bdh::STORE>>(bdh::STORE, false, [](bool) { return new treap_i<bdh::STORE>(std::less<int>(), draw_prio); }, choose(2));
}
SIM_SCENARIO(D01, treap_map, 3) {
    setup_prio(); int d = choose(3); log("duplicates mode %d", d);
    if (d == 0) drive_tree<treap_p<bdh::IGNORE>>(bdh::IGNORE, false, [](bool) { return new treap_p<bdh::IGNORE>(std::less<int>(), draw_prio); }, choose(2));
    else if (d == 1) drive_tree<treap_p<bdh::COUNT>>(bdh::COUNT, false, [](bool) { return new treap_p<bdh::COUNT>(std::less<int>(), draw_prio); }, choose(2));
    else drive_tree<treap_p<bdh::STORE>>(bdh::STORE, false, [](bool) { return new treap_p<bdh::STORE>(std::less<int>(), draw_prio); }, choose(2));
}
SIM_SCENARIO(D01, treap_greater, 1) {
    setup_prio(); typedef treap<int, int, bdh::STORE, std::greater<int>> T;
    drive_tree<T>(bdh::STORE, true, [](bool) { return new T(std::greater<int>(), draw_prio); }, choose(2));
}
SIM_SCENARIO(D01, plain_bst, 1) {
    int d = choose(3); typedef std::pair<const int, int> P;
    if (d == 0) { typedef binary_search_tree<int, P, bdh::IGNORE> T; drive_tree<T>(d, false, [](bool) { return new T(); }, choose(2)); }
    else if (d == 1) { typedef binary_search_tree<int, int, bdh::COUNT> T; drive_tree<T>(d, false, [](bool) { return new T(); }, choose(2)); }
    else { typedef binary_search_tree<int, P, bdh::STORE> T; drive_tree<T>(d, false, [](bool) { return new T(); }, choose(2)); }
}
// trees of one type that order their entries differently and take their nodes from different arenas
SIM_SCENARIO(D01, stateful, 1) {
    setup_prio(); int d = choose(3); typedef ArenaAlloc<bst_node<int>> A;
    with_arenas([&] {
        if (choose(2)) {
            if (d == 0) { typedef treap<int, int, bdh::IGNORE, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
            else if (d == 1) { typedef treap<int, int, bdh::COUNT, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
            else { typedef treap<int, int, bdh::STORE, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
        } else {
            if (d == 0) { typedef binary_search_tree<int, int, bdh::IGNORE, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
            else if (d == 1) { typedef binary_search_tree<int, int, bdh::COUNT, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
            else { typedef binary_search_tree<int, int, bdh::STORE, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
        }
    });
}
// with an ordinary source the depth stays logarithmic, whatever the insertion order
SIM_SCENARIO(D01, treap_depth, 1) {
    g_prio.mode = 0; g_prio.n = 0; typedef treap<int> T; T t(std::less<int>(), draw_prio);
    int order = choose(4), n = 200 + choose(1500); log("order %d, %d keys", order, n);
    for (int i = 0; i < n; i++) t.insert(order == 0 ? i : order == 1 ? -i : order == 2 ? ((i & 1) ? i : -i) : (int)choose(1 << 20));
    if (choose(2)) for (int i = 0; i < n; i += 2) t.erase(order == 1 ? -i : i);
    int d = depth_of<T>(static_cast<const T&>(t).root(), static_cast<const T&>(t).end());
    log("%d keys left", t.size());
    SIM_CHECK(d <= 90, "treap-depth", "depth %d for %d keys", d, t.size());
}

#endif
#ifdef P_D02
// ---------------------------------------------------------------- D02 ropes
template<typename R> static void check_rope(R& r, const std::vector<int>& m, const char* when) {
    const R& c = r;
    SIM_CHECK(c.size() == (int)m.size() && c.empty() == m.empty(), "rope-size", "%s: size %d, expected %zu", when, c.size(), m.size());
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) { SIM_CHECK(i < m.size() && *it == m[i], "rope-contents", "%s: element %zu is wrong", when, i); }
    SIM_CHECK(i == m.size(), "rope-contents", "%s: iteration ended after %zu of %zu", when, i, m.size());
    for (auto it = c.end(); it != c.begin();) { --it; SIM_CHECK(i > 0 && *it == m[i - 1], "rope-contents", "%s: backwards element %zu is wrong", when, i - 1); i--; }
    for (i = 0; i < m.size(); i++) SIM_CHECK(c.at((int)i) == m[i] && c[(int)i] == m[i] && r[(int)i] == m[i], "rope-contents", "%s: at(%zu) is wrong", when, i);
}
SIM_SCENARIO(D02, rope, 1) {
    setup_prio(); typedef rope<int> R; uint64_t blocks0 = live_blocks();
    {
    int n_r = 1 + choose(2); std::vector<std::unique_ptr<R>> r; std::vector<std::vector<int>> m(n_r);
    for (int i = 0; i < n_r; i++) {
        if (choose(2)) { std::vector<int> v; int n = small(20); for (int q = 0; q < n; q++) v.push_back(1000 + q); r.emplace_back(new R(v.begin(), v.end(), draw_prio)); m[i] = v; }
        else r.emplace_back(new R(draw_prio));
    }
    int ops = 4 + small(150), next = 1;
    for (int op = 0; op < ops; op++) {
        int w = choose(n_r); R& a = *r[w]; auto& v = m[w]; int n = (int)v.size();
        switch (choose(17)) {
            default: { log("r%d push_back", w); a.push_back(next); v.push_back(next++); break; }
            case 2: case 3: case 4: { int p = choose(n + 1); log("r%d insert %d", w, p); a.insert(p, next); v.insert(v.begin() + p, next++); break; }
            case 5: { int p = choose(n + 1); log("r%d insert it %d", w, p); auto it = a.begin() + p; a.insert(typename R::const_iterator(it), next); v.insert(v.begin() + p, next++); break; }
            case 6: { if (!n) break; int p = choose(n); log("r%d erase %d", w, p); a.erase(p); v.erase(v.begin() + p); break; }
            case 7: { int b = choose(n + 1), e = b + choose(n - b + 1); if (e - b > 6) e = b + 6; log("r%d erase %d..%d", w, b, e); a.erase(b, e); v.erase(v.begin() + b, v.begin() + e); break; }
            case 8: { if (!n) break; int p = choose(n); log("r%d set %d", w, p); if (choose(2)) a[p] = next; else a.at(p) = next; v[p] = next++; break; }
            case 9: case 10: {
                int p = choose(n + 1), q = choose(n + 1); log("r%d iterators %d %d", w, p, q);
                auto x = a.begin() + p, y = a.end() - (n - q); typename R::const_iterator cx = x, cy = y;
                SIM_CHECK(y - x == q - p && (x < y) == (p < q) && (x == y) == (p == q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q) && x.pos() == p, "rope-iterator", "iterator arithmetic between %d and %d is wrong", p, q);
                SIM_CHECK(cy - cx == q - p && (cx < cy) == (p < q) && cx + (q - p) == cy && cy - (q - p) == cx, "rope-iterator", "const iterator arithmetic between %d and %d is wrong", p, q);
                if (q < n) SIM_CHECK(x[q - p] == v[q] && cx[q - p] == v[q] && *y == v[q], "rope-iterator", "element through an iterator is wrong");
                break; }
            case 11: { int o = choose(n_r); log("compare r%d r%d", w, o); const R &x = a, &y = *r[o]; bool eq = v == m[o], lt = v < m[o];
                SIM_CHECK((x == y) == eq && (x != y) == !eq && (x < y) == lt && (x >= y) == !lt && (x > y) == (m[o] < v) && (x <= y) == !(m[o] < v), "rope-compare", "comparison is wrong"); break; }
            case 12: { int o = choose(n_r); log("r%d = r%d", w, o); a = *r[o]; auto c = m[o]; v = c; break; }
            case 13: { int o = choose(n_r); log("swap r%d r%d", w, o); a.swap(*r[o]); std::swap(v, m[o]); break; }
            case 14: if (choose(3) == 0) { log("r%d clear", w); a.clear(); v.clear(); } break;
            case 15: { int o = choose(n_r); if (o == w) break; log("r%d moved from r%d", w, o); if (choose(2)) { R* c = new R(std::move(*r[o])); r[w].reset(c); } else a = std::move(*r[o]); m[w] = m[o]; r[o]->clear(); m[o].clear(); break; }
            case 16: { int o = choose(n_r); log("r%d cloned from r%d", w, o); R* c = new R(*r[o]); auto cv = m[o]; r[w].reset(c); m[w] = cv; break; }
        }
        if (choose(4) == 0 || op + 1 == ops) for (int i = 0; i < n_r; i++) check_rope(*r[i], m[i], "after the operation");
        uint64_t h = 3; for (int x : m[w]) h = mix(h, x); state(h);
    }
    }
    SIM_CHECK(live_blocks() == blocks0, "memory-leak", "%lld allocations never released", (long long)(live_blocks() - blocks0));
}

#endif
// ---------------------------------------------------------------- D03 failures
template<typename C, typename MV> static void same(C& c, const MV& m, const char* when) {
    NoFault nf; typedef Val<typename C::value_type> VA; size_t i = 0;
    int sz = 0; for (auto& e : m) sz += e.cnt;
    SIM_CHECK(c.size() == sz, "after-failure", "%s: size %d, expected %d", when, c.size(), sz);
    for (auto it = c.begin(); it != c.end(); ++it, ++i) SIM_CHECK(i < m.size() && VA::key(*it) == m[i].key, "after-failure", "%s: entry %zu is wrong", when, i);
    SIM_CHECK(i == m.size(), "after-failure", "%s: only %zu of %zu entries are left", when, i, m.size());
}
template<typename C, typename MV> static bool is_same_contents(C& c, const MV& m) {
    NoFault nf; typedef Val<typename C::value_type> VA; size_t i = 0; int sz = 0; for (auto& e : m) sz += e.cnt;
    if (c.size() != sz) return false;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) if (i >= m.size() || VA::key(*it) != m[i].key) return false;
    return i == m.size();
}
static uint64_t g_pending;   // fault armed for the next attempt() only
template<typename F> static bool attempt(F f) {   // true if it threw
    bool t = false;
    fp_arm(g_pending); g_pending = 0;
    try { f(); } catch (const std::bad_alloc&) { t = true; } catch (const SimFault&) { t = true; }
    bool fired = fp_disarm();
    if (fired && !t) fail("failure-swallowed", "the operation failed inside but the caller was not told");
    if (!fired && t) fail("failure-invented", "the operation threw although nothing failed");
    log(t ? "  -> failed" : "  -> ok");
    return t;
}
static void maybe_arm(uint32_t max) { g_pending = choose(3) ? 1 + choose(max) : 0; }

template<typename Tree, typename MK> static void fault_tree(int dup, MK mk) {
    int64_t live0 = Elem::live; uint64_t blocks0 = live_blocks();
    {
        typedef std::unique_ptr<Tree> TP; int nt = 2; std::vector<TP> t; std::vector<Model> m;
        for (int i = 0; i < nt; i++) { t.emplace_back(mk(false)); m.push_back(Model{{}, dup, false}); }
        int ops = 3 + small(50), rk = 1 + choose(10);
        for (int op = 0; op < ops; op++) {
            int w = choose(nt); Tree& a = *t[w]; Model& ma = m[w]; Elem key((int)choose(rk)); int k = key.v, cnt = dup == bdh::COUNT ? 1 + choose(3) : 1;
            auto before = ma.v;
            switch (choose(14)) {
                default: { log("t%d insert %d", w, k); maybe_arm(14); bool f = attempt([&] { a.insert(key, cnt); }); if (!f) ma.insert(k, 0, cnt); break; }
                case 5: { log("t%d erase %d", w, k); maybe_arm(14); bool f = attempt([&] { a.erase(key); }); if (!f) { size_t l = ma.lower(k), u = ma.upper(k); ma.v.erase(ma.v.begin() + l, ma.v.begin() + u); } break; }
                case 6: { log("t%d find %d", w, k); size_t l = ma.lower(k); maybe_arm(14); bool ok = true; attempt([&] { auto it = a.lower_bound(key); auto f = static_cast<const Tree&>(a).find(key); NoFault nf; ok = index_of(a, it) == l; (void)f; }); SIM_CHECK(ok, "tree-query", "lower_bound(%d) is wrong", k); break; }
                case 7: { int o = choose(nt); log("t%d = t%d", w, o); maybe_arm(30); auto nv = m[o].v; bool f = attempt([&] { a = *t[o]; });
                    if (!f) ma.v = nv; else if (is_same_contents(a, nv)) ma.v = nv; break; }
                case 8: { int o = choose(nt); log("t%d rebuilt as a copy of t%d", w, o); maybe_arm(30); Tree* c = nullptr; bool f = attempt([&] { c = new Tree(*t[o]); }); if (!f) { auto nv = m[o].v; t[w].reset(c); m[w].v = nv; } break; }
                case 9: { int o = choose(nt); if (o == w) break; log("t%d move constructed from t%d", w, o); maybe_arm(4); Tree* c = nullptr; bool f = attempt([&] { c = new Tree(std::move(*t[o])); }); if (!f) { t[w].reset(c); m[w].v = m[o].v; t[o]->clear(); m[o].v.clear(); } break; }
                case 10: { // bulk construction
                    std::vector<Elem> v; int n = small(12); v.reserve(n + 1); for (int q = 0; q < n; q++) v.emplace_back((int)choose(rk));
                    log("t%d bulk of %d", w, n); maybe_arm(40); Tree* c = nullptr; bool f = attempt([&] { c = new Tree(v.begin(), v.end()); }); if (!f) { t[w].reset(c); m[w].v.clear(); for (auto& e : v) m[w].insert(e.v, 0, 1); } break; }
                case 11: { log("t%d clear", w); maybe_arm(2); attempt([&] { a.clear(); }); ma.v.clear(); break; }
                case 12: { int o = choose(nt); log("swap t%d t%d", w, o); maybe_arm(2); bool f = attempt([&] { a.swap(*t[o]); }); if (!f) std::swap(ma.v, m[o].v); break; }
                case 13: { log("t%d erase all %d through iterators", w, k); maybe_arm(14); size_t l = ma.lower(k), u = ma.upper(k); bool f = attempt([&] { auto r = a.equal_range(key); a.erase(r.first, r.second); }); if (!f) ma.v.erase(ma.v.begin() + l, ma.v.begin() + u); break; }
            }
            { NoFault nf; for (int i = 0; i < nt; i++) same(*t[i], m[i].v, "after the operation"); }
            int64_t want = live0 + 1; for (auto& x : m) want += (int64_t)x.v.size();
            SIM_CHECK(Elem::live == want, "element-leak", "%lld elements alive, the containers hold %lld", (long long)(Elem::live - live0 - 1), (long long)(want - live0 - 1));
            uint64_t h = 5; for (auto& e : ma.v) h = mix(h, e.key * 8 + e.cnt); state(mix(h, fp_fired()));
        }
    }
    SIM_CHECK(Elem::live == live0, "element-leak", "%lld elements never destroyed", (long long)(Elem::live - live0));
    SIM_CHECK(live_blocks() == blocks0, "memory-leak", "%lld allocations never released", (long long)(live_blocks() - blocks0));
}
#if defined P_D03 || defined P_C08
SIM_SCENARIO(D03, bst, 2) {
    int d = choose(3);
    if (d == 0) { typedef binary_search_tree<Elem, Elem, bdh::IGNORE> T; fault_tree<T>(d, [](bool) { return new T(); }); }
    else if (d == 1) { typedef binary_search_tree<Elem, Elem, bdh::COUNT> T; fault_tree<T>(d, [](bool) { return new T(); }); }
    else { typedef binary_search_tree<Elem, Elem, bdh::STORE> T; fault_tree<T>(d, [](bool) { return new T(); }); }
}
SIM_SCENARIO(D03, treap, 2) {
    g_prio.mode = 0; int d = choose(3);
    if (d == 0) { typedef treap<Elem, Elem, bdh::IGNORE> T; fault_tree<T>(d, [](bool) { return new T(std::less<Elem>(), draw_prio); }); }
    else if (d == 1) { typedef treap<Elem, Elem, bdh::COUNT> T; fault_tree<T>(d, [](bool) { return new T(std::less<Elem>(), draw_prio); }); }
    else { typedef treap<Elem, Elem, bdh::STORE> T; fault_tree<T>(d, [](bool) { return new T(std::less<Elem>(), draw_prio); }); }
}
#endif
static void rope_life(bool faults) {
    g_prio.mode = 0; typedef rope<Elem> R; int64_t live0 = Elem::live; uint64_t blocks0 = live_blocks();
    {
        int n_r = 2; std::vector<std::unique_ptr<R>> r; std::vector<std::vector<int>> m(n_r);
        for (int i = 0; i < n_r; i++) r.emplace_back(new R(draw_prio));
        int ops = 3 + small(60), next = 1;
        auto arm = [&](int n) { if (faults) maybe_arm(n); else g_pending = 0; };
        for (int op = 0; op < ops; op++) {
            int w = choose(n_r); R& a = *r[w]; auto& v = m[w]; int n = (int)v.size(); Elem e(next);
            switch (choose(12)) {
                default: { int p = choose(n + 1); log("r%d insert %d", w, p); arm(4); if (!attempt([&] { a.insert(p, e); })) v.insert(v.begin() + p, next++); break; }
                case 4: { log("r%d push_back", w); arm(4); if (!attempt([&] { a.push_back(e); })) v.push_back(next++); break; }
                case 5: { int b = choose(n + 1), q = b + choose(n - b + 1); log("r%d erase %d..%d", w, b, q); arm(4); if (!attempt([&] { a.erase(b, q); })) v.erase(v.begin() + b, v.begin() + q); break; }
                case 6: { int o = choose(n_r); log("r%d = r%d", w, o); auto nv = m[o]; arm(24); if (!attempt([&] { a = *r[o]; })) v = nv; else { NoFault nf; if (a.size() == (int)nv.size() && nv != v) { bool eq = true; for (size_t i = 0; i < nv.size(); i++) eq &= a.at((int)i).v == nv[i]; if (eq) v = nv; } } break; }
                case 7: { int o = choose(n_r); log("r%d cloned from r%d", w, o); R* c = nullptr; arm(24); if (!attempt([&] { c = new R(*r[o]); })) { auto nv = m[o]; r[w].reset(c); m[w] = nv; } break; }
                case 8: { log("r%d clear", w); arm(2); attempt([&] { a.clear(); }); v.clear(); break; }
                case 9: { int o = choose(n_r); log("swap r%d r%d", w, o); arm(2); if (!attempt([&] { a.swap(*r[o]); })) std::swap(v, m[o]); break; }
                case 10: { if (!n) break; int p = choose(n); log("r%d set %d", w, p); arm(2); if (!attempt([&] { a[p] = e; })) v[p] = next++; break; }
                case 11: { std::vector<Elem> src; int c2 = small(10); src.reserve(c2 + 1); for (int q = 0; q < c2; q++) src.emplace_back(next + q); log("r%d bulk of %d", w, c2); R* c = nullptr; arm(24); if (!attempt([&] { c = new R(src.begin(), src.end(), draw_prio); })) { r[w].reset(c); m[w].clear(); for (int q = 0; q < c2; q++) m[w].push_back(next + q); next += c2; } break; }
            }
            NoFault nf; int64_t want = live0 + 1;
            for (int i = 0; i < n_r; i++) {
                const R& c = *r[i]; SIM_CHECK(c.size() == (int)m[i].size(), "after-failure", "rope %d has %d elements, expected %zu", i, c.size(), m[i].size());
                size_t q = 0; for (auto it = c.begin(); it != c.end(); ++it, ++q) SIM_CHECK(q < m[i].size() && (*it).get() == m[i][q], "after-failure", "rope %d element %zu is wrong", i, q);
                want += (int64_t)m[i].size();
            }
            SIM_CHECK(Elem::live == want, "element-leak", "%lld elements alive, the ropes hold %lld", (long long)(Elem::live - live0 - 1), (long long)(want - live0 - 1));
            uint64_t h = 9; for (int x : m[w]) h = mix(h, x); state(mix(h, fp_fired()));
        }
    }
    SIM_CHECK(Elem::live == live0, "element-leak", "%lld elements never destroyed", (long long)(Elem::live - live0));
    SIM_CHECK(live_blocks() == blocks0, "memory-leak", "%lld allocations never released", (long long)(live_blocks() - blocks0));
}
#if defined P_D03 || defined P_C08
SIM_SCENARIO(D03, rope, 2) { rope_life(true); }

#endif
#ifdef P_D04
// ---------------------------------------------------------------- D04 lifetimes
SIM_SCENARIO(D04, bst, 2) {
    fp_arm(0); int d = choose(3);
    if (d == 0) { typedef binary_search_tree<Elem, Elem, bdh::IGNORE> T; drive_tree<T>(d, false, [](bool) { return new T(); }, true); }
    else if (d == 1) { typedef binary_search_tree<Elem, Elem, bdh::COUNT> T; drive_tree<T>(d, false, [](bool) { return new T(); }, true); }
    else { typedef binary_search_tree<Elem, Elem, bdh::STORE> T; drive_tree<T>(d, false, [](bool) { return new T(); }, true); }
}
SIM_SCENARIO(D04, treap, 2) {
    fp_arm(0); setup_prio(); int d = choose(3);
    if (d == 0) { typedef treap<Elem, Elem, bdh::IGNORE> T; drive_tree<T>(d, false, [](bool) { return new T(std::less<Elem>(), draw_prio); }, true); }
    else if (d == 1) { typedef treap<Elem, Elem, bdh::COUNT> T; drive_tree<T>(d, false, [](bool) { return new T(std::less<Elem>(), draw_prio); }, true); }
    else { typedef treap<Elem, Elem, bdh::STORE> T; drive_tree<T>(d, false, [](bool) { return new T(std::less<Elem>(), draw_prio); }, true); }
}
// trees of one type that order their entries differently and take their nodes from different arenas
SIM_SCENARIO(D04, stateful, 1) {
    setup_prio(); int d = choose(3); typedef ArenaAlloc<bst_node<int>> A;
    with_arenas([&] {
        if (choose(2)) {
            if (d == 0) { typedef treap<int, int, bdh::IGNORE, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
            else if (d == 1) { typedef treap<int, int, bdh::COUNT, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
            else { typedef treap<int, int, bdh::STORE, Dir, std::function<int()>, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), draw_prio, A()); }, true, true); }
        } else {
            if (d == 0) { typedef binary_search_tree<int, int, bdh::IGNORE, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
            else if (d == 1) { typedef binary_search_tree<int, int, bdh::COUNT, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
            else { typedef binary_search_tree<int, int, bdh::STORE, Dir, A> T; drive_tree<T>(d, false, [](bool down) { return new T(Dir(down), A()); }, true, true); }
        }
    });
}
SIM_SCENARIO(D04, rope, 2) { rope_life(false); }
#endif
