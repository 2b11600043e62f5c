// D11: graph computations with allocations, weight operations and visitors
// failing inside. A failed computation must leave the graph and everything else
// it was given as it was, leak nothing, and give the right answer when it is
// made again, also on the same solver object; answers are compared with direct
// exhaustive computation on a plain model of the graph.
#include "../sim/env.h"
#include <limits.h>
#include <string.h>
#include <algorithm>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#ifndef NESTED
namespace altruct { namespace graph { using std::max; using std::min; } }   // hungarian.h expects them in scope
#endif
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
#include "altruct/algorithm/graph/hungarian.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/sat2.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
using namespace sim;
namespace ag = altruct::graph; namespace am = altruct::math;

// ---------------------------------------------------------------- weights whose every operation can fail
struct W {
    Elem e; W() : e(0) {} W(int v) : e(v) {} int v() const { return e.get(); }
    W& operator+=(const W& r) { fp_point(FP_USER); e = Elem(v() + r.v()); return *this; } W& operator-=(const W& r) { fp_point(FP_USER); e = Elem(v() - r.v()); return *this; }
    W operator+(const W& r) const { W t(*this); t += r; return t; } W operator-(const W& r) const { W t(*this); t -= r; return t; } W operator-() const { fp_point(FP_USER); return W(-v()); }
    bool operator<(const W& r) const { return e < r.e; } bool operator>(const W& r) const { return r.e < e; } bool operator==(const W& r) const { return e == r.e; } bool operator!=(const W& r) const { return !(e == r.e); }
};
typedef ag::weighted_edge<W> WE; typedef std::pair<int, int> II; typedef std::vector<int> IV; typedef std::vector<std::vector<II>> Adj; typedef std::vector<IV> Mat;
static const int INF = 1000000;
static ag::graph<WE> wgraph(const Adj& a) { ag::graph<WE> g((int)a.size()); for (size_t u = 0; u < a.size(); u++) for (auto& e : a[u]) g.add_edge((int)u, WE(e.first, W(e.second))); return g; }
static ag::graph<ag::edge> ugraph(const Adj& a) { ag::graph<ag::edge> g((int)a.size()); for (size_t u = 0; u < a.size(); u++) for (auto& e : a[u]) g.add_edge((int)u, ag::edge(e.first)); return g; }
static Adj read(const ag::graph<WE>& g) { Adj a(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) a[u].push_back(II(e.v, e.w.v())); return a; }
static Adj read(const ag::graph<ag::edge>& g) { Adj a(g.size()); for (int u = 0; u < g.size(); u++) for (auto& e : g[u]) a[u].push_back(II(e.v, 0)); return a; }
static Adj plain(Adj a) { for (auto& l : a) for (auto& e : l) e.second = 0; return a; }
static Adj sorted(Adj a) { for (auto& l : a) std::sort(l.begin(), l.end()); return a; }
static uint64_t hv(const IV& v) { uint64_t h = v.size(); for (int x : v) h = mix(h, (uint64_t)(x + 7)); return h; }
static uint64_t hadj(const Adj& a) { uint64_t h = a.size(); for (auto& l : a) { h = mix(h, l.size() + 99); for (auto& e : l) h = mix(h, (uint64_t)e.first * 4096 + (uint64_t)(e.second + 2000)); } return h; }
static std::string show(const Adj& a) { std::string s; char b[32]; for (size_t u = 0; u < a.size(); u++) for (auto& e : a[u]) { snprintf(b, sizeof b, "%zu>%d:%d ", u, e.first, e.second); s += b; if (s.size() > 300) return s; } return s; }

static void seen_state(uint64_t h) { state(h); log("%016llx", (unsigned long long)h); }
static const int MASKS[] = {FP_ALL, FP_ALL, FP_ALLOC, FP_ALLOC, FP_COPY | FP_USER, FP_USER, FP_CMP, FP_COPY};
static bool run(const char* name, const std::function<void()>& f, bool fault, int bits = 9) {
    bool threw = false; if (fault) { int m = MASKS[choose(8)]; fp_arm(1 + (choose(3) ? choose(1u << (1 + choose(bits))) : choose(6)), m); }
    try { f(); } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
    bool fired = fp_disarm() && fault; log("%s%s", name, threw ? " failed" : ""); if (threw) probe("operation-failed");
    SIM_CHECK(fired == threw, fired ? "swallowed" : "refused", fired ? "%s: a failure did not reach the caller" : "%s: failed without a reason", name); return threw;
}
// Makes the computation, perhaps failing a few times first; `same` looks at what was given to it.
static bool compute(const char* name, const std::function<void()>& f, const std::function<void()>& same, int bits = 9) {
    set_crash_class(name); bool failed = false; int tries = choose(4);
    for (int t = 0; t < tries; t++) { if (!run(name, f, true, bits)) { same(); return failed; } failed = true; same(); }
    run(name, f, false, bits); same(); if (failed) probe("made-again"); return failed;
}
struct Leak { uint64_t lb; int64_t le; Leak() : lb(live_blocks()), le(Elem::live) {} void check() { SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le)); SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb)); } };

// ---------------------------------------------------------------- graphs
enum { DIRECTED, DAG, UNDIRECTED, SIMPLE, FOREST };
static Adj gen(int kind, int maxn, bool negative = false) {
    int n = choose(12) == 0 ? (int)choose(2) : 1 + (int)choose(maxn); Adj a(n); if (!n) return a; int m = kind == FOREST ? n - 1 : (int)choose((uint32_t)(n * (1 + choose(3)) + 1)); int wm = choose(4) ? 12 : 2;
    IV pot(n), ord(n); for (int i = 0; i < n; i++) { pot[i] = negative ? (int)choose(9) : 0; ord[i] = i; } for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[choose(i + 1)]);
    if (kind == FOREST) { int shape = choose(4); for (int i = 1; i < n; i++) { if (choose(14) == 0) continue; int p = shape == 0 ? i - 1 : shape == 1 ? std::max(0, i - 1 - (int)choose(3)) : shape == 2 ? (i - 1) / 2 : (int)choose(i); int u = ord[p], v = ord[i], w = choose(wm); a[u].push_back(II(v, w)); a[v].push_back(II(u, w)); } for (auto& l : a) for (size_t i = l.size(); i-- > 1;) std::swap(l[i], l[choose((uint32_t)i + 1)]); return a; }
    if (kind == SIMPLE && choose(3) == 0) m = m * 2;
    for (int i = 0; i < m; i++) {
        int x = choose(n), y = choose(n), w = choose(wm);
        if (kind == DAG) { if (x == y) continue; if (x > y) std::swap(x, y); a[ord[x]].push_back(II(ord[y], w + pot[ord[x]] - pot[ord[y]])); }
        else if (kind == DIRECTED) a[x].push_back(II(y, w + pot[x] - pot[y]));
        else { if (x == y) continue; if (kind == SIMPLE) { bool has = false; for (auto& e : a[x]) has |= e.first == y; if (has) continue; } a[x].push_back(II(y, w)); a[y].push_back(II(x, w)); }
    }
    return a;
}
static Mat dist_of(const Adj& a) { int n = (int)a.size(); Mat d(n, IV(n, INF)); for (int u = 0; u < n; u++) { d[u][u] = 0; for (auto& e : a[u]) d[u][e.first] = std::min(d[u][e.first], e.second); } for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (d[u][k] < INF && d[k][v] < INF) d[u][v] = std::min(d[u][v], d[u][k] + d[k][v]); return d; }
static Mat reach_of(const Adj& a) { int n = (int)a.size(); Mat r(n, IV(n, 0)); for (int u = 0; u < n; u++) for (auto& e : a[u]) r[u][e.first] = 1; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) r[u][v] |= r[u][k] & r[k][v]; return r; }
static IV comp_of(const Adj& a, int without = -1, II edge = II(-1, -1)) { int n = (int)a.size(); IV c(n, -1); int k = 0; for (int o = 0; o < n; o++) { if (c[o] != -1 || o == without) continue; IV st(1, o); c[o] = k; while (!st.empty()) { int u = st.back(); st.pop_back(); for (auto& e : a[u]) { int v = e.first; if (v == without || c[v] != -1 || (u == edge.first && v == edge.second) || (v == edge.first && u == edge.second)) continue; c[v] = k; st.push_back(v); } } k++; } return c; }
static bool has_edge(const Adj& a, int u, int v, int w) { for (auto& e : a[u]) if (e.first == v && e.second == w) return true; return false; }

static void shortest() {
    bool all = choose(2); Adj a = gen(choose(2) ? DIRECTED : UNDIRECTED, 9, false); if (all) a = gen(DIRECTED, 8, choose(2)); int n = (int)a.size(); if (!n && !all) return; ag::graph<WE> g = wgraph(a); Mat d = dist_of(a);
    auto same = [&]() { SIM_CHECK(read(g) == a, "input-changed", "the graph has changed"); };
    if (!all) {
        int s = choose(n); std::vector<WE> res; compute("dijkstra", [&]() { auto r = ag::dijkstra(g, s, W(INF)); res.swap(r); }, same); SIM_CHECK((int)res.size() == n, "wrong-answer", "dijkstra: %zu results", res.size());
        for (int v = 0; v < n; v++) { int p = res[v].v; SIM_CHECK(res[v].w.v() == d[s][v], "wrong-answer", "dijkstra: distance %d to %d is %d instead of %d in %s", s, v, res[v].w.v(), d[s][v], show(a).c_str()); if (d[s][v] == INF) { SIM_CHECK(p == -1, "wrong-answer", "dijkstra: predecessor of an unreachable node"); continue; } if (v == s) { SIM_CHECK(p == s, "wrong-answer", "dijkstra: predecessor of the source"); continue; }
            SIM_CHECK(p >= 0 && p < n && has_edge(a, p, v, d[s][v] - d[s][p]), "wrong-answer", "dijkstra: %d is no predecessor of %d", p, v); int q = v; for (int i = 0; i <= n && q != s; i++) q = res[q].v; SIM_CHECK(q == s, "wrong-answer", "dijkstra: predecessors of %d form a circle", v); }
    } else {
        std::vector<std::vector<WE>> res; compute("floyd_warshall", [&]() { auto r = ag::floyd_warshall(g, W(INF)); res.swap(r); }, same, 11); SIM_CHECK((int)res.size() == n, "wrong-answer", "floyd_warshall: %zu rows", res.size());
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { int x = res[u][v].v; SIM_CHECK(res[u][v].w.v() == d[u][v], "wrong-answer", "floyd_warshall: distance %d to %d is %d instead of %d in %s", u, v, res[u][v].w.v(), d[u][v], show(a).c_str()); if (u == v) continue; if (d[u][v] == INF) { SIM_CHECK(x == -1, "wrong-answer", "floyd_warshall: a hop towards an unreachable node"); continue; } SIM_CHECK(x >= 0 && x < n && d[x][v] < INF && has_edge(a, u, x, d[u][v] - d[x][v]), "wrong-answer", "floyd_warshall: %d is no hop from %d to %d", x, u, v); }
    }
    seen_state(mix(hadj(a), all));
}
static void spanning() {
    Adj a = gen(UNDIRECTED, 9); int n = (int)a.size(); if (!n) return; if (choose(3) == 0) { int off = 1 + choose(8); for (auto& l : a) for (auto& e : l) e.second -= off; } ag::graph<WE> g = wgraph(a); int root = choose(n); std::vector<WE> res;
    compute("prim_spanning_tree", [&]() { auto r = ag::prim_spanning_tree(g, root, W(INF)); res.swap(r); }, [&]() { SIM_CHECK(read(g) == a, "input-changed", "the graph has changed"); });
    IV comp = comp_of(a), f(n); for (int i = 0; i < n; i++) f[i] = i; std::vector<std::pair<int, II>> es; for (int u = 0; u < n; u++) for (auto& e : a[u]) if (comp[u] == comp[root]) es.push_back({e.second, II(u, e.first)}); std::sort(es.begin(), es.end()); long best = 0, got = 0; std::function<int(int)> find = [&](int x) { return f[x] == x ? x : f[x] = find(f[x]); };
    for (auto& e : es) { int x = find(e.second.first), y = find(e.second.second); if (x != y) { f[x] = y; best += e.first; } }
    for (int v = 0; v < n; v++) { int p = res[v].v; if (comp[v] != comp[root]) { SIM_CHECK(p == -1 && res[v].w.v() == INF, "wrong-answer", "prim: an unreachable node is in the tree"); continue; } if (v == root) { SIM_CHECK(p == root && res[v].w.v() == 0, "wrong-answer", "prim: the root has parent %d at distance %d in %s", p, res[v].w.v(), show(a).c_str()); continue; } SIM_CHECK(p >= 0 && p < n && has_edge(a, p, v, res[v].w.v()), "wrong-answer", "prim: no such edge %d %d", p, v); got += res[v].w.v(); int q = v; for (int i = 0; i <= n && q != root; i++) q = res[q].v; SIM_CHECK(q == root, "wrong-answer", "prim: parents of %d do not lead to the root %d in %s", v, root, show(a).c_str()); }
    SIM_CHECK(got == best, "wrong-answer", "prim: a tree of %ld instead of %ld in %s", got, best, show(a).c_str()); seen_state(mix(hadj(a), root));
}
struct Visit { int r, p, n, d; bool operator==(const Visit& o) const { return r == o.r && p == o.p && n == o.n && d == o.d; } };
static void traversal() {
    Adj a = gen(choose(3), 9); int n = (int)a.size(); ag::graph<WE> g = wgraph(a); ag::graph<ag::edge> h = ugraph(a); int kind = choose(6);
    auto same = [&]() { SIM_CHECK(read(g) == a, "input-changed", "the graph has changed"); SIM_CHECK(read(h) == plain(a), "input-changed", "the graph has changed"); };
    if (kind < 2) {
        int src = n && choose(2) ? (int)choose(n) : -1; uint32_t veto = choose(3) ? 0 : (uint32_t)bits64(); std::vector<Visit> want, got; want.reserve(400); got.reserve(400); IV seen(n, 0); int asks = 0; auto enter = [&](int p, int v) { return !((veto >> ((p + 1) * 5 + v * 3) % 32) & 1) || !veto; };
        std::function<void(int, int, int)> rec = [&](int r, int u, int d) { for (auto& e : a[u]) { int v = e.first; if (seen[v]) continue; want.push_back({r, u, v, d}); if (enter(u, v)) { seen[v] = 1; rec(r, v, d + 1); } } want.push_back({r, u, -1, d}); };
        for (int o = src < 0 ? 0 : src; o < (src < 0 ? n : src + 1); o++) { if (seen[o]) continue; want.push_back({o, -1, o, 0}); if (enter(-1, o)) { seen[o] = 1; rec(o, o, 1); } }
        auto prefix = [&]() { same(); SIM_CHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "wrong-visit", "dfs: visits are not those expected in %s", show(a).c_str()); };
        compute("iterative_dfs", [&]() { got.clear(); asks = 0; ag::iterative_dfs(g, [&](int r, int p, int v, int d) { fp_point(FP_USER); asks++; if (got.size() < 400) got.push_back({r, p, v, d}); return v == -1 ? (asks & 1) != 0 : enter(p, v); }, src); }, prefix);
        SIM_CHECK(got == want, "wrong-visit", "dfs: %zu visits instead of %zu in %s", got.size(), want.size(), show(a).c_str());
        if (kind == 1) { IV par, exp(n, -1); std::fill(seen.begin(), seen.end(), 0); std::function<void(int, int)> r2 = [&](int u, int p) { seen[u] = 1; exp[u] = p; for (auto& e : a[u]) if (!seen[e.first]) r2(e.first, u); }; for (int o = 0; o < n; o++) if (!seen[o]) r2(o, -1); compute("parents", [&]() { auto r = ag::parents(h); par.swap(r); }, same); SIM_CHECK(par == exp, "wrong-answer", "parents in %s", show(a).c_str()); }
    } else if (kind == 2) {
        a = gen(DAG, 9); n = (int)a.size(); g = wgraph(a); h = ugraph(a); IV t, deg; compute("topological_sort", [&]() { auto r = ag::topological_sort(g); t.swap(r); }, same); IV pos(n, -1); SIM_CHECK((int)t.size() == n, "wrong-answer", "topological order of %zu nodes in %s", t.size(), show(a).c_str()); for (int i = 0; i < n; i++) { SIM_CHECK(t[i] >= 0 && t[i] < n && pos[t[i]] < 0, "wrong-answer", "topological order: node %d twice", t[i]); pos[t[i]] = i; } for (int u = 0; u < n; u++) for (auto& e : a[u]) SIM_CHECK(pos[u] < pos[e.first], "wrong-answer", "topological order: %d after %d in %s", u, e.first, show(a).c_str());
        IV want(n, 0); for (auto& l : a) for (auto& e : l) want[e.first]++; compute("in_degrees", [&]() { auto r = ag::in_degrees(h); deg.swap(r); }, same); SIM_CHECK(deg == want, "wrong-answer", "in-degrees");
    } else if (kind == 3) {
        Mat r = reach_of(a); Mat s; compute("tarjan_scc", [&]() { auto x = ag::tarjan_scc(g); s.swap(x); }, same); IV c(n, -1); for (size_t i = 0; i < s.size(); i++) for (int u : s[i]) { SIM_CHECK(u >= 0 && u < n && c[u] < 0, "wrong-answer", "scc: node %d twice", u); c[u] = (int)i; }
        for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { SIM_CHECK(c[u] >= 0, "wrong-answer", "scc: node %d is missing", u); if (u != v) SIM_CHECK((c[u] == c[v]) == (r[u][v] && r[v][u]), "wrong-answer", "scc: nodes %d and %d in %s", u, v, show(a).c_str()); if (r[u][v]) SIM_CHECK(c[u] <= c[v], "wrong-answer", "scc: order of %d and %d", u, v); }
    } else {
        bool red = kind == 5; if (red) { a = gen(DAG, 9); n = (int)a.size(); g = wgraph(a); h = ugraph(a); } Mat r = reach_of(a); Adj want(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { bool in = u != v && r[u][v]; if (red && in) for (int w = 0; w < n; w++) if (w != u && w != v && r[u][w] && r[w][v]) in = false; if (in) want[u].push_back(II(v, 0)); }
        std::unique_ptr<ag::graph<ag::edge>> res; if (red) compute("transitive_reduction", [&]() { auto x = ag::transitive_reduction(g); res.reset(new ag::graph<ag::edge>(x)); }, same); else compute("transitive_closure", [&]() { auto x = ag::transitive_closure(h); res.reset(new ag::graph<ag::edge>(std::move(x))); }, same);
        SIM_CHECK(sorted(read(*res)) == want, "wrong-answer", "%s of %s gave %s", red ? "reduction" : "closure", show(a).c_str(), show(read(*res)).c_str());
    }
    seen_state(mix(hadj(a), kind));
}
static void check_blocks(const Adj& a, const std::vector<ag::full_edge>& ce, const IV& cv, const Mat& bc, const Adj* tree, const IV* idx) {
    int n = (int)a.size(); std::set<II> bridges, gb; IV comp = comp_of(a); int nc = n ? *std::max_element(comp.begin(), comp.end()) + 1 : 0; std::vector<II> es;
    for (int u = 0; u < n; u++) for (auto& e : a[u]) if (u < e.first) { IV c = comp_of(a, -1, II(u, e.first)); if (c[u] != c[e.first]) bridges.insert(II(u, e.first)); else es.push_back(II(u, e.first)); }
    for (auto& e : ce) SIM_CHECK(gb.insert(II(std::min(e.u, e.v), std::max(e.u, e.v))).second, "wrong-answer", "a bridge twice"); SIM_CHECK(gb == bridges, "wrong-answer", "bridges of %s", show(a).c_str());
    std::vector<IV> without; IV cuts; for (int x = 0; x < n; x++) { without.push_back(comp_of(a, x)); int m = 0, old = 0; for (int c : without[x]) m = std::max(m, c + 1); old = nc - (a[x].empty() ? 1 : 0); if (m > old) cuts.push_back(x); } SIM_CHECK(cv == cuts, "wrong-answer", "articulation points of %s", show(a).c_str());
    auto apart = [&](II p, II q) { for (int x = 0; x < n; x++) { int s = p.first == x ? p.second : p.first, t = q.first == x ? q.second : q.first; if (without[x][s] != without[x][t]) return true; } return comp[p.first] != comp[q.first]; };
    std::multiset<std::set<int>> want, got; std::vector<char> used(es.size(), 0); for (size_t i = 0; i < es.size(); i++) { if (used[i]) continue; std::set<int> b; for (size_t j = i; j < es.size(); j++) if (!apart(es[i], es[j])) { used[j] = 1; b.insert(es[j].first); b.insert(es[j].second); } want.insert(b); }
    for (auto& b : bc) { std::set<int> s(b.begin(), b.end()); SIM_CHECK(s.size() == b.size(), "wrong-answer", "a block has a node twice"); got.insert(s); } SIM_CHECK(got == want, "wrong-answer", "blocks of %s", show(a).c_str());
    if (!tree) return; int t = (int)tree->size(); Adj exp(t); IV leaves; for (int u = 0; u < n; u++) if (a[u].size() <= 1) leaves.push_back(u); SIM_CHECK(t == (int)(bc.size() + cuts.size() + leaves.size()), "wrong-answer", "block-cut tree of %d nodes for %s", t, show(a).c_str()); std::set<int> taken;
    for (int u = 0; u < n; u++) { int i = (*idx)[u]; SIM_CHECK(i >= 0 && i < t, "wrong-answer", "block-cut tree: node %d has no place", u); bool cut = std::find(cuts.begin(), cuts.end(), u) != cuts.end(); if (cut || a[u].size() <= 1) { SIM_CHECK(i >= (int)bc.size() && taken.insert(i).second, "wrong-answer", "block-cut tree: place of %d", u); } else SIM_CHECK(i < (int)bc.size() && std::find(bc[i].begin(), bc[i].end(), u) != bc[i].end(), "wrong-answer", "block-cut tree: block of %d", u); }
    for (size_t i = 0; i < bc.size(); i++) for (int u : bc[i]) if ((*idx)[u] != (int)i) { exp[i].push_back(II((*idx)[u], 0)); exp[(*idx)[u]].push_back(II((int)i, 0)); } for (auto& e : bridges) { int x = (*idx)[e.first], y = (*idx)[e.second]; exp[x].push_back(II(y, 0)); exp[y].push_back(II(x, 0)); }
    SIM_CHECK(sorted(*tree) == sorted(exp), "wrong-answer", "block-cut tree of %s is %s", show(a).c_str(), show(*tree).c_str());
}
static void blocks() {
    Adj a = gen(SIMPLE, 9); ag::graph<ag::edge> g = ugraph(a); a = plain(a); auto same = [&]() { SIM_CHECK(read(g) == a, "input-changed", "the graph has changed"); };
    if (choose(2)) { std::unique_ptr<ag::biconnectivity<>> b; compute("biconnectivity", [&]() { b.reset(new ag::biconnectivity<>(g)); }, same); Adj t = read(b->block_cut_tree); check_blocks(a, b->cut_edges, b->cut_vertices, b->components, &t, &b->bc_tree_idx); }
    else { ag::chain_decomposition_t d, d0; std::vector<ag::full_edge> ce, ce0; IV cv, cv0; Mat bc; compute("chain_decomposition", [&]() { auto r = ag::chain_decomposition(g); d.swap(r); }, same); d0 = d; compute("cut_edges", [&]() { auto r = ag::cut_edges(g, d); ce.swap(r); }, [&]() { same(); SIM_CHECK(d == d0, "input-changed", "the chains have changed"); }); ce0 = ce;
        compute("cut_vertices", [&]() { auto r = ag::cut_vertices(g, d, ce); cv.swap(r); }, [&]() { same(); SIM_CHECK(d == d0 && ce == ce0, "input-changed", "the chains or bridges have changed"); }); compute("biconnected_components", [&]() { auto r = ag::biconnected_components(g, d); bc.swap(r); }, [&]() { same(); SIM_CHECK(d == d0, "input-changed", "the chains have changed"); }); check_blocks(a, ce, cv, bc, nullptr, nullptr);
        IV comp = comp_of(a); int nc = 0; for (int c : comp) nc = std::max(nc, c + 1); SIM_CHECK((int)d.size() == nc, "wrong-answer", "%zu components", d.size()); for (auto& c : d) for (auto& b : c) for (auto& ch : b) for (size_t i = 1; i < ch.size(); i++) SIM_CHECK(has_edge(a, ch[i - 1], ch[i], 0), "wrong-answer", "a chain uses no edge"); }
    seen_state(hadj(a));
}
static void colours() {
    typedef am::polynom<long long> poly; int kind = choose(5); poly p; int n = 1 + choose(6); long long k; auto none = []() {};
    if (kind < 3) { Adj a = gen(SIMPLE, 5); n = (int)a.size(); ag::graph<ag::edge> g = ugraph(a); a = plain(a); compute("chromatic_polynomial", [&]() { poly r = ag::chromatic_polynomial<long long>(g); p = r; }, [&]() { SIM_CHECK(read(g) == a, "input-changed", "the graph has changed"); }, 12);
        for (k = 0; k < 5; k++) { long ways = 0; IV col(n, 0); for (;;) { bool ok = k > 0 || !n; for (int u = 0; u < n && ok; u++) for (auto& e : a[u]) ok &= col[u] != col[e.first]; ways += ok; int i = 0; while (i < n && ++col[i] >= k) col[i++] = 0; if (i >= n) break; } SIM_CHECK(p.eval(k) == ways, "wrong-answer", "chromatic polynomial at %lld is %lld instead of %ld for %s", k, p.eval(k), ways, show(a).c_str()); } seen_state(hadj(a)); return; }
    if (kind == 3) compute("chromatic_polynomial_T", [&]() { poly r = ag::chromatic_polynomial_T<long long>(n); p = r; }, none); else { n += 2; if (choose(2)) compute("chromatic_polynomial_C", [&]() { poly r = ag::chromatic_polynomial_C<long long>(n); p = r; }, none); else { kind = 5; compute("chromatic_polynomial_K", [&]() { poly r = ag::chromatic_polynomial_K<long long>(n); p = r; }, none); } }
    for (k = 0; k < 6; k++) { long long t = 1, e; for (int i = 0; i < (kind == 3 ? n - 1 : n); i++) t *= kind == 5 ? k - i : k - 1; e = kind == 3 ? k * t : kind == 4 ? t + (n % 2 ? -(k - 1) : k - 1) : t; SIM_CHECK(p.eval(k) == e, "wrong-answer", "chromatic polynomial %d of size %d at %lld", kind, n, k); } seen_state(mix(kind, n));
}
static void satisfy() {
    int n = 1 + choose(6), m = choose(3 * n + 2); std::vector<II> cl; for (int i = 0; i < m; i++) { int x = choose(2 * n), y = choose(2 * n); int k = choose(12); if (k == 0) y = -1; else if (k == 1) x = -1; else if (k == 2 && choose(8) == 0) x = y = -1; cl.push_back(II(x, y)); }
    const std::vector<II> cl0 = cl; IV pre; bool plainf = choose(3) == 0; if (!plainf) { int s = choose(n + 3); for (int i = 0; i < s; i++) pre.push_back(choose(4) ? -1 : (int)choose(2)); } 
    auto lit = [&](uint32_t as, int l) { return l >= 0 && (int)((as >> (l / 2)) & 1) == (l & 1); }; bool sat = false; for (uint32_t as = 0; as < (1u << n); as++) { bool ok = true; for (size_t i = 0; i < pre.size() && (int)i < n; i++) ok &= pre[i] == -1 || (int)((as >> i) & 1) == pre[i]; for (auto& c : cl) ok &= lit(as, c.first) || lit(as, c.second); sat |= ok; }
    IV sol = pre; bool r = false, valid = true; auto same = [&]() { SIM_CHECK(cl == cl0, "input-changed", "the clauses have changed"); if (!valid) for (size_t i = 0; i < pre.size(); i++) SIM_CHECK(sol[i] == pre[i] || pre[i] == -1, "input-changed", "a given assignment has changed"); };
    if (plainf) { compute("sat2", [&]() { auto x = ag::sat2(cl); sol.swap(x); r = !sol.empty(); }, same); if (cl.empty()) return; } else { valid = false; compute("sat2", [&]() { r = ag::sat2(sol, cl); }, same); }
    SIM_CHECK(r == sat, "wrong-answer", "2-satisfiability of %zu clauses: %d instead of %d", cl.size(), (int)r, (int)sat);
    if (r) { for (size_t i = 0; i < pre.size(); i++) SIM_CHECK(pre[i] == -1 || sol[i] == pre[i], "wrong-answer", "the given value of %zu is not respected", i); for (auto& c : cl) { bool ok = false; for (int l : {c.first, c.second}) ok |= l >= 0 && l / 2 < (int)sol.size() && sol[l / 2] == (l & 1); SIM_CHECK(ok, "wrong-answer", "a clause is not satisfied"); } }
    uint64_t h = mix(n, hv(pre)); for (auto& c : cl) h = mix(h, (uint64_t)(c.first + 1) * 32 + (uint64_t)(c.second + 1)); seen_state(h);
}
static void matching() {
    int l = choose(5), r = choose(5), n = l + r; std::vector<ag::full_edge> es; std::set<II> have; if (l && r) for (int i = choose(13); i > 0; i--) { int u = choose(l), v = l + choose(r); es.push_back(ag::full_edge(u, v)); have.insert(II(u, v)); if (choose(10) == 0) es.push_back(es.back()); }
    const std::vector<ag::full_edge> es0 = es; std::vector<ag::full_edge> sel; compute("bipartite_matching", [&]() { auto x = ag::bipartite_matching(n, es); sel.swap(x); }, [&]() { SIM_CHECK(es == es0, "input-changed", "the edges have changed"); });
    std::set<int> used; for (auto& e : sel) { SIM_CHECK(have.count(II(e.u, e.v)), "wrong-answer", "matching: no edge %d %d", e.u, e.v); SIM_CHECK(used.insert(e.u).second && used.insert(e.v).second, "wrong-answer", "matching: a node is matched twice"); }
    IV m(n, -1); int best = 0; std::vector<char> seen; std::function<bool(int)> aug = [&](int u) { for (int v = l; v < n; v++) if (have.count(II(u, v)) && !seen[v]) { seen[v] = 1; if (m[v] < 0 || aug(m[v])) { m[v] = u; return true; } } return false; }; for (int u = 0; u < l; u++) { seen.assign(n, 0); best += aug(u); } SIM_CHECK((int)sel.size() == best, "wrong-answer", "matching of %zu instead of %d", sel.size(), best);
    uint64_t h = mix(l, r); for (auto& e : es) h = mix(h, e.u * 16 + e.v); seen_state(h);
}
SIM_SCENARIO(D11, shortest_paths, 2) { Leak l; shortest(); l.check(); }
SIM_SCENARIO(D11, spanning_tree, 1) { Leak l; spanning(); l.check(); }
SIM_SCENARIO(D11, traversal, 4) { Leak l; traversal(); l.check(); }
SIM_SCENARIO(D11, blocks, 2) { Leak l; blocks(); l.check(); }
SIM_SCENARIO(D11, colours, 1) { Leak l; colours(); l.check(); }
SIM_SCENARIO(D11, satisfiability, 2) { Leak l; satisfy(); l.check(); }
SIM_SCENARIO(D11, matching, 1) { Leak l; matching(); l.check(); }

// ---------------------------------------------------------------- solver objects that are used again and again
static int max_flow(Mat c, int s, int t) { int n = (int)c.size(), f = 0; for (;;) { IV p(n, -1); p[s] = s; std::deque<int> q(1, s); while (!q.empty() && p[t] < 0) { int u = q.front(); q.pop_front(); for (int v = 0; v < n; v++) if (p[v] < 0 && c[u][v] > 0) { p[v] = u; q.push_back(v); } } if (p[t] < 0) return f; int b = INF; for (int v = t; v != s; v = p[v]) b = std::min(b, c[p[v]][v]); for (int v = t; v != s; v = p[v]) { c[p[v]][v] -= b; c[v][p[v]] += b; } f += b; } }
template<typename T> struct Num { static T of(int v) { return T(v); } static int val(const T& t) { return (int)t; } }; template<> struct Num<W> { static W of(int v) { return W(v); } static int val(const W& t) { return t.v(); } };
template<typename F, typename T> static void flows(const char* name, F* (*make)(const std::vector<std::vector<T>>&), T (*calc)(F&, int, int), int both) {
    int n = 2 + choose(6); Mat c(n, IV(n, 0)); int m = choose(3 * n); int cm = choose(3) ? 9 : 2; for (int i = 0; i < m; i++) { int u = choose(n), v = choose(n); if (u != v) c[u][v] = choose(cm + 1); } if (choose(3) == 0) for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) c[u][v] = c[v][u] = std::max(c[u][v], c[v][u]);
    std::vector<std::vector<T>> cap(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) cap[u].push_back(Num<T>::of(c[u][v])); std::unique_ptr<F> f, g; auto given = [&]() { for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) SIM_CHECK(Num<T>::val(cap[u][v]) == c[u][v], "input-changed", "the capacities have changed"); };
    compute(name, [&]() { f.reset(make(cap)); }, given, 7); int ops = 1 + choose(6); log("%d nodes", n);
    for (int t = 0; t < ops; t++) {
        int s = choose(n), e = choose(n); int k = choose(8);
        if (k == 0) { compute("copy", [&]() { g.reset(new F(*f)); }, given, 6); if (choose(2)) f.swap(g); g.reset(); continue; }
        if (k == 1) { g.reset(new F(*f)); if (run("assign", [&]() { *f = *g; }, true, 6)) { probe("failed-assign"); f.swap(g); } g.reset(); continue; }
        int r = -1; auto own = [&]() { given(); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) SIM_CHECK(Num<T>::val(f->cap[u][v]) == c[u][v], "input-changed", "the solver's capacities have changed"); };
        log("flow %d %d", s, e); bool again = true; if (choose(3) == 0) again = !run(name, [&]() { r = Num<T>::val(calc(*f, s, e)); }, true, 11) || choose(2); own(); if (!again) { probe("given-up"); continue; }
        compute(name, [&]() { r = Num<T>::val(calc(*f, s, e)); }, own, 11); int want = s == e ? 0 : max_flow(c, s, e); SIM_CHECK(r == want, "wrong-answer", "%s: flow %d instead of %d", name, r, want); if (s == e) continue;
        IV net(n, 0); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { int x = Num<T>::val(f->flow[u][v]); SIM_CHECK(x <= c[u][v], "wrong-answer", "%s: %d flow over %d capacity", name, x, c[u][v]); net[u] += x; net[v] -= x; } for (int u = 0; u < n; u++) SIM_CHECK(net[u] == both * (u == s ? want : u == e ? -want : 0), "wrong-answer", "%s: flow is not conserved at %d", name, u);
        uint64_t h = mix(s, e); for (auto& l : c) h = mix(h, hv(l)); seen_state(h);
    }
}

typedef ag::dinic_flow<int> DI; typedef ag::dinic_flow<W> DW; typedef ag::push_relabel_flow<int> PI_; typedef ag::push_relabel_flow<W> PW;
SIM_SCENARIO(D11, flow, 2) {
    Leak l;
    switch (choose(6)) {
        case 0: flows<DI, int>("dinic_flow", [](const Mat& c) { return new DI(c); }, [](DI& f, int s, int t) { return f.calc_max_flow(s, t); }, 1); break;
        case 1: flows<DW, W>("dinic_flow", [](const std::vector<std::vector<W>>& c) { return new DW(c, W(INF)); }, [](DW& f, int s, int t) { return f.calc_max_flow(s, t); }, 1); break;
        case 2: flows<PI_, int>("push_relabel_flow", [](const Mat& c) { return new PI_(c, INF); }, [](PI_& f, int s, int t) { return f.calc_max_flow(s, t); }, 2); break;
        case 3: flows<PI_, int>("push_relabel_flow", [](const Mat& c) { return new PI_(c, INF); }, [](PI_& f, int s, int t) { return f.calc_max_flow(s, t, PI_::LARGEST_LABEL); }, 2); break;
        case 4: flows<PW, W>("push_relabel_flow", [](const std::vector<std::vector<W>>& c) { return new PW(c, W(INF)); }, [](PW& f, int s, int t) { return f.calc_max_flow(s, t); }, 2); break;
        default: flows<PW, W>("push_relabel_flow", [](const std::vector<std::vector<W>>& c) { return new PW(c, W(INF)); }, [](PW& f, int s, int t) { return f.calc_max_flow(s, t, PW::LARGEST_LABEL); }, 2);
    }
    l.check();
}
// best assignment by trying all subsets of jobs
static int best_of(const Mat& c, int sign) { int n = (int)c.size(); IV d(1 << n, -INF); d[0] = 0; for (int m = 0; m < (1 << n); m++) { int x = __builtin_popcount(m); if (x < n && d[m] > -INF) for (int y = 0; y < n; y++) if (!(m >> y & 1)) d[m | 1 << y] = std::max(d[m | 1 << y], d[m] + sign * c[x][y]); } return sign * d[(1 << n) - 1]; }
template<typename T> static void assignment() {
    typedef ag::hungarian<T> H; H h; int n = 0; Mat c; bool set = false; int ops = 2 + choose(7);
    auto given = [&]() { if (set) for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) SIM_CHECK(Num<T>::val(h.cost(x, y)) == c[x][y], "input-changed", "the cost of %d, %d is %d instead of %d", x, y, Num<T>::val(h.cost(x, y)), c[x][y]); };
    for (int t = 0; t < ops; t++) {
        int k = t == 0 ? 0 : choose(8);
        if (k == 0) { n = choose(7); set = false; log("resize %d", n); compute("hungarian::resize", [&]() { h.resize(n); }, []() {}, 6); c.assign(n, IV(n, 0)); int m = choose(3) ? 20 : 3; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) { c[x][y] = (int)choose(m) - m / 3; h.cost(x, y) = Num<T>::of(c[x][y]); } set = true; }
        else if (k == 1) { std::unique_ptr<H> g; compute("copy", [&]() { g.reset(new H(h)); }, given, 6); if (choose(2)) h = std::move(*g); }
        else if (k == 2) { if (!n) continue; int x = choose(n), y = choose(n); c[x][y] = (int)choose(20) - 5; h.cost(x, y) = Num<T>::of(c[x][y]); }
        else {
            bool mx = choose(2); int r = 0; const char* nm = mx ? "calc_max_cost" : "calc_min_cost"; auto calc = [&]() { r = Num<T>::val(mx ? h.calc_max_cost() : h.calc_min_cost()); };
            if (choose(3) == 0) { set_crash_class(nm); bool f = run(nm, calc, true, 10); given(); if (f) { probe("given-up"); continue; } }
            compute(nm, calc, given, 10); int want = best_of(c, mx ? 1 : -1); SIM_CHECK(r == want, "wrong-answer", "%s of size %d: %d instead of %d", nm, n, r, want);
            const IV &xy = h.get_matches_for_x(), &yx = h.get_matches_for_y(); int sum = 0; for (int x = 0; x < n; x++) { int y = xy[x]; SIM_CHECK(y >= 0 && y < n && yx[y] == x, "wrong-answer", "%s: %d is matched with %d", nm, x, y); sum += c[x][y]; } SIM_CHECK(sum == want, "wrong-answer", "%s: the matching costs %d instead of %d", nm, sum, want);
        }
        uint64_t z = n; for (auto& l : c) z = mix(z, hv(l)); seen_state(z);
    }
}
SIM_SCENARIO(D11, assignment, 2) { Leak l; if (choose(2)) assignment<int>(); else assignment<W>(); l.check(); }

// ---------------------------------------------------------------- trees
struct TreeModel {
    Adj a; int n; IV par, dep, size; 
    TreeModel(const Adj& a) : a(a), n((int)a.size()), par(n, -1), dep(n, -1), size(n, 1) { for (int o = 0; o < n; o++) if (dep[o] < 0) { IV st(1, o), ord; dep[o] = 0; while (!st.empty()) { int u = st.back(); st.pop_back(); ord.push_back(u); for (auto& e : a[u]) if (e.first != par[u]) { par[e.first] = u; dep[e.first] = dep[u] + 1; st.push_back(e.first); } } for (size_t i = ord.size(); i-- > 0;) if (par[ord[i]] >= 0) size[par[ord[i]]] += size[ord[i]]; } }
    int up(int u, int k) const { while (k-- > 0 && u >= 0) u = par[u]; return u; }
    int lca(int u, int v) const { if (u < 0 || v < 0) return -1; while (u != v) { if (u < 0 || v < 0) return -1; if (dep[u] < dep[v]) std::swap(u, v); u = par[u]; } return u; }
    int dist(int u, int v) const { int a = lca(u, v); return a < 0 ? -1 : dep[u] + dep[v] - 2 * dep[a]; }
    IV path(int u, int v) const { int a = lca(u, v); IV p, q; for (int w = u; w != a; w = par[w]) p.push_back(w); p.push_back(a); for (int w = v; w != a; w = par[w]) q.push_back(w); p.insert(p.end(), q.rbegin(), q.rend()); return p; }
};
template<typename L> static void ask_lca(L& x, const TreeModel& m) { for (int t = 0; t < 6; t++) { int u = (int)choose(m.n + 1) - 1, v = (int)choose(m.n + 1) - 1; int a = x.ancestor(u, v), d = x.distance(u, v), h = x.depth(u); SIM_CHECK(a == m.lca(u, v), "wrong-answer", "the ancestor of %d and %d is %d instead of %d in %s", u, v, a, m.lca(u, v), show(m.a).c_str()); SIM_CHECK(d == m.dist(u, v), "wrong-answer", "the distance of %d and %d is %d", u, v, d); SIM_CHECK(h == (u < 0 ? -1 : m.dep[u]), "wrong-answer", "the depth of %d is %d", u, h); } }
template<typename H> static void check_hld(H& h, const TreeModel& m) {
    int n = m.n; IV chain(n); for (int u = 0; u < n; u++) { int p = h.position(u); SIM_CHECK(p >= 0 && p < n && h.node(p) == u, "wrong-answer", "the position of %d is %d", u, p); SIM_CHECK(h.subtree_size(u) == m.size[u], "wrong-answer", "the subtree of %d has %d nodes instead of %d", u, h.subtree_size(u), m.size[u]); for (int w = u; w >= 0; w = m.par[w]) { int q = h.position(w); SIM_CHECK(q <= p && p < q + m.size[w], "wrong-answer", "node %d is not placed within the subtree of %d", u, w); } }
}
template<typename E> static void check_paths(ag::heavy_light_decomposition_ex& x, const TreeModel& m, const ag::graph<E>&) {
    ask_lca(x, m); check_hld(x, m); int n = m.n; int lg = 1; while ((1 << lg) <= n) lg++;
    for (int t = 0; t < 4 && n; t++) {
        int u = choose(n), k = (int)choose(m.dep[u] + 3) - 1; SIM_CHECK(x.parent(u, k) == (k < 0 || k > m.dep[u] ? -1 : m.up(u, k)), "wrong-answer", "ancestor %d of %d is %d in %s", k, u, x.parent(u, k), show(m.a).c_str());
        int c = u; int hops = 0; while (c >= 0) { int p = static_cast<ag::heavy_light_decomposition&>(x.hld).parent(c); SIM_CHECK(p < 0 || m.lca(p, c) == p, "wrong-answer", "the chain of %d hangs on %d", c, p); SIM_CHECK(m.dep[c] - (p < 0 ? -1 : m.dep[p]) > 0, "wrong-answer", "chain of %d", c); int len = m.dep[c] - (p < 0 ? -1 : m.dep[p]); for (int i = 0, w = c; i < len; i++, w = m.par[w]) SIM_CHECK(x.position(w) == x.position(c) - i, "wrong-answer", "the chain of %d is not in one piece", c); c = p; hops++; } SIM_CHECK(hops <= lg + 1, "slow", "%d chains above a node of a tree of %d", hops, n);
        int v = choose(n); if (m.lca(u, v) < 0) continue; bool nodes = choose(2); IV want = m.path(u, v); IV edges; if (!nodes) { int a = m.lca(u, v); for (int w : want) if (w != a) edges.push_back(w); want = edges; } int total = -1; bool okargs = true;
        std::map<int, int> at; auto visit2 = [&](int cb, int ce, int pf, int pl, int len, bool rev) { fp_point(FP_USER); NoFault nf; if (cb < 0 || ce > n || ce <= cb || len != (int)want.size()) { okargs = false; return; } int lo = std::min(pf, pl), hi = std::max(pf, pl); if (hi - lo != ce - cb - 1) { okargs = false; return; } for (int i = 0; i < ce - cb; i++) { int pos = rev ? hi - i : lo + i; if (at.count(pos)) okargs = false; at[pos] = x.node(cb + i); } };
        compute(nodes ? "walk_nodes" : "walk_edges", [&]() { { NoFault nf; at.clear(); } okargs = true; total = nodes ? x.walk_nodes(u, v, visit2) : x.walk_edges(u, v, visit2); }, []() {}, 4);
        SIM_CHECK(okargs && total == (int)want.size(), "wrong-answer", "walking from %d to %d: %d in %s", u, v, total, show(m.a).c_str()); SIM_CHECK(at.size() == want.size(), "wrong-answer", "walking from %d to %d", u, v); for (size_t i = 0; i < want.size(); i++) SIM_CHECK(at.count((int)i) && at[(int)i] == want[i], "wrong-answer", "walking from %d to %d: place %zu in %s", u, v, i, show(m.a).c_str());
    }
}
template<typename E> static void trees(const Adj& a0, ag::graph<E>& g, const Adj& edges) {
    TreeModel m(a0); Adj want = sorted(edges); auto given = [&]() { SIM_CHECK(sorted(read(g)) == want, "input-changed", "the graph is %s instead of %s", show(read(g)).c_str(), show(edges).c_str()); }; int k = choose(3);
    if (k == 0) { std::unique_ptr<ag::lowest_common_ancestor> l, q; compute("lowest_common_ancestor", [&]() { l.reset(new ag::lowest_common_ancestor(g)); }, [&]() { SIM_CHECK(read(g) == edges, "input-changed", "the graph has changed"); }); ask_lca(*l, m); if (choose(2)) { compute("copy", [&]() { q.reset(new ag::lowest_common_ancestor(*l)); }, []() {}, 4); ask_lca(*l, m); if (choose(2)) l.reset(); ask_lca(*q, m); } }
    else if (k == 1) { std::unique_ptr<ag::heavy_light_decomposition> h; compute("heavy_light_decomposition", [&]() { h.reset(new ag::heavy_light_decomposition(g)); }, given); check_hld(*h, m); }
    else { std::unique_ptr<ag::heavy_light_decomposition_ex> h, q; compute("heavy_light_decomposition_ex", [&]() { h.reset(new ag::heavy_light_decomposition_ex(g)); }, given); check_paths(*h, m, g); if (choose(2)) { compute("copy", [&]() { q.reset(new ag::heavy_light_decomposition_ex(*h)); }, []() {}, 5); h.reset(); check_paths(*q, m, g); } }
    given(); seen_state(mix(hadj(a0), k));
}
SIM_SCENARIO(D11, trees, 4) { Leak l; { Adj a = gen(FOREST, 14); if (choose(2)) { ag::graph<WE> g = wgraph(a); trees(a, g, a); } else { ag::graph<ag::edge> g = ugraph(a); trees(a, g, plain(a)); } } l.check(); }
