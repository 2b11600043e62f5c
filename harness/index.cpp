// D07: index structures under failing allocations, element copies, comparisons
// and user functions, against plain models.
#include "../sim/env.h"
#include <limits.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace sim;
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/container/binary_heap.h"
#include "altruct/structure/container/bit_vector.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/graph/graph.h"
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/palindrome_tree.h"
namespace ac = altruct::container; namespace ag = altruct::graph; namespace am = altruct::math;

enum { OK = 0, DIRTY = 1, BROKEN = 2 };   // answers right; to be rebuilt first; to be reassigned or destroyed
// Carries out f, perhaps with a fault armed. True if it failed.
static bool g_armed;
template<typename F> static bool attempt(const char* what, uint32_t within, F f, int mask = FP_ALL) {
    g_armed = choose(5) >= 3; bool threw = false; if (g_armed) fp_arm(1 + (choose(3) ? choose(4) : choose(within ? within : 1)), mask);
    try { f(); } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
    bool fired = fp_disarm() && g_armed; log("%s%s", what, threw ? " failed" : ""); if (threw) probe("operation-failed");
    SIM_CHECK(fired == threw, fired ? "swallowed" : "refused", fired ? "%s: a failure did not reach the caller" : "%s: failed without a reason", what); return threw;
}
template<typename S, typename M> struct Slot { std::unique_ptr<S> c; M m; int st; Slot() : st(OK) {} };
// T: S, M, make(slot), op(slot), check(slot, when), safe(slot)
template<typename T> static void world(const char* name, int max_ops) {
    typedef typename T::S S; typedef Slot<S, typename T::M> L; uint64_t lb = live_blocks(); int64_t le = Elem::live; set_crash_class(name);
    {
        std::vector<std::unique_ptr<L>> s; s.reserve(8); int ops = 4 + small(max_ops);
        auto fresh = [&]() { std::unique_ptr<L> x(new L); log("new %zu", s.size()); T::make(*x); if (x->c) s.push_back(std::move(x)); };
        while (s.empty()) fresh();
        for (int op = 0; op < ops; op++) {
            int i = choose((uint32_t)s.size()), j = choose((uint32_t)s.size()); L& a = *s[i]; L& b = *s[j]; int k = choose(20); if (a.st == BROKEN) k = 13 + choose(7);
            log("[%d]", i);
            if (k < 13) { if (a.st == DIRTY && choose(2)) T::recover(a); else T::op(a); }
            else if (k == 13) { if (s.size() < 4) fresh(); }
            else if (k == 14) { if (s.size() >= 4 || a.st == BROKEN) continue; std::unique_ptr<L> x(new L); x->m = a.m; x->st = a.st; if (!attempt("copy", 30, [&]() { x->c.reset(new S(*a.c)); })) { s.push_back(std::move(x)); probe("copy"); } }
            else if (k == 15) { if (s.size() >= 4 || a.st == BROKEN || !T::movable) continue; std::unique_ptr<L> x(new L); x->m = a.m; x->st = a.st; if (!attempt("move", 4, [&]() { x->c.reset(new S(std::move(*a.c))); }, FP_ALLOC)) { a.st = BROKEN; s.push_back(std::move(x)); probe("move"); } }
            else if (k < 18) { if (i == j ? a.st == BROKEN : b.st == BROKEN) continue; if (attempt("assign", 30, [&]() { *a.c = *b.c; })) { if (i != j) a.st = BROKEN; probe("failed-assign"); } else { a.m = b.m; a.st = b.st; log("= [%d]", j); } }
            else if (k == 18) { if (i == j || !T::movable) continue; log("swap [%d]", j); std::swap(*a.c, *b.c); std::swap(a.m, b.m); std::swap(a.st, b.st); }
            else { if (s.size() < 2) continue; log("destroy"); s.erase(s.begin() + i); }
            uint64_t h = k; for (auto& x : s) { if (x->st == OK) T::check(*x, "after the operation"); else if (x->st == DIRTY) T::safe(*x); h = mix(h, x->st == OK ? T::hash(*x) : x->st); } state(h);
        }
        for (auto& x : s) { if (x->st == DIRTY) { for (int t = 0; t < 100 && x->st == DIRTY; t++) T::recover(*x); } if (x->st == OK) T::check(*x, "at the end"); }
    }
    SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le)); SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb));
}
static uint64_t hashv(const std::vector<uint64_t>& v) { uint64_t h = v.size(); for (uint64_t x : v) h = mix(h, x); return h; }

// ---------------------------------------------------------------- segment tree: sequences, which do not commute
static const uint64_t B_ = 1000003;
struct SV { Elem e; uint64_t h, p; SV(uint64_t x = 0) : e((int)x), h(x), p(x ? B_ : 1) {} };
static SV cat(const SV& a, const SV& b) { SV r; r.h = a.h * b.p + b.h; r.p = a.p * b.p; if (a.e.get() < -1 || b.e.get() < -1) fail("element", "damaged"); return r; }
struct Cat { SV operator()(const SV& a, const SV& b) const { fp_point(FP_USER); return cat(a, b); } };
template<typename F> struct SegT {
    typedef ac::segment_tree<SV, F> S; struct M { size_t n; std::vector<uint64_t> v; M() : n(0) {} }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) {
        size_t n = choose(18); int how = choose(8); x.m.n = n; x.m.v.assign(n, 0); 
        if (how == 7) { if (!attempt("empty tree", 3, [&]() { x.c.reset(new S()); })) { x.st = BROKEN; } return; }
        if (how < 3) { attempt("by size", 2 * n + 4, [&]() { x.c.reset(new S(n, Cat())); }); return; }
        std::vector<SV> in; in.reserve(n); for (size_t i = 0; i < n; i++) { x.m.v[i] = 1 + choose(99); in.push_back(SV(x.m.v[i])); } attempt("by range", 6 * n + 4, [&]() { x.c.reset(new S(in.begin(), in.end(), Cat())); });
    }
    static uint64_t expect(const M& m, size_t b, size_t e) { uint64_t h = 0; for (size_t i = b; i < e && i < m.v.size(); i++) h = m.v[i] ? h * B_ + m.v[i] : h; return h; }
    static void query(L& x, size_t b, size_t e, const char* when) { const S& c = *x.c; SV r; if (attempt("query", 12, [&]() { r = c.get(b, e); })) return; SIM_CHECK(x.st || r.h == expect(x.m, b, e), "wrong-answer", "%s: the answer for [%zu, %zu) is wrong", when, b, e); }
    static void op(L& x) {
        S& c = *x.c; size_t n = x.m.n; int k = choose(8); size_t sz = c.size(); size_t b = choose((uint32_t)sz + 1), e = b + choose((uint32_t)(sz - b) + 1);
        if (k < 3) { if (!n) return; size_t i = choose((uint32_t)n); uint64_t v = choose(8) ? 1 + choose(99) : 0; SV y(v); log("set %zu %d", i, (int)v); if (attempt("set", 12, [&]() { c.set(i, y); })) x.st = DIRTY; x.m.v[i] = v; }
        else if (k < 5) query(x, b, e, "query");
        else if (k == 5) { if (!n) return; size_t i = choose((uint32_t)n); uint64_t v = 1 + choose(99); SV y(v); log("write %zu", i); bool t = attempt("write", 3, [&]() { c[i] = y; }); x.m.v[i] = v; int was = x.st; x.st = DIRTY; if (!t && was == OK) { if (!attempt("rebuild(i)", 12, [&]() { c.rebuild(i); })) x.st = OK; } }
        else if (k == 6) { if (!n) return; size_t i = choose((uint32_t)n), j = i + 1 + choose((uint32_t)(n - i)); if (x.st) return; for (size_t q = i; q < j; q++) { x.m.v[q] = 1 + choose(99); c[q] = SV(x.m.v[q]); } x.st = DIRTY; log("rewrite [%zu, %zu)", i, j); if (!attempt("rebuild(b,e)", 3 * (j - i) + 8, [&]() { c.rebuild(i, j); })) x.st = OK; }
        else { if (x.st == DIRTY) { recover(x); return; } if (attempt("rebuild", 3 * sz + 2, [&]() { c.rebuild(); })) x.st = DIRTY; }
    }
    static void recover(L& x) { S& c = *x.c; if (attempt("write all", x.m.n + 1, [&]() { for (size_t i = 0; i < x.m.n; i++) { SV y(x.m.v[i]); c[i] = y; } })) return; if (!attempt("rebuild", 3 * c.size() + 2, [&]() { c.rebuild(); })) x.st = OK; probe("rebuilt"); }
    static void safe(L& x) { S& c = *x.c; size_t sz = c.size(); size_t b = choose((uint32_t)sz + 1), e = b + choose((uint32_t)(sz - b) + 1); NoFault nf; c.get(b, e); }
    static void check(L& x, const char* when) { const S& c = *x.c; NoFault nf; for (size_t i = 0; i < x.m.n; i++) SIM_CHECK(c[i].h == x.m.v[i] && c.get(i).h == x.m.v[i], "wrong-element", "%s: element %zu is wrong", when, i); size_t n = x.m.n; SIM_CHECK(c.size() >= n, "wrong-size", "%s: size", when); SIM_CHECK(c.get(0, c.size()).h == expect(x.m, 0, n), "wrong-answer", "%s: the answer for everything is wrong", when); size_t b = n / 3, e = n - n / 4; if (b < e) SIM_CHECK(c.get(b, e).h == expect(x.m, b, e), "wrong-answer", "%s: the answer for [%zu, %zu) is wrong", when, b, e); }
    static uint64_t hash(L& x) { return hashv(x.m.v); }
};
SIM_SCENARIO(D07, segment_tree, 2) { world<SegT<Cat>>("segment-tree", 40); }
SIM_SCENARIO(D07, segment_tree_function, 1) { world<SegT<std::function<SV(SV, SV)>>>("segment-tree", 40); }

// ---------------------------------------------------------------- lazy segment tree: add to a range, set a range, sum and maximum
struct LV { Elem e; long sum, mx, len, add, set; bool has; LV() : e(1), sum(0), mx(LONG_MIN / 4), len(0), add(0), set(0), has(false) {} LV(long v) : e(1), sum(v), mx(v), len(1), add(0), set(0), has(false) {} 
    void do_add(long x) { sum += len * x; if (len) mx += x; add += x; } void do_set(long x) { if (len) { sum = len * x; mx = x; } has = true; set = x; add = 0; } };
struct LUp { void operator()(LV& p, const LV& l, const LV& r) const { fp_point(FP_USER); long s = l.sum + r.sum, m = std::max(l.mx, r.mx), n = l.len + r.len; p.sum = s; p.mx = m; p.len = n; if (p.e.get() != 1) fail("element", "damaged"); } };
struct LDown { void operator()(LV& p, LV& l, LV& r) const { fp_point(FP_USER); if (p.has) { l.do_set(p.set); r.do_set(p.set); p.has = false; } if (p.add) { l.do_add(p.add); r.do_add(p.add); p.add = 0; } } };
struct LazyT {
    typedef ac::lazy_segment_tree<LV, LUp, LDown> S; struct M { std::vector<long> v; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { size_t n = choose(18); std::vector<LV> in; in.reserve(n); for (size_t i = 0; i < n; i++) { long v = (long)choose(50) - 20; x.m.v.push_back(v); in.push_back(LV(v)); } 
        if (choose(3) == 2) { attempt("by size", 2 * n + 4, [&]() { x.c.reset(new S(n, LUp(), LDown())); }); if (!x.c) return; for (size_t i = 0; i < n; i++) (*x.c)[i] = in[i]; x.c->rebuild(); if (n) x.c->rebuild(0, n); return; }
        attempt("by range", 5 * n + 4, [&]() { x.c.reset(new S(in.begin(), in.end(), LUp(), LDown())); }); }
    static void same(M& m, size_t b, size_t e, const LV& r, const char* when) { long s = 0, mx = LONG_MIN / 4; for (size_t i = b; i < e && i < m.v.size(); i++) { s += m.v[i]; mx = std::max(mx, m.v[i]); } SIM_CHECK(r.sum == s && r.mx == mx, "wrong-answer", "%s: the answer for [%zu, %zu) is %ld/%ld, expected %ld/%ld", when, b, e, r.sum, r.mx, s, mx); }
    static void op(L& x) {
        S& c = *x.c; size_t n = x.m.v.size(); size_t sz = c.size(); size_t b = choose((uint32_t)sz + 1), e = b + choose((uint32_t)(sz - b) + 1); int k = choose(8);
        if (k < 3) { LV r; if (!attempt("query", 30, [&]() { r = c.get(b, e); })) { if (x.st == OK) same(x.m, b, e, r, "query"); } else x.st = DIRTY; }
        else if (k < 6) { long v = (long)choose(30) - 10; bool set = choose(3) == 2; int deep = choose(3); log("update [%zu, %zu) %s %ld deep %d", b, e, set ? "set" : "add", v, deep); 
            if (attempt("update", 60, [&]() { c.update(b, e, [&](LV& t) { fp_point(FP_USER); if (t.len > 1 && deep && (deep == 2 || t.len > 4)) return false; set ? t.do_set(v) : t.do_add(v); return true; }); })) x.st = DIRTY; else if (x.st == OK) for (size_t i = b; i < e && i < n; i++) x.m.v[i] = set ? v : x.m.v[i] + v; }
        else if (k == 6) { if (!n) return; size_t i = choose((uint32_t)n), j = i + 1 + choose((uint32_t)(n - i)); bool st = x.st; if (attempt("restore", 30, [&]() { c.restore(i, j); })) { x.st = DIRTY; return; } if (st) return; for (size_t q = i; q < j; q++) SIM_CHECK(c[q].sum == x.m.v[q], "wrong-element", "element %zu is %ld, expected %ld", q, c[q].sum, x.m.v[q]); 
            for (size_t q = i; q < j; q++) { long v = choose(40); x.m.v[q] = v; NoFault nf; c[q] = LV(v); } log("rewrite"); if (attempt("rebuild(b,e)", 20, [&]() { c.rebuild(i, j); })) x.st = DIRTY; probe("rewrite"); }
        else { if (x.st == OK && sz) { LV r; { NoFault nf; r = c.get(0, sz); } same(x.m, 0, n, r, "all"); } else recover(x); }
    }
    static void recover(L& x) { // a new tree takes its place
        std::vector<LV> in; in.reserve(x.m.v.size()); for (long v : x.m.v) in.push_back(LV(v)); std::unique_ptr<S> t; if (attempt("build anew", 90, [&]() { t.reset(new S(in.begin(), in.end(), LUp(), LDown())); })) return; if (choose(2)) { NoFault nf; *x.c = std::move(*t); } else { NoFault nf; *x.c = *t; } x.st = OK; probe("rebuilt"); }
    static void safe(L& x) { S& c = *x.c; size_t sz = c.size(); size_t b = choose((uint32_t)sz + 1), e = b + choose((uint32_t)(sz - b) + 1); NoFault nf; c.get(b, e); }
    static void check(L& x, const char* when) { size_t n = x.m.v.size(); if (!n) return; size_t b = choose((uint32_t)n), e = b + 1 + choose((uint32_t)(n - b)); NoFault nf; LV r = x.c->get(b, e); same(x.m, b, e, r, when); }
    static uint64_t hash(L& x) { uint64_t h = 3; for (long v : x.m.v) h = mix(h, v); return h; }
};
SIM_SCENARIO(D07, lazy_segment_tree, 2) { world<LazyT>("lazy-segment-tree", 40); }

// ---------------------------------------------------------------- binary indexed tree
struct FV { Elem e; long v; FV(long v = 0) : e(1), v(v) {} };
struct FAdd { FV operator()(const FV& a, const FV& b) const { fp_point(FP_USER); if (a.e.get() != 1 || b.e.get() != 1) fail("element", "damaged"); return FV(a.v + b.v); } };
struct FenT {
    typedef am::fenwick_tree<FV, FAdd> S; struct M { std::vector<long> v; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { size_t n = choose(20); x.m.v.assign(n, 0); attempt("build", n + 3, [&]() { x.c.reset(new S(n, FAdd())); }); }
    static long expect(const M& m, size_t i) { long s = 0; for (size_t q = 0; q <= i; q++) s += m.v[q]; return s; }
    static void op(L& x) { size_t n = x.m.v.size(); if (!n) return; size_t i = choose((uint32_t)n); S& c = *x.c; int k = choose(6);
        if (k < 3) { long v = (long)choose(60) - 20; FV y(v); log("add %zu %ld", i, v); if (attempt("add", 10, [&]() { c.add(i, y); })) x.st = DIRTY; x.m.v[i] += v; }
        else if (k < 5) { FV r; if (!attempt("sum", 12, [&]() { r = c.get_sum(i); }) && x.st == OK) SIM_CHECK(r.v == expect(x.m, i), "wrong-answer", "the sum up to %zu is %ld, expected %ld", i, r.v, expect(x.m, i)); }
        else { if (attempt("reset", n + 2, [&]() { c.reset(); })) x.st = DIRTY; else x.st = OK; x.m.v.assign(n, 0); } }
    static void recover(L& x) { S& c = *x.c; if (attempt("reset", x.m.v.size() + 2, [&]() { c.reset(); })) return; if (!attempt("add all", 40, [&]() { for (size_t i = 0; i < x.m.v.size(); i++) c.add(i, FV(x.m.v[i])); })) x.st = OK; probe("rebuilt"); }
    static void safe(L& x) { NoFault nf; if (!x.m.v.empty()) x.c->get_sum(choose((uint32_t)x.m.v.size())); }
    static void check(L& x, const char* when) { NoFault nf; for (size_t i = 0; i < x.m.v.size(); i++) SIM_CHECK(x.c->get_sum(i).v == expect(x.m, i), "wrong-answer", "%s: the sum up to %zu is wrong", when, i); }
    static uint64_t hash(L& x) { uint64_t h = 4; for (long v : x.m.v) h = mix(h, v); return h; }
};
SIM_SCENARIO(D07, fenwick, 1) { world<FenT>("fenwick-tree", 40); }

// ---------------------------------------------------------------- heap
struct HCmp { int dir; HCmp(int dir = 1) : dir(dir) {} bool operator()(const Elem& a, const Elem& b) const { fp_point(FP_USER); return dir > 0 ? a < b : b < a; } };
struct HeapT {
    typedef ac::binary_heap<Elem, HCmp> S; struct M { std::multiset<int> v; int dir; M() : dir(1) {} int top() const { return dir > 0 ? *v.begin() : *v.rbegin(); } }; enum { movable = 1 }; typedef Slot<S, M> L;
    static std::multiset<int> got(const S& c) { std::multiset<int> r; for (auto& e : c.v) r.insert(e.get()); return r; }
    static void make(L& x) { size_t n = choose(18); int d = choose(2) ? -1 : 1; x.m.dir = d; int how = choose(4); std::vector<Elem> in; in.reserve(n); for (size_t i = 0; i < n; i++) in.push_back(Elem(how == 1 ? 0 : (int)choose(12)));
        if (how == 0) { attempt("empty", 2, [&]() { x.c.reset(new S(HCmp(d))); }); return; } for (auto& e : in) x.m.v.insert(e.v);
        if (how == 1) attempt("by size", n + 2, [&]() { x.c.reset(new S(n, HCmp(d))); }); else if (how == 2) attempt("by vector", 5 * n + 2, [&]() { x.c.reset(new S(in, HCmp(d))); }); else attempt("by range", 5 * n + 2, [&]() { x.c.reset(new S(in.begin(), in.end(), HCmp(d))); }); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = choose(8); 
        if (x.st == DIRTY && k != 4) { if (k < 2) { Elem e((int)choose(12)); std::multiset<int> w = m.v; w.insert(e.v); if (!attempt("insert", 8, [&]() { c.insert(e); })) { m.v = w; } else if (c.size() == w.size()) m.v = w; SIM_CHECK(got(c) == m.v, "wrong-contents", "after an insertion"); } else recover(x); return; }
        if (k < 4) { Elem e((int)choose(12)); log("insert %d", e.v); std::multiset<int> w = m.v; w.insert(e.v); if (attempt("insert", 8, [&]() { c.insert(e); })) { x.st = DIRTY; if (c.size() == w.size()) m.v = w; SIM_CHECK(got(c) == m.v, "wrong-contents", "after a failed insertion"); } else m.v = w; }
        else if (k < 6) { if (m.v.empty() || x.st) return; SIM_CHECK(c.front().get() == m.top(), "wrong-front", "the front is %d, expected %d", c.front().get(), m.top()); std::multiset<int> w = m.v; w.erase(w.find(m.top())); if (attempt("pop", 12, [&]() { c.pop_front(); })) { x.st = DIRTY; if (c.size() == w.size()) m.v = w; SIM_CHECK(got(c) == m.v, "wrong-contents", "after a failed pop"); } else m.v = w; }
        else if (k == 6) { if (attempt("sort", 60, [&]() { c.sort(); })) { x.st = DIRTY; SIM_CHECK(got(c) == m.v, "wrong-contents", "after a failed sort"); } else { std::vector<int> w(m.v.begin(), m.v.end()); if (m.dir < 0) std::reverse(w.begin(), w.end()); SIM_CHECK(w.size() == c.v.size(), "wrong-order", "after sorting"); for (size_t i = 0; i < w.size(); i++) SIM_CHECK(c.v[i].get() == w[i], "wrong-order", "element %zu after sorting", i); } }
        else recover(x); }
    static void recover(L& x) { if (!attempt("rebuild", 40, [&]() { x.c->rebuild(); })) { x.st = OK; probe("rebuilt"); } else x.st = DIRTY; SIM_CHECK(got(*x.c) == x.m.v, "wrong-contents", "after rebuilding"); }
    static void safe(L& x) { SIM_CHECK(got(*x.c) == x.m.v, "wrong-contents", "to be rebuilt"); if (!x.m.v.empty()) x.c->front().get(); }
    static void check(L& x, const char* when) { NoFault nf; SIM_CHECK(got(*x.c) == x.m.v, "wrong-contents", "%s", when); SIM_CHECK(x.c->size() == x.m.v.size(), "wrong-size", "%s", when); if (!x.m.v.empty()) SIM_CHECK(x.c->front().get() == x.m.top(), "wrong-front", "%s: the front is %d, expected %d", when, x.c->front().get(), x.m.top()); }
    static uint64_t hash(L& x) { uint64_t h = 5; for (auto& e : x.c->v) h = mix(h, e.get()); return h; }
};
SIM_SCENARIO(D07, heap, 2) { world<HeapT>("heap", 50); }

// ---------------------------------------------------------------- bit vector
template<typename W> struct BitT {
    typedef ac::bit_vector<W> S; struct M { std::vector<char> v; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static size_t len() { return choose(3) ? choose(24) : choose(3) ? choose(200) : (size_t)S::L * choose(4); }
    static void make(L& x) { size_t n = len(); x.m.v.assign(n, 0); if (choose(2)) { attempt("by size", 3, [&]() { x.c.reset(new S(n)); }); return; } for (size_t i = 0; i < n; i++) x.m.v[i] = (char)choose(2); attempt("by range", 4, [&]() { x.c.reset(new S(x.m.v.begin(), x.m.v.end())); }); }
    static void op(L& x) {
        S& c = *x.c; auto& m = x.m.v; size_t n = m.size(); int k = choose(16);
        if (k < 2) { size_t to = choose(3) ? len() : n + (size_t)S::L * 8; log("resize %zu -> %zu", n, to); if (!attempt("resize", 2, [&]() { c.resize(to); })) m.resize(to, 0); }
        else if (k < 5) { int b = choose(2); int t = 1 + choose(20); log("push %d times", t); for (int i = 0; i < t; i++) if (!attempt("push_back", 2, [&]() { c.push_back(b); })) m.push_back((char)b); }
        else if (k == 5) { if (!n) return; if (!attempt("pop_back", 2, [&]() { c.pop_back(); })) m.pop_back(); }
        else if (k == 6) { size_t to = len(); if (!attempt("reserve", 2, [&]() { c.reserve(to); })) if (m.size() < to) m.resize(to, 0); }
        else if (k < 10) { S o(0); std::vector<char> w(len()); for (auto& b : w) b = (char)choose(2); o = S(w.begin(), w.end()); int f = choose(3); bool in_place = choose(3) != 0; log("%s of %zu and %zu bits", f == 0 ? "and" : f == 1 ? "or" : "xor", n, w.size()); size_t q = std::max(n, w.size()); std::vector<char> r(m), w2(w); r.resize(q, 0); w2.resize(q, 0); for (size_t i = 0; i < q; i++) r[i] = f == 0 ? r[i] & w2[i] : f == 1 ? r[i] | w2[i] : r[i] ^ w2[i];
            S res(0); if (!attempt("combine", 4, [&]() { if (in_place) { if (f == 0) c &= o; else if (f == 1) c |= o; else c ^= o; } else res = f == 0 ? c & o : f == 1 ? c | o : c ^ o; })) { if (in_place) m = r; else same(res, r, "the result of a combination"); } same(o, w, "the other operand"); }
        else if (k == 10) { if (!n) return; size_t i = choose((uint32_t)n); int how = choose(3); log("set %zu %d", i, how); if (how == 0) c.set(i, 1), m[i] = 1; else if (how == 1) c[i] = 0, m[i] = 0; else c[i] ^= 1, m[i] ^= 1; }
        else if (k == 11) { size_t b = choose((uint32_t)n + 1), e = b + choose((uint32_t)(n - b) + 1); log("reverse"); c.reverse(b, e); std::reverse(m.begin() + b, m.begin() + e); }
        else if (k == 12) { size_t b = choose((uint32_t)n + 1), e = b + choose((uint32_t)(n - b) + 1); if (b == e) return; size_t t = choose(40); bool left = choose(2); log("rotate"); if (left) { c.rotate_left(b, e, t); std::rotate(m.begin() + b, m.begin() + b + t % (e - b), m.begin() + e); } else { c.rotate_right(b, e, t); std::rotate(m.begin() + b, m.begin() + (e - t % (e - b)), m.begin() + e); } }
        else if (k == 13) { S r(0); if (!attempt("complement", 3, [&]() { r = ~c; })) { std::vector<char> w(m); for (auto& b : w) b ^= 1; same(r, w, "the complement"); } }
        else if (k == 14) { size_t t = choose((uint32_t)n + 1); if (attempt("shift", 3, [&]() { S r = c >> (int)t; std::vector<char> w(m.begin() + t, m.end()); w.resize(n, 0); NoFault nf; same(r, w, "shifted"); })) return; }
        else { size_t b = choose((uint32_t)n + 1), e = b + choose((uint32_t)(n - b) + 1); std::string s; if (!attempt("to_string", 3, [&]() { s = c.to_string(b, e); })) { SIM_CHECK(s.size() == e - b, "wrong-answer", "to_string"); for (size_t i = b; i < e; i++) SIM_CHECK(s[i - b] == '0' + m[i], "wrong-answer", "to_string at %zu", i); } }
    }
    static void same(const S& c, const std::vector<char>& m, const char* when) { SIM_CHECK(c.size() == m.size(), "wrong-size", "%s: %zu bits, expected %zu", when, c.size(), m.size()); for (size_t i = 0; i < m.size(); i++) SIM_CHECK(c.bit_at(i) == m[i], "wrong-bit", "%s: bit %zu is wrong", when, i); c.word_at(m.size()); SIM_CHECK(S::compare(c, 0, m.size(), c, 0, m.size()) == 0, "wrong-answer", "%s: not equal to itself", when); }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { same(*x.c, x.m.v, when); }
    static uint64_t hash(L& x) { uint64_t h = 6; for (char v : x.m.v) h = mix(h, v); return h; }
};
SIM_SCENARIO(D07, bits8, 1) { world<BitT<uint8_t>>("bit-vector", 50); }
SIM_SCENARIO(D07, bits64, 1) { world<BitT<uint64_t>>("bit-vector", 50); }

// ---------------------------------------------------------------- disjoint sets
struct DsT {
    typedef ag::disjoint_set S; struct M { std::vector<int> set; std::map<int, size_t> extra; size_t distinct() const { return std::set<int>(set.begin(), set.end()).size(); } void grow(size_t n) { while (set.size() < n) set.push_back((int)set.size()); } size_t count(int x) const { size_t c = 0; int s = set[x]; for (int y : set) c += y == s; auto e = extra.find(s); return c + (e == extra.end() ? 0 : e->second); } }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { size_t n = choose(20); if (!attempt("new", 6, [&]() { x.c.reset(new S(n)); })) x.m.grow(n); }
    static void grown(L& x, size_t most) { size_t n = x.c->size(); SIM_CHECK(n >= x.m.set.size() && n <= std::max(most, x.m.set.size()), "wrong-size", "%zu elements after a failure", n); x.m.grow(n); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; size_t n = m.set.size(), lim = n + (choose(4) == 3 ? 1 + choose(40) : 0); if (!lim) lim = 1; size_t a = choose((uint32_t)lim), b = choose((uint32_t)lim); int k = choose(8); bool t = false;
        if (k < 4) { bool r = false; log("unite %zu %zu", a, b); if (attempt("unite", 4, [&]() { r = c.unite(a, b); })) grown(x, std::max(a, b) + 1); else { m.grow(std::max(a, b) + 1); bool e = m.set[a] != m.set[b]; SIM_CHECK(r == e, "wrong-answer", "unite of %zu and %zu", a, b); if (e) { int from = m.set[b], to = m.set[a]; m.extra[to] += m.extra[from]; m.extra.erase(from); for (int& s : m.set) if (s == from) s = to; } } }
        else if (k == 4) { size_t r = 0; log("find %zu", a); if (attempt("find", 3, [&]() { r = c.find(a); })) grown(x, a + 1); else { m.grow(a + 1); SIM_CHECK(r < m.set.size() && m.set[r] == m.set[a], "wrong-answer", "find of %zu", a); } }
        else if (k == 5) { size_t r = 0; if (attempt("count", 3, [&]() { r = c.count(a); })) grown(x, a + 1); else { m.grow(a + 1); SIM_CHECK(r == m.count((int)a), "wrong-answer", "count of %zu is %zu, expected %zu", a, r, m.count((int)a)); } }
        else if (k == 6) { size_t v = choose(5); if (attempt("add_count", 3, [&]() { c.add_count(a, v); })) grown(x, a + 1); else { m.grow(a + 1); m.extra[m.set[a]] += v; } }
        else { size_t to = choose(30); log("clear %zu", to); t = attempt("clear", 3, [&]() { c.clear(to); }); size_t got = c.size(); SIM_CHECK(t ? got <= to : got == to, "wrong-size", "after clear(%zu): %zu", to, got); m = M(); m.grow(got); } }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { S& c = *x.c; M& m = x.m; size_t n = m.set.size(); SIM_CHECK(c.size() == n, "wrong-size", "%s: %zu, expected %zu", when, c.size(), n); SIM_CHECK(c.distinct() == m.distinct(), "wrong-answer", "%s: %zu sets, expected %zu", when, c.distinct(), m.distinct()); S d(c); for (size_t i = 0; i < n; i++) { size_t r = d.find(i); SIM_CHECK(r < n && m.set[r] == m.set[i] && d.find(m.set[i]) == r, "wrong-answer", "%s: %zu is in a wrong set", when, i); SIM_CHECK(d.count(i) == m.count((int)i), "wrong-answer", "%s: count of %zu", when, i); } }
    static uint64_t hash(L& x) { uint64_t h = 7; for (int v : x.m.set) h = mix(h, v); return h; }
};
SIM_SCENARIO(D07, disjoint_set, 2) { world<DsT>("disjoint-set", 50); }

// ---------------------------------------------------------------- graph
struct WE { int v; Elem w; WE(int v, int w) : v(v), w(w) {} bool operator<(const WE& r) const { return v < r.v; } bool operator==(const WE& r) const { return v == r.v; } };
struct GraphT {
    typedef ag::graph<WE> S; typedef std::vector<std::multiset<std::pair<int, int>>> Adj; struct M { Adj a; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static Adj got(const S& c) { Adj r(c.size()); for (int u = 0; u < c.size(); u++) for (auto& e : c[u]) r[u].insert({e.v, e.w.get()}); return r; }
    static void make(L& x) { int n = choose(7); if (!attempt("new", 3, [&]() { if (choose(2)) x.c.reset(new S(n)); else { std::vector<std::vector<WE>> t(n); x.c.reset(new S(t)); } })) x.m.a.resize(n); }
    static void safe_or_broken(L& x, const char* what) { // after a failure in the middle: consistent enough to look at
        S& c = *x.c; for (int u = 0; u < c.size(); u++) for (auto& e : c[u]) { e.w.get(); SIM_CHECK(e.v >= 0 && e.v < (int)x.m.a.size(), "wild-edge", "%s: an edge leads to node %d", what, e.v); } x.st = BROKEN; }
    static void op(L& x) { S& c = *x.c; Adj& m = x.m.a; int n = (int)m.size(); int k = choose(12); int u = n ? choose(n) : 0, v = n ? choose(n) : 0; int w = choose(50); 
        if (k < 2 || !n) { if (n > 9) return; int r = -1; if (!attempt("add_node", 4, [&]() { r = c.add_node(); })) { SIM_CHECK(r == n, "wrong-answer", "the new node is %d", r); m.push_back({}); } }
        else if (k < 6) { WE e(v, w); log("edge %d %d", u, v); if (!attempt("add_edge", 8, [&]() { c.add_edge(u, e); })) m[u].insert({v, w}); }
        else if (k < 8) { WE e(v, w); Adj half = m, full = m; half[u].insert({v, w}); full[u].insert({v, w}); full[v].insert({u, w}); if (!attempt("add_edge2", 10, [&]() { c.add_edge2(u, e); })) m = full; else { Adj g = got(c); SIM_CHECK(g == m || g == half || g == full, "wrong-edges", "after a failed add_edge2"); m = g; } }
        else if (k == 8) { log("delete edge %d %d", u, v); if (attempt("delete_edge", 6, [&]() { c.delete_edge(u, v); })) { safe_or_broken(x, "delete_edge"); return; } std::multiset<std::pair<int, int>> t; for (auto& e : m[u]) if (e.first != v) t.insert(e); m[u] = t; }
        else if (k == 9) { log("delete node %d", u); if (attempt("delete_node", 6, [&]() { c.delete_node(u); })) { safe_or_broken(x, "delete_node"); return; } std::swap(m[u], m[n - 1]); m.pop_back(); for (auto& l : m) { std::multiset<std::pair<int, int>> t; for (auto e : l) if (e.first != u) { if (e.first == n - 1) e.first = u; t.insert(e); } l = t; } }
        else if (k == 10) { if (u == v) return; log("contract %d %d", u, v); if (attempt("contract", 12, [&]() { c.contract(u, v); })) { safe_or_broken(x, "contract"); return; }
            std::set<std::pair<int, int>> e; for (int a = 0; a < n; a++) for (auto& q : m[a]) { int b = q.first; if ((a == u && b == v) || (a == v && b == u)) continue; int aa = a == v ? u : a, bb = b == v ? u : b; if (aa == n - 1) aa = v; if (bb == n - 1) bb = v; e.insert({aa, bb}); }
            std::set<std::pair<int, int>> g; size_t num = 0; SIM_CHECK(c.size() == n - 1, "wrong-size", "after a contraction"); for (int a = 0; a < c.size(); a++) for (auto& q : c[a]) { g.insert({a, q.v}); num++; } SIM_CHECK(g == e && num == e.size(), "wrong-edges", "after contracting %d and %d", u, v); m = got(c); }
        else { log("dedupe"); if (attempt("deduplicate", 12, [&]() { c.deduplicate_edges(u); })) { safe_or_broken(x, "deduplicate"); return; } std::set<int> e, g; for (auto& q : m[u]) e.insert(q.first); for (auto& q : c[u]) g.insert(q.v); SIM_CHECK(e == g && g.size() == c[u].size(), "wrong-edges", "after removing duplicates"); m = got(c); } }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { SIM_CHECK(x.c->size() == (int)x.m.a.size(), "wrong-size", "%s", when); SIM_CHECK(got(*x.c) == x.m.a, "wrong-edges", "%s", when); int t = 0; for (auto& l : x.m.a) t += (int)l.size(); SIM_CHECK(x.c->num_edges() == t, "wrong-answer", "%s: number of edges", when); }
    static uint64_t hash(L& x) { uint64_t h = 8; for (auto& l : x.m.a) { h = mix(h, l.size()); for (auto& e : l) h = mix(h, e.first); } return h; }
};
SIM_SCENARIO(D07, graph, 2) { world<GraphT>("graph", 50); }

// ---------------------------------------------------------------- square-root map and low/high map
struct SqT {
    typedef ac::sqrt_map<int, Elem> S; struct M { int lo, hi; std::map<int, int> v; M() : lo(1), hi(0) {} int key() const { return choose(2) && hi ? hi / (1 + (int)choose((uint32_t)std::min(hi, hi / lo + 1))) : (int)choose((uint32_t)(hi ? std::min(lo, hi) : lo) + 1); } }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { int lo = 1 + choose(9), hi = choose(90); x.m.lo = lo; x.m.hi = hi; if (choose(4) == 0) { x.m.hi = 0; attempt("low part", 14, [&]() { x.c.reset(new S(lo)); }); } else attempt("both parts", 30, [&]() { x.c.reset(new S(lo, hi)); }); }
    static bool usable(const M& m, int k) { return k >= 0 && (k <= m.lo || (m.hi && k <= m.hi)); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = m.key(), v = choose(99); if (!usable(m, k)) return; int q = choose(10);
        if (q < 3) { Elem e(v); log("insert %d %d", k, v); std::pair<int, bool> r(0, false); std::pair<int, Elem> kv(k, e); if (!attempt("insert", 3, [&]() { r = c.insert(kv); })) { SIM_CHECK(r.second == !m.v.count(k) && r.first == k, "wrong-answer", "insert of %d", k); m.v.insert({k, v}); } }
        else if (q < 5) { Elem e(v); log("write %d %d", k, v); if (!attempt("write", 3, [&]() { c[k] = e; })) m.v[k] = v; else { SIM_CHECK(!m.v.count(k) || c.at(k).get() == m.v[k], "wrong-value", "of %d after a failed write", k); NoFault nf; c[k] = Elem(7); m.v[k] = 7; } }
        else if (q < 7) { log("erase %d", k); int r = c.erase(k); SIM_CHECK(r == (int)m.v.erase(k), "wrong-answer", "erase of %d", k); }
        else if (q == 7) { bool oor = false; uint64_t b0 = live_blocks(); bool t = attempt("at", 3, [&]() { try { NoFault nf; const S& cc = c; Elem e = cc.at(k); SIM_CHECK(m.v.count(k) && e.get() == m.v[k], "wrong-value", "of %d", k); } catch (const std::out_of_range&) { oor = true; } }, FP_COPY); if (oor) forget_blocks(live_blocks() - b0);   // the C++ runtime frees the text of its own exceptions behind our back
        SIM_CHECK(t || oor == !m.v.count(k), "wrong-answer", "at(%d)", k); }
        else { int hi = choose(3) ? choose(120) : 0; log("reset_max %d", hi); if (!attempt("reset_max", 3, [&]() { c.reset_max(hi); })) { m.hi = hi; for (auto it = m.v.begin(); it != m.v.end();) if (it->first > m.lo) it = m.v.erase(it); else ++it; if (!hi) m.hi = 0; } else if (m.hi == 0) {} else { // the high part may have been emptied
                bool any = false, all = true; for (auto& p : m.v) if (p.first > m.lo) { if (c.count(p.first)) any = true; else all = false; } SIM_CHECK(!any || all, "half-reset", "a failed reset dropped only some of the high entries"); if (!all) for (auto it = m.v.begin(); it != m.v.end();) if (it->first > m.lo) it = m.v.erase(it); else ++it; } }
    }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { const S& c = *x.c; M& m = x.m; for (int k = 0; k <= m.lo; k++) { SIM_CHECK(!!c.count(k) == !!m.v.count(k), "wrong-answer", "%s: count(%d)", when, k); if (m.v.count(k)) SIM_CHECK(c.at(k).get() == m.v[k] && c[k].get() == m.v[k] && c.lo(k).get() == m.v[k], "wrong-value", "%s: of %d", when, k); } if (m.hi) for (int i = 1; i <= m.hi / m.lo; i++) { int k = m.hi / i; if (k <= m.lo) break; SIM_CHECK(!!c.count(k) == !!m.v.count(k), "wrong-answer", "%s: count(%d)", when, k); c.el(k).get(); if (m.v.count(k)) SIM_CHECK(c.at(k).get() == m.v[k] && c.el(k).get() == m.v[k], "wrong-value", "%s: of %d", when, k); } }
    static uint64_t hash(L& x) { uint64_t h = mix(x.m.lo, x.m.hi); for (auto& v : x.m.v) h = mix(h, v.first); return h; }
};
SIM_SCENARIO(D07, sqrt_map, 2) { world<SqT>("sqrt-map", 50); }
struct LohiT {
    typedef ac::lohi_map<int, Elem> S; struct M { int lo; std::map<int, int> v; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { int lo = choose(9); x.m.lo = lo; attempt("new", 14, [&]() { x.c.reset(new S(lo)); }); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = choose(2) ? choose(m.lo + 1) : choose(60), v = choose(99); int q = choose(8);
        if (q < 3) { Elem e(v); log("insert %d %d", k, v); std::pair<int, bool> r(0, false); std::pair<int, Elem> kv(k, e); if (!attempt("insert", 4, [&]() { r = c.insert(kv); })) { SIM_CHECK(r.second == !m.v.count(k) && r.first == k, "wrong-answer", "insert of %d", k); m.v.insert({k, v}); } }
        else if (q < 5) { Elem e(v); log("write %d %d", k, v); bool had = m.v.count(k); if (!attempt("write", 4, [&]() { c[k] = e; })) m.v[k] = v; else if (had) SIM_CHECK(c.at(k).get() == m.v[k], "wrong-value", "of %d after a failed write", k); else if (c.count(k)) { NoFault nf; c[k] = Elem(7); m.v[k] = 7; } }
        else if (q < 7) { log("erase %d", k); int r = c.erase(k); SIM_CHECK(r == (int)m.v.erase(k), "wrong-answer", "erase of %d", k); }
        else if (m.v.count(k)) SIM_CHECK(c.at(k).get() == m.v[k], "wrong-value", "of %d", k); }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { const S& c = *x.c; M& m = x.m; for (int k = 0; k < 60; k++) { SIM_CHECK(!!c.count(k) == !!m.v.count(k), "wrong-answer", "%s: count(%d)", when, k); if (m.v.count(k)) SIM_CHECK(c.at(k).get() == m.v[k], "wrong-value", "%s: of %d", when, k); } }
    static uint64_t hash(L& x) { uint64_t h = x.m.lo; for (auto& v : x.m.v) h = mix(h, v.first); return h; }
};
SIM_SCENARIO(D07, lohi_map, 1) { world<LohiT>("lohi-map", 50); }

// ---------------------------------------------------------------- prefix tree
struct PreT {
    typedef ac::prefix_tree<4> S; struct M { std::vector<std::string> w; }; enum { movable = 1 }; typedef Slot<S, M> L;   // w[id - 1]
    static std::string word() { std::string s; int n = choose(6); for (int i = 0; i < n; i++) s += (char)('a' + choose(choose(3) ? 2 : 4)); return s; }
    static uint8_t ord(char c) { fp_point(FP_USER); return (uint8_t)(c - 'a'); } static char let(uint8_t o) { return (char)(o + 'a'); }
    static int id(const M& m, const std::string& s) { for (size_t i = 0; i < m.w.size(); i++) if (m.w[i] == s) return (int)i + 1; return 0; }
    static void make(L& x) { attempt("new", 4, [&]() { x.c.reset(new S()); }); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = choose(10); std::string s = word();
        if (k < 5) { log("add %s", s.c_str()); int r = 0; if (!attempt("add", 10, [&]() { r = c.add(s, ord); })) { int e = id(m, s); if (!e && !s.empty()) { m.w.push_back(s); e = (int)m.w.size(); } SIM_CHECK(r == e, "wrong-answer", "the new word is %d, expected %d", r, e); } }
        else if (k < 7) { int i = choose((uint32_t)m.w.size() + 1); std::string t = (i ? m.w[i - 1] : "") + s; if (t.size() > 12) return; log("append %s to %d", s.c_str(), i); int r = 0; if (!attempt("append", 10, [&]() { r = c.append(i, s, ord); })) { int e = id(m, t); if (!e && !t.empty()) { m.w.push_back(t); e = (int)m.w.size(); } SIM_CHECK(r == e, "wrong-answer", "the new word is %d, expected %d", r, e); } }
        else if (k == 7) { if (choose(2)) { int i = choose((uint32_t)m.w.size() + 1); log("erase %d", i); int r = c.erase(i); SIM_CHECK(r == i, "wrong-answer", "erase of %d gave %d", i, r); del(m, i); } else { int e = id(m, s), r = -1; log("erase %s", s.c_str()); if (!attempt("erase", 8, [&]() { r = c.erase(s, ord); })) { SIM_CHECK(r == e, "wrong-answer", "erase gave %d, expected %d", r, e); del(m, e); } } }
        else if (k == 8) { int i = choose((uint32_t)m.w.size() + 1); std::string p = i ? m.w[i - 1] : ""; std::set<std::pair<std::string, int>> g, e; size_t num = 0; if (attempt("for_each", 12, [&]() { c.for_each(i, [&](const std::string& w, int q) { fp_point(FP_USER); NoFault nf; g.insert({w, q}); num++; }, let); })) return; for (size_t q = 0; q < m.w.size(); q++) if (m.w[q].compare(0, p.size(), p) == 0) e.insert({m.w[q], (int)q + 1}); SIM_CHECK(g == e && num == e.size(), "wrong-answer", "the words that begin with word %d", i); }
        else { if (choose(3)) { int e = id(m, s), r = -1; if (!attempt("find", 8, [&]() { r = c.find(s, ord); })) SIM_CHECK(r == e, "wrong-answer", "find gave %d, expected %d", r, e); } else { if (attempt("clear", 3, [&]() { c.clear(); })) { probe("failed-clear"); } m.w.clear(); } } }
    static void del(M& m, int i) { if (!i) return; std::swap(m.w[i - 1], m.w.back()); m.w.pop_back(); }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { const S& c = *x.c; M& m = x.m; NoFault nf; SIM_CHECK(c.num_words() == (int)m.w.size(), "wrong-size", "%s: %d words, expected %zu", when, c.num_words(), m.w.size()); std::set<std::string> pre; for (size_t i = 0; i < m.w.size(); i++) { SIM_CHECK(c.get((int)i + 1, let) == m.w[i], "wrong-word", "%s: word %zu", when, i + 1); SIM_CHECK(c.find(m.w[i], ord) == (int)i + 1, "wrong-answer", "%s: word %zu is not found", when, i + 1); for (size_t q = 1; q <= m.w[i].size(); q++) pre.insert(m.w[i].substr(0, q)); } SIM_CHECK(c.num_letters() >= (int)pre.size(), "wrong-size", "%s: letters", when); for (auto& p : pre) if (!id(m, p)) SIM_CHECK(c.find(p, ord) == 0, "wrong-answer", "%s: %s is not a word", when, p.c_str()); SIM_CHECK(c.find(std::string("dddd"), ord) == id(m, "dddd"), "wrong-answer", "%s: dddd", when); }
    static uint64_t hash(L& x) { uint64_t h = 9; for (auto& w : x.m.w) { h = mix(h, w.size()); for (char c : w) h = mix(h, c); } return h; }
};
SIM_SCENARIO(D07, prefix_tree, 2) { world<PreT>("prefix-tree", 50); }

// ---------------------------------------------------------------- automaton
struct AhoT {
    typedef ac::aho_corasick_trie<3> S; struct M { std::vector<std::string> w; bool built; M() : built(false) {} }; enum { movable = 1 }; typedef Slot<S, M> L;
    static char ord(char c) { fp_point(FP_USER); return (char)(c - 'a'); }
    static std::string word(int mx) { std::string s; int n = choose(mx); for (int i = 0; i < n; i++) s += (char)('a' + choose(choose(3) ? 2 : 3)); return s; }
    static void make(L& x) { attempt("new", 3, [&]() { x.c.reset(new S()); }); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = choose(6);
        if (!m.built && k < 4) { std::string s = word(6) + (char)('a' + choose(3)); log("insert %s", s.c_str()); if (!attempt("insert", 8, [&]() { c.insert(s.begin(), s.end(), ord); })) m.w.push_back(s); }
        else if (!m.built) { if (!attempt("build", 6, [&]() { c.build(); })) { m.built = true; probe("built"); } }
        else { std::string t = word(14); long e = 0, r = -1; for (size_t i = 0; i < t.size(); i++) for (auto& w : m.w) e += t.compare(i, w.size(), w) == 0 && i + w.size() <= t.size(); if (!attempt("match", 14, [&]() { r = (long)c.count_matches(t.begin(), t.end(), ord); })) SIM_CHECK(r == e, "wrong-answer", "%ld matches in %s, expected %ld", r, t.c_str(), e); } }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { if (!x.m.built) return; NoFault nf; std::string t = "abacabaabbccab"; long e = 0; for (size_t i = 0; i < t.size(); i++) for (auto& w : x.m.w) e += i + w.size() <= t.size() && t.compare(i, w.size(), w) == 0; long r = (long)x.c->count_matches(t.begin(), t.end(), ord); SIM_CHECK(r == e, "wrong-answer", "%s: %ld matches, expected %ld", when, r, e); }
    static uint64_t hash(L& x) { uint64_t h = x.m.built; for (auto& w : x.m.w) { h = mix(h, w.size()); for (char c : w) h = mix(h, c); } return h; }
};
SIM_SCENARIO(D07, automaton, 2) { world<AhoT>("automaton", 40); }

// ---------------------------------------------------------------- suffix array, range minimum, palindromes
struct SufT {
    typedef ac::suffix_array<char> S; struct M { std::string s; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static std::string word() { std::string s; int n = 1 + choose(choose(4) ? 12 : 60); int a = 1 + choose(4); for (int i = 0; i < n; i++) s += (char)('a' + choose(a)); return s; }
    static void make(L& x) { std::string s = word(); x.m.s = s; log("of %s", s.c_str()); attempt("new", 12, [&]() { x.c.reset(new S(s.begin(), s.end())); }); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; int k = choose(6); int n = (int)m.s.size();
        if (k < 2) { std::string s = word(); log("of %s", s.c_str()); if (!attempt("replace", 12, [&]() { c = S(s.begin(), s.end()); })) m.s = s; }
        else if (k < 4) { int i = choose(n), j = choose(n); int l = 0; while (i + l < n && j + l < n && m.s[i + l] == m.s[j + l]) l++; SIM_CHECK(c.get_lcp(i, j) == l, "wrong-answer", "common prefix of %d and %d is %d, expected %d", i, j, c.get_lcp(i, j), l); }
        else { int a = choose(n), b = a + choose(n - a + 1), p = choose(n), q = p + choose(n - p + 1); int e = m.s.substr(a, b - a).compare(m.s.substr(p, q - p)), r = c.compare_substrings(a, b, p, q); SIM_CHECK((e < 0) == (r < 0) && (e > 0) == (r > 0), "wrong-answer", "comparison of [%d, %d) and [%d, %d)", a, b, p, q); } }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { NoFault nf; const S& c = *x.c; M& m = x.m; int n = (int)m.s.size(); SIM_CHECK(c.size() == n, "wrong-size", "%s", when); for (int k = 0; k <= n; k++) { int i = c.get_kth_suffix(k); SIM_CHECK(i >= 0 && i <= n && c.get_suffix_order(i) == k, "wrong-order", "%s: suffix %d", when, k); if (k) { int j = c.get_kth_suffix(k - 1); SIM_CHECK(m.s.compare(j, n, m.s, i, n) < 0, "wrong-order", "%s: suffixes %d and %d", when, k - 1, k); } } if (n > 1) { int i = n / 3, j = n - 1, l = 0; while (j + l < n && m.s[i + l] == m.s[j + l]) l++; if (i != j) SIM_CHECK(c.get_lcp(i, j) == l, "wrong-answer", "%s: common prefix", when); } }
    static uint64_t hash(L& x) { uint64_t h = 10; for (char c : x.m.s) h = mix(h, c); return h; }
};
SIM_SCENARIO(D07, suffix_array, 2) { world<SufT>("suffix-array", 30); }
struct RmqT {
    typedef ac::direct_rmq<Elem, HCmp> S; struct M { std::vector<int> v; int dir; bool built; M() : dir(1), built(false) {} }; enum { movable = 1 }; typedef Slot<S, M> L;
    static void make(L& x) { x.m.dir = choose(2) ? -1 : 1; attempt("new", 3, [&]() { x.c.reset(new S(HCmp(x.m.dir))); }); if (x.c) x.st = OK; }
    static void op(L& x) { S& c = *x.c; M& m = x.m; if (!m.built || choose(5) == 4) { recover(x); return; } if (x.st) return; query(x, "query"); }
    static void query(L& x, const char* when) { S& c = *x.c; M& m = x.m; int n = (int)m.v.size(); int b = choose(n), e = b + 1 + choose(n - b); int r = -1, val = 0; if (attempt("query", 9, [&]() { r = c.get_index(b, e); val = c.get_value(b, e).get(); })) return; int best = b; for (int i = b; i < e; i++) if (m.dir > 0 ? m.v[i] < m.v[best] : m.v[i] > m.v[best]) best = i; SIM_CHECK(r >= b && r < e && m.v[r] == m.v[best] && val == m.v[best], "wrong-answer", "%s: the extreme of [%d, %d) is at %d, expected %d", when, b, e, r, best); }
    static void recover(L& x) { int n = 1 + choose(choose(3) ? 30 : 150); std::vector<int> v(n); std::vector<Elem> in; in.reserve(n); int a = 1 + choose(9); for (int& t : v) { t = (int)choose(a) - 2; in.push_back(Elem(t)); } log("build %d", n); if (attempt("build", 4 * n, [&]() { x.c->build(in.begin(), in.end()); })) x.st = DIRTY; else { x.st = OK; x.m.v = v; x.m.built = true; } }
    static void safe(L& x) {}
    static void check(L& x, const char* when) { if (!x.m.built) return; M& m = x.m; int n = (int)m.v.size(); NoFault nf; S& c = *x.c; for (int t = 0; t < 3; t++) { int b = t == 0 ? 0 : n / 3, e = t == 2 ? n : n - n / 4; if (b >= e) continue; int best = b; for (int i = b; i < e; i++) if (m.dir > 0 ? m.v[i] < m.v[best] : m.v[i] > m.v[best]) best = i; SIM_CHECK(c.get_value(b, e).get() == m.v[best], "wrong-answer", "%s: the extreme of [%d, %d)", when, b, e); } }
    static uint64_t hash(L& x) { uint64_t h = 11; for (int c : x.m.v) h = mix(h, c); return h; }
};
SIM_SCENARIO(D07, range_minimum, 2) { world<RmqT>("range-minimum", 30); }
struct PalT {
    typedef ac::palindrome_tree<3> S; struct M { std::string s; }; enum { movable = 1 }; typedef Slot<S, M> L;
    static uint8_t ord(char c) { fp_point(FP_USER); return (uint8_t)(c - 'a'); }
    static void make(L& x) { std::string s; int n = choose(8); for (int i = 0; i < n; i++) s += (char)('a' + choose(2)); if (choose(2)) { x.m.s = s; attempt("of a string", 10, [&]() { x.c.reset(new S(s.begin(), s.end(), ord)); }); } else attempt("new", 4, [&]() { x.c.reset(new S()); }); }
    static bool pal(const std::string& s) { return std::equal(s.begin(), s.end(), s.rbegin()); }
    static void op(L& x) { S& c = *x.c; M& m = x.m; if (m.s.size() > 40) return; char l = (char)('a' + choose(choose(3) ? 2 : 3)); if (choose(4) == 3) { std::string t; int n = choose(6); for (int i = 0; i < n; i++) t += (char)('a' + choose(3)); log("add all %s", t.c_str()); if (!attempt("add_all", 10, [&]() { c.add_all(t.begin(), t.end(), ord); })) m.s += t; else { std::string full = m.s; size_t g = c._string.size(); SIM_CHECK(g >= m.s.size() && g <= m.s.size() + t.size(), "wrong-size", "after a failed add_all"); m.s += t.substr(0, g - m.s.size()); } return; }
        log("add %c", l); if (!attempt("add", 4, [&]() { c.add(l, ord); })) m.s += l; }
    static void recover(L& x) {} static void safe(L& x) {}
    static void check(L& x, const char* when) { S& c = *x.c; M& m = x.m; std::set<std::string> d; long total = 0; size_t longest = 0; int n = (int)m.s.size(); for (int i = 0; i < n; i++) for (int l = 1; i + l <= n; l++) { std::string t = m.s.substr(i, l); if (pal(t)) { d.insert(t); total++; if (i + l == n && (size_t)l > longest) longest = l; } }
        SIM_CHECK(c._string.size() == m.s.size(), "wrong-size", "%s: %zu letters", when, c._string.size()); SIM_CHECK(c.distinct() == (int)d.size(), "wrong-answer", "%s: %d distinct palindromes, expected %zu", when, c.distinct(), d.size()); SIM_CHECK(c.total() == total, "wrong-answer", "%s: %ld palindromes, expected %ld", when, (long)c.total(), total); int ls = c.longest_suffix(); SIM_CHECK(ls >= 0 && ls < c.size() && (size_t)c[ls].len == longest, "wrong-answer", "%s: the longest palindromic suffix", when); std::set<std::string> g; for (int i = c.first(); i < c.size(); i++) { SIM_CHECK(c[i].pos >= 0 && c[i].pos + c[i].len <= n, "wrong-answer", "%s: a palindrome outside the string", when); g.insert(m.s.substr(c[i].pos, c[i].len)); } SIM_CHECK(g == d, "wrong-answer", "%s: the palindromes", when);
    }
    static uint64_t hash(L& x) { uint64_t h = 12; for (char c : x.m.s) h = mix(h, c); return h; }
};
SIM_SCENARIO(D07, palindromes, 2) { world<PalT>("palindrome-tree", 40); }
