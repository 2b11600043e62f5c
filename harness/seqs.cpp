// D12: algorithms over sequences and caller-owned tables with allocations,
// element operations, comparisons, predicates and visitors failing inside.
// A failure must reach the caller; const inputs keep their values; tables
// computed in place hold valid values and nothing around them is touched;
// callbacks have been called in order, once per element or match, exactly as far
// as the failure (or as they asked to stop); nothing leaks; the computation made
// again gives the right answer, which is found by direct computation.
#include "../sim/env.h"
#include <limits.h>
#include <math.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/convergents.h"
#ifndef NESTED   // has no include guard
#include "altruct/algorithm/math/convolutions.h"
#endif
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/search/kmp_search.h"
using namespace sim;
namespace am = altruct::math; namespace ac = altruct::collections; namespace as = altruct::search; namespace ay = altruct::parser::shunting_yard;

static const int P = 12289;      // 3 * 2^12 + 1
static int md(long long x) { x %= P; return (int)(x < 0 ? x + P : x); }
static int pw(long long b, long long e) { long long r = 1; b = md(b); for (; e; e >>= 1, b = b * b % P) if (e & 1) r = r * b % P; return (int)r; }
static int inv(int a) { return pw(a, P - 2); }
struct Z {
    Elem e; Z() : e(0) {} template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>> Z(I v) : e(md((long long)v)) {} int v() const { return e.get(); }
    Z& operator+=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() + r.v())); return *this; } Z& operator-=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() - r.v())); return *this; }
    Z& operator*=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() * r.v())); return *this; } Z& operator/=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() * inv(r.v()))); return *this; }
    Z operator+(const Z& r) const { Z t(*this); t += r; return t; } Z operator-(const Z& r) const { Z t(*this); t -= r; return t; } Z operator*(const Z& r) const { Z t(*this); t *= r; return t; } Z operator/(const Z& r) const { Z t(*this); t /= r; return t; }
    Z operator-() const { fp_point(FP_USER); return Z(-(long long)v()); }
    bool operator==(const Z& r) const { return e == r.e; } bool operator!=(const Z& r) const { return !(e == r.e); } bool operator<(const Z& r) const { return e < r.e; } bool operator>(const Z& r) const { return r.e < e; }
};
typedef std::vector<int> IV; typedef std::vector<Z> ZV; typedef std::vector<Elem> EV;
static int rnd() { int k = choose(8); return k < 2 ? 0 : k < 3 ? 1 : k < 4 ? P - 1 : (int)choose(P); }
static ZV zs(const IV& m) { ZV c; c.reserve(m.size()); for (int x : m) c.push_back(Z(x)); return c; }
static EV es(const IV& m) { EV c; c.reserve(m.size()); for (int x : m) c.push_back(Elem(x)); return c; }
static IV ints(const ZV& v) { IV r; for (auto& z : v) { int x = z.v(); SIM_CHECK(0 <= x && x < P, "invalid-value", "an element is %d", x); r.push_back(x); } return r; }
static IV ints(const EV& v) { IV r; for (auto& z : v) r.push_back(z.get()); return r; }
static std::string show(const IV& v) { std::string s; char b[16]; for (size_t i = 0; i < v.size() && i < 16; i++) { snprintf(b, sizeof b, "%d ", v[i]); s += b; } if (v.size() > 16) s += "..."; return s; }
static uint64_t hv(const IV& v) { uint64_t h = v.size(); for (int x : v) h = mix(h, (uint64_t)(x + 70000)); return h; }
static void seen_state(const char* what, uint64_t h) { for (const char* p = what; *p; p++) h = mix(h, (uint64_t)*p); state(h); log("%s %016llx", what, (unsigned long long)h); }

static const int MASKS[] = {FP_ALL, FP_ALL, FP_ALLOC, FP_ALLOC, FP_COPY | FP_USER, FP_USER, FP_CMP, FP_COPY};
static bool run(const char* name, const std::function<void()>& f, bool fault, int bits) {
    bool threw = false; if (fault) { int m = MASKS[choose(8)]; fp_arm(1 + (choose(3) ? choose(1u << (1 + choose(bits))) : choose(6)), m); }
    try { f(); } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
    bool fired = fp_disarm() && fault; if (threw) { log("%s failed", name); probe("operation-failed"); }
    SIM_CHECK(fired == threw, fired ? "swallowed" : "refused", fired ? "%s: a failure did not reach the caller" : "%s: failed without a reason", name); return threw;
}
// `same(failed)` looks at what was given to it, before the computation is made again
static void compute(const char* name, const std::function<void()>& f, const std::function<void(bool)>& same, int bits = 7) {
    set_crash_class(name); bool failed = false; int tries = choose(4);
    for (int t = 0; t < tries; t++) { bool x = run(name, f, true, bits); same(x); if (!x) return; failed = true; }
    run(name, f, false, bits); same(false); if (failed) probe("made-again");
}
struct Leak { uint64_t lb; int64_t le; Leak() : lb(live_blocks()), le(Elem::live) {} void check() { SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le)); SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb)); } };
static void equal(const char* what, const IV& got, const IV& want, const IV& in = IV()) { SIM_CHECK(got == want, "wrong-answer", "%s of [%s] gave [%s] instead of [%s]", what, show(in).c_str(), show(got).c_str(), show(want).c_str()); }
static void equal(const char* what, long long got, long long want, const IV& in = IV()) { SIM_CHECK(got == want, "wrong-answer", "%s of [%s] gave %lld instead of %lld", what, show(in).c_str(), got, want); }
static IV gen(int maxn, int vals) { int n = (int)small(maxn); IV m; for (int i = 0; i < n; i++) m.push_back(vals > 0 ? (int)choose(vals) : rnd()); return m; }

// ---------------------------------------------------------------- collections
static void collections() {
    IV m = gen(14, choose(2) ? 4 : 1000), m2 = choose(2) ? m : gen(14, 4); for (int k = choose(3); k > 0 && !m2.empty(); k--) m2[choose((uint32_t)m2.size())] += (int)choose(3) - 1; EV c = es(m), d = es(m2); int n = (int)m.size(); EV out; IV calls, want; calls.reserve(64); int kind = choose(10); const EV& cc = c; bool whole = choose(2);
    int lo = whole ? 0 : (int)choose(n + 1), hi = whole ? n : lo + (int)choose(n - lo + 1); IV part(m.begin() + lo, m.begin() + hi); auto b = cc.begin() + lo, e = cc.begin() + hi;
    auto same = [&](bool) { SIM_CHECK(ints(c) == m && ints(d) == m2, "input-changed", "the elements have changed to [%s]", show(ints(c)).c_str()); };
    auto called = [&](bool failed) { same(failed); SIM_CHECK(calls.size() <= part.size() && std::equal(calls.begin(), calls.end(), part.begin()), "wrong-calls", "called for [%s] of [%s]", show(calls).c_str(), show(part).c_str()); SIM_CHECK(failed || calls.size() == part.size(), "wrong-calls", "called for %zu elements of %zu", calls.size(), part.size()); };
    if (kind == 0) { compute("sorted", [&]() { EV r = whole ? ac::sorted(cc) : ac::sorted(b, e); out.swap(r); }, same); want = part; std::sort(want.begin(), want.end()); equal("sorted", ints(out), want, part); }
    else if (kind == 1) { compute("reversed", [&]() { EV r = whole ? ac::reversed(cc) : ac::reversed(b, e); out.swap(r); }, same); want = part; std::reverse(want.begin(), want.end()); equal("reversed", ints(out), want, part); }
    else if (kind == 2) { int k = choose(18); compute("take", [&]() { EV r = whole ? ac::take(cc, k) : ac::take(b, e, k); out.swap(r); }, same); want = part; if ((int)want.size() > k) want.resize(k); equal("take", ints(out), want, part); }
    else if (kind == 3) { uint32_t keep = (uint32_t)bits64(); auto p = [&](const Elem& x) { fp_point(FP_USER); NoFault nf; calls.push_back(x.get()); return (keep >> (x.get() % 32)) & 1; }; compute("filter", [&]() { calls.clear(); EV r = whole ? ac::filter(cc, p) : ac::filter(b, e, p); out.swap(r); }, called); for (int x : part) if ((keep >> (x % 32)) & 1) want.push_back(x); equal("filter", ints(out), want, part); }
    else if (kind == 4) { auto f = [&](const Elem& x) { fp_point(FP_USER); { NoFault nf; calls.push_back(x.get()); } return Z(x.get() * 3 + 1); }; ZV zo; compute("transform", [&]() { calls.clear(); ZV r = whole ? ac::transform(cc, f) : ac::transform(b, e, f); zo.swap(r); }, called); for (int x : part) want.push_back(x * 3 + 1); equal("transform", ints(zo), want, part); }
    else if (kind == 5) { std::vector<std::pair<Elem, int>> rl; compute("run_length", [&]() { auto r = whole ? ac::run_length(cc) : ac::run_length(b, e); rl.swap(r); }, same); IV flat; size_t runs = 0; for (size_t i = 0; i < part.size(); i++) runs += i == 0 || part[i] != part[i - 1]; for (auto& r : rl) { SIM_CHECK(r.second > 0 && r.second < 99, "wrong-answer", "a run of %d", r.second); for (int i = 0; i < r.second; i++) flat.push_back(r.first.get()); } equal("run_length", flat, part, part); equal("number of runs", (long long)rl.size(), (long long)runs, part); }
    else if (kind == 6) { size_t k = choose(2) ? (size_t)-1 : choose(16); int r = 9; IV p2 = m2, p1 = part; compute("compare", [&]() { r = ac::compare(b, e, d.begin(), d.end(), k); }, same); if (p1.size() > k) p1.resize(k); if (p2.size() > k) p2.resize(k); equal("compare", r, p1 < p2 ? -1 : p2 < p1 ? 1 : 0, part); }
    else if (kind == 7) { Elem x((int)choose(4)); bool r = false; compute("contains", [&]() { r = whole ? ac::contains(cc, x) : ac::contains(b, e, x); }, same); equal("contains", r, std::find(part.begin(), part.end(), x.get()) != part.end(), part); }
    else if (kind == 8) { size_t more = choose(20); size_t cap0 = c.capacity(); compute("reserve_more", [&]() { ac::reserve_more(c, more); }, [&](bool failed) { same(failed); SIM_CHECK(failed || c.capacity() >= c.size() + more, "wrong-answer", "room for %zu elements instead of %zu", c.capacity(), c.size() + more); }); SIM_CHECK(m.size() + more <= cap0 || c.capacity() >= cap0 + cap0 / 2, "wrong-answer", "capacity grows from %zu to %zu only", cap0, c.capacity()); }
    else { ZV z = zs(part); int which = choose(5), r = -1; auto sz = [&](bool) { SIM_CHECK(ints(z) == part, "input-changed", "the elements have changed"); }; const ZV& cz = z; long long w = 0;
        if (which == 0) { compute("reduce_sum", [&]() { r = am::reduce_sum(cz).v(); }, sz); for (int x : part) w += x; w = md(w); } else if (which == 1) { compute("reduce_product", [&]() { r = am::reduce_product(cz).v(); }, sz); w = 1; for (int x : part) w = w * x % P; }
        else if (which == 2) { compute("reduce_min", [&]() { r = am::reduce_min(cz, Z(5000)).v(); }, sz); w = 5000; for (int x : part) w = std::min<long long>(w, x); } else if (which == 3) { compute("reduce_max", [&]() { r = am::reduce_max(cz, Z(0)).v(); }, sz); for (int x : part) w = std::max<long long>(w, x); }
        else { std::sort(part.begin(), part.end()); z = zs(part); part.erase(std::unique(part.begin(), part.end()), part.end()); z = zs(part); compute("reduce_mex", [&]() { r = am::reduce_mex(cz, Z(0)).v(); }, sz); for (int x : part) if (x == w) w++; }
        equal("reduce", r, w, part); }
    seen_state("collections", mix(mix(hv(m), hv(m2)), kind));
}

// ---------------------------------------------------------------- searches
static void searches() {
    int kind = choose(4);
    if (kind < 2) {
        int vals = 1 + choose(3); IV p = gen(5, vals), t; int nt = (int)small(40); int style = choose(3); for (int i = 0; i < nt; i++) t.push_back(style == 0 || p.empty() ? (int)choose(vals) : choose(5) ? p[i % p.size()] : (int)choose(vals)); if (style == 2 && !p.empty()) for (int k = choose(4); k > 0; k--) for (size_t i = 0, at = choose((uint32_t)t.size() + 1); i < p.size() && at + i < t.size(); i++) t[at + i] = p[i];
        EV et = es(t), ep = es(p); const EV &ct = et, &cp = ep; size_t n = t.size(), m = p.size(); IV want, got; got.reserve(64); int stop = choose(2) ? 1000 : (int)choose(5); size_t ret = 999;
        if (m) for (size_t i = 0; i + m <= n; i++) if (std::equal(p.begin(), p.end(), t.begin() + i)) want.push_back((int)i); size_t upto = std::min<size_t>(want.size(), (size_t)stop + 1);
        compute("kmp_search", [&]() { got.clear(); ret = as::kmp_search(ct.begin(), n, cp.begin(), m, [&](size_t pos) { fp_point(FP_USER); NoFault nf; SIM_CHECK(got.size() < 64, "wrong-calls", "too many matches"); got.push_back((int)pos); return (int)got.size() <= stop; }); },
            [&](bool failed) { SIM_CHECK(ints(et) == t && ints(ep) == p, "input-changed", "text or pattern have changed"); SIM_CHECK(got.size() <= upto && std::equal(got.begin(), got.end(), want.begin()), "wrong-calls", "matches [%s] of [%s] in [%s], expected [%s], stopping after %d", show(got).c_str(), show(p).c_str(), show(t).c_str(), show(want).c_str(), stop); SIM_CHECK(failed || got.size() == upto, "wrong-calls", "matches [%s] of [%s] in [%s], expected [%s], stopping after %d", show(got).c_str(), show(p).c_str(), show(t).c_str(), show(want).c_str(), stop); });
        equal("kmp_search", (long long)ret, m == 0 ? 0 : upto ? want[upto - 1] : (long long)n, t); seen_state("kmp", mix(hv(t), mix(hv(p), stop)));
    } else {
        int lo = (int)choose(2000) - 1000, len = choose(3) ? (int)small(70) : (int)choose(100000), hi = lo + len, first = lo + (int)choose(len + 1); int asked = 0; int maxask = 2; while ((1 << (maxask - 1)) <= len) maxask++; long long r = -1; int v = kind == 3 ? (int)choose(2) : 0;
        auto none = [&](bool) {}; auto ask = [&](int x) { fp_point(FP_USER); asked++; SIM_CHECK(lo <= x && x < hi, "wrong-calls", "binary search asks for %d outside of %d..%d", x, lo, hi); SIM_CHECK(asked <= maxask, "wrong-calls", "binary search asks %d times in a range of %d", asked, len); };
        if (kind == 2 && choose(2)) { IV a(std::min(len, 500)); hi = lo + (int)a.size(); first = std::min(first, hi); std::vector<char> f(a.size()); for (size_t i = 0; i < f.size(); i++) f[i] = lo + (int)i >= first; compute("binary_search_pred", [&]() { asked = 0; r = as::binary_search_pred(f.begin(), f.end(), [&](std::vector<char>::iterator it) { ask(lo + (int)(it - f.begin())); return *it != 0; }) - f.begin() + lo; }, none, 4); }
        else if (kind == 2) compute("binary_search_pred", [&]() { asked = 0; r = as::binary_search_pred(lo, hi, [&](int x) { ask(x); return x >= first; }); }, none, 4);
        else if (v == 0) { int fam = choose(5); auto f = [&](int x) { ask(x); return x; }; auto g = [&](int x) { ask(x); return -x; }; compute("bound_num", [&]() { asked = 0; r = fam == 0 ? as::lower_bound_num(lo, hi, 1, first, f) : fam == 1 ? as::upper_bound_num(lo, hi, 1, first - 1, f) : fam == 2 ? as::lower_bound_num(lo, hi, 1, -first, g, true) : fam == 3 ? as::upper_bound_num(lo, hi, 1, 1 - first, g, true) : as::binary_search_num(lo, hi, 1, [&](int x) { ask(x); return x >= first; }); }, none, 4); }
        else { double at = first + 0.37, res = 0; int c = 0; hi++; compute("binary_search_num", [&]() { c = 0; res = as::binary_search_num((double)lo, (double)hi, 1e-9, [&](double x) { fp_point(FP_USER); c++; SIM_CHECK(x >= lo && x <= hi && c < 200, "wrong-calls", "asks for %f", x); return x >= at; }); }, none, 4); SIM_CHECK(fabs(res - at) < 1e-6, "wrong-answer", "%f found instead of %f", res, at); r = first; }
        equal("binary search", r, first); seen_state("binary", mix(mix((uint64_t)(lo + 5000), (uint64_t)len), (uint64_t)(first - lo)));
    }
}

// ---------------------------------------------------------------- tables in place, with guards around them
struct Table {
    ZV buf; IV orig, before; int pad; size_t n;
    Table(const IV& m) : orig(m), pad(1 + choose(4)), n(m.size()) { for (int i = 0; i < pad; i++) before.push_back(rnd()); before.insert(before.end(), m.begin(), m.end()); for (int i = 0; i < pad; i++) before.push_back(rnd()); buf = zs(before); }
    Z* b() { return buf.data() + pad; } Z* e() { return b() + n; }
    void reset() { for (size_t i = 0; i < n; i++) b()[i] = Z(orig[i]); }
    IV get() { IV all = ints(buf); for (int i = 0; i < pad; i++) SIM_CHECK(all[i] == before[i] && all[pad + n + i] == before[pad + n + i], "outside-touched", "an element outside of the table has changed"); return IV(all.begin() + pad, all.begin() + pad + n); }
};
static void tables() {
    IV m = gen(24, 0); int kind = choose(15), k = (int)choose(9), x = rnd(); if (kind == 7 || kind == 8) for (int& y : m) if (!y) y = 1 + (int)choose(P - 1);
    Table t(m); int n = (int)m.size(); IV w(n); const char* name = ""; std::function<void()> f; std::function<ZV()> mk; long long c = 1; Z zx(x), one(1); Z fk; int via = choose(2);
    if (kind == 0) { name = "range"; f = [&]() { am::range(t.b(), t.e(), zx); }; mk = [&]() { return am::range((size_t)n, zx); }; for (int i = 0; i < n; i++) w[i] = md((long long)x * i); }
    else if (kind == 1) { name = "powers"; f = [&]() { am::powers(t.b(), t.e(), zx); }; mk = [&]() { return am::powers((size_t)n, zx); }; for (int i = 0; i < n; i++) { w[i] = (int)c; c = c * x % P; } }
    else if (kind == 2) { name = "factorials"; f = [&]() { am::factorials(t.b(), t.e(), one); }; mk = [&]() { return am::make_factorials((size_t)n, one); }; for (int i = 0; i < n; i++) { if (i) c = c * i % P; w[i] = (int)c; } }
    else if (kind == 3) { if (n < 2) return; name = "inv_factorials"; k = (int)choose(n); for (int i = 2; i <= k; i++) c = c * i % P; fk = Z((int)c); f = [&]() { am::inv_factorials(t.b(), t.e(), fk, (size_t)k); }; mk = [&]() { return am::make_inv_factorials((size_t)n, fk, (size_t)k); }; c = 1; for (int i = 0; i < n; i++) { if (i) c = c * i % P; w[i] = inv((int)c); } }
    else if (kind == 4) { if (n < 1) return; name = "inverses"; f = [&]() { am::inverses(t.b(), t.e(), one); }; mk = [&]() { return am::make_inverses((size_t)n, one); }; for (int i = 1; i < n; i++) w[i] = inv(i); }
    else if (kind == 5) { name = "power"; f = [&]() { am::power(t.b(), t.e(), k); }; for (int i = 0; i < n; i++) w[i] = pw(m[i], k); }
    else if (kind == 6) { name = "invert"; f = [&]() { am::invert(t.b(), t.e(), one); }; for (int i = 0; i < n; i++) w[i] = m[i] ? inv(m[i]) : 0; }
    else if (kind <= 8) { name = "invert_field"; f = [&]() { am::invert_field(t.b(), t.e(), one); }; for (int i = 0; i < n; i++) w[i] = inv(m[i]); }
    else if (kind == 9) { name = "negate"; f = [&]() { am::negate(t.b(), t.e()); }; for (int i = 0; i < n; i++) w[i] = md(-m[i]); }
    else if (kind == 10) { name = "alternate"; f = [&]() { am::alternate(t.b(), t.e()); }; for (int i = 0; i < n; i++) w[i] = md(i & 1 ? -m[i] : m[i]); }
    else if (kind == 11) { name = "accumulate"; f = [&]() { am::accumulate(t.b(), t.e()); }; c = 0; for (int i = 0; i < n; i++) { c += m[i]; w[i] = md(c); } }
    else if (kind == 12) { name = "differentiate"; f = [&]() { am::differentiate(t.b(), t.e()); }; for (int i = 0; i < n; i++) w[i] = md(m[i] - (i ? m[i - 1] : 0)); }
    else { name = "fft"; int l = choose(6), sz = 1 << l; IV u; for (int i = 0; i < sz; i++) u.push_back(rnd()); Table a(u), d(u); int root = pw(11, (P - 1) / sz); Z zr(root); bool rec = kind == 14; IV want(sz); for (int q = 0; q < sz; q++) { long long s = 0; for (int i = 0; i < sz; i++) s += (long long)u[i] * pw(root, (long long)i * q) % P; want[q] = md(s); }
        if (rec) compute("fft_rec", [&]() { am::fft_rec(d.b(), a.b(), sz, zr); }, [&](bool) { SIM_CHECK(a.get() == u, "input-changed", "the source of fft_rec has changed"); d.get(); }); else compute("fft", [&]() { am::fft(d.b(), sz, zr); }, [&](bool failed) { d.get(); if (failed) d.reset(); });
        equal(name, d.get(), want, u); seen_state(name, hv(u)); return; }
    if (via && mk) { ZV out; compute(name, [&]() { ZV r = mk(); out.swap(r); }, [&](bool) { SIM_CHECK(zx.v() == x, "input-changed", "an argument has changed"); }); equal(name, ints(out), w, m); }
    else { compute(name, f, [&](bool failed) { t.get(); SIM_CHECK(zx.v() == x, "input-changed", "an argument has changed"); if (failed) t.reset(); }); equal(name, t.get(), w, m); }
    seen_state(name, mix(hv(m), k * 70000 + x));
}

// ---------------------------------------------------------------- convolutions
static void convolutions() {
    int l = choose(5), n = 1 << l, kind = choose(13); if (kind == 4) n = 1 + choose(12); IV u, v; for (int i = 0; i < n; i++) { u.push_back(rnd()); v.push_back(rnd()); } int alias = choose(5); bool fg = alias == 1 || alias == 4, rf = alias == 2 || alias == 4, rg = alias == 3; if (fg) v = u;
    IV zero(n, 0), w(n); auto acc = [&](std::function<int(int, int)> q) { std::vector<long long> s(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { long long& x = s[q(i, j)]; x = (x + (long long)u[i] * v[j]) % P; } for (int i = 0; i < n; i++) w[i] = (int)s[i]; };
    auto subset = [&](const IV& a) { IV r(n); for (int k = 0; k < n; k++) { long long s = 0; for (int i = 0; i < n; i++) if ((i & k) == i) s += a[i]; r[k] = md(s); } return r; };
    if (kind <= 4) {        // f, g and r are modified and may be the same
        Table a(u), b2(v), r2(zero); Table& b = fg ? a : b2; Table& r = rf ? a : rg ? b : r2; const char* nm = kind == 0 ? "and_convolution" : kind == 1 ? "or_convolution" : kind == 2 ? "xor_convolution" : "max_convolution";
        if (kind == 0) acc([](int i, int j) { return i & j; }); else if (kind == 1) acc([](int i, int j) { return i | j; }); else if (kind == 2) acc([](int i, int j) { return i ^ j; }); else acc([](int i, int j) { return std::max(i, j); });
        compute(nm, [&]() { if (kind == 0) am::and_convolution(r.b(), a.b(), b.b(), l); else if (kind == 1) am::or_convolution(r.b(), a.b(), b.b(), l); else if (kind == 2) am::xor_convolution(r.b(), a.b(), b.b(), l); else am::max_convolution(r.b(), a.b(), b.b(), n); }, [&](bool failed) { a.get(); b.get(); r.get(); if (failed) { a.reset(); b.reset(); if (&r != &a && &r != &b) r.reset(); } }, 9);
        equal(nm, r.get(), w, u);
    } else if (kind <= 7) { // subset sums: f may be r
        Table a(u), r2(zero); bool al = rf && kind != 5; Table& r = al ? a : r2; const char* nm = kind == 5 ? "slow_subset_sum" : kind == 6 ? "fast_subset_sum" : "fast_subset_sum_inverse"; if (kind == 7) { IV s = subset(u); w = u; Table c(s); a = c; } else w = subset(u);
        IV given = a.get(); compute(nm, [&]() { if (kind == 5) am::slow_subset_sum(r.b(), a.b(), l); else if (kind == 6) am::fast_subset_sum(r.b(), a.b(), l); else am::fast_subset_sum_inverse(r.b(), a.b(), l); }, [&](bool failed) { IV x = a.get(); r.get(); SIM_CHECK(al || x == given, "input-changed", "%s: the argument has changed", nm); if (failed && al) a.reset(); }, 9);
        equal(nm, r.get(), w, given);
    } else {
        Table a(u), b2(v), r(zero); Table& b = fg ? a : b2; const char* nm = kind == 8 ? "slow_subset_convolution" : kind == 9 ? "fast_subset_convolution" : kind == 10 ? "slow_cyclic_convolution" : kind == 11 ? "slow_xor_convolution" : "slow_max_convolution"; bool al = kind == 9 && rf; Table& d = al ? a : r;
        if (kind <= 9) { std::vector<long long> s(n); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if ((i & k) == i) s[k] = (s[k] + (long long)u[i] * v[k ^ i]) % P; for (int k = 0; k < n; k++) w[k] = (int)s[k]; } else if (kind == 10) acc([&](int i, int j) { return (i + j) % n; }); else if (kind == 11) acc([](int i, int j) { return i ^ j; }); else acc([](int i, int j) { return std::max(i, j); });
        compute(nm, [&]() { if (kind == 8) am::slow_subset_convolution(d.b(), a.b(), b.b(), l); else if (kind == 9) am::fast_subset_convolution(d.b(), a.b(), b.b(), l); else if (kind == 10) am::slow_cyclic_convolution(d.b(), a.b(), b.b(), n); else if (kind == 11) am::slow_xor_convolution(d.b(), a.b(), b.b(), l); else am::slow_max_convolution(d.b(), a.b(), b.b(), n); },
            [&](bool failed) { IV x = a.get(), y = b.get(); d.get(); SIM_CHECK((al && !failed) || (x == u && (y == v)) || (al && fg), "input-changed", "%s: an argument has changed", nm); if (failed) { if (al) a.reset(); else d.reset(); } }, 10);
        equal(nm, d.get(), w, u);
    }
    seen_state("convolution", mix(mix(hv(u), hv(v)), kind * 8 + alias));
}
static void transforms() {
    int kind = choose(9);
    if (kind < 3) {
        int lo = choose(6), order = 64 << choose(3); IV u, v; int nu = 1 + (int)small(9 + lo), nv = 1 + (int)small(12); for (int i = 0; i < nu; i++) u.push_back(rnd()); for (int i = 0; i < nv; i++) v.push_back(rnd()); ZV a = zs(u), b = zs(v), out; const ZV &ca = a, &cb = b; Z root(pw(11, (P - 1) / order)); int n = nu + nv - 1; IV w(n);
        auto same = [&](bool) { SIM_CHECK(ints(a) == u && ints(b) == v && root.v() == pw(11, (P - 1) / order), "input-changed", "an argument has changed"); };
        if (kind == 0) { for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) w[i + j] = md(w[i + j] + (long long)u[i] * v[j]); compute("convolution", [&]() { ZV r = am::convolution<Z>(ca.begin(), ca.end(), cb.begin(), cb.end(), root, order); out.swap(r); }, same, 10); equal("convolution", ints(out), w, u); }
        else if (kind == 1) { for (int k = 0; k < n; k++) { long long s = 0; for (int i = 0; i < nu; i++) s = (s + (long long)u[i] * v[(((k - i) % nv) + nv) % nv]) % P; w[k] = (int)s; } compute("cyclic_convolution", [&]() { ZV r = am::cyclic_convolution<Z>(ca.begin(), ca.end(), cb.begin(), cb.end(), root, order); out.swap(r); }, same, 10); equal("cyclic_convolution", ints(out), w, u); }
        else { int l = choose(5), sz = 1 << l; IV x, y; for (int i = 0; i < sz; i++) { x.push_back(rnd()); y.push_back(rnd()); } Table ta(x), tb(y), tr(IV(sz, 0)); IV q(sz); for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) { int& z = q[(i + j) % sz]; z = md(z + (long long)x[i] * y[j]); } compute("fft_cyclic_convolution", [&]() { am::fft_cyclic_convolution(tr.b(), ta.b(), tb.b(), sz, root, order); }, [&](bool failed) { ta.get(); tb.get(); tr.get(); if (failed) { ta.reset(); tb.reset(); } }, 10); equal("fft_cyclic_convolution", tr.get(), q, x); u = x; v = y; }
        seen_state("fft", mix(mix(hv(u), hv(v)), kind)); return;
    }
    int L = 1 + (int)choose(5); IV c, a; for (int i = 0; i < L; i++) c.push_back(rnd()); for (int i = 0; i < L; i++) a.push_back(rnd()); IV s = a; while (s.size() < 120) { long long x = 0; for (int i = 0; i < L; i++) x += (long long)c[i] * s[s.size() - 1 - i] % P; s.push_back(md(x)); }
    ZV zc = zs(c), za = zs(a); const ZV &cc = zc, &ca = za; auto same = [&](bool) { SIM_CHECK(ints(zc) == c && ints(za) == a, "input-changed", "coefficients or initial values have changed"); };
    if (kind == 3 || kind == 4) { int n = choose(120), r = -1; compute("linear_recurrence", [&]() { r = am::linear_recurrence(cc, ca, n).v(); }, same, 11); equal("linear_recurrence", r, s[n], c); seen_state("recurrence", mix(mix(hv(c), hv(a)), n)); }
    else if (kind == 5) { int n = L + (int)choose(20), r = -1; IV h(s.begin(), s.begin() + n); za = zs(h); a = h; compute("linear_recurrence_next", [&]() { r = am::linear_recurrence_next(cc, ca).v(); }, same); equal("linear_recurrence_next", r, s[n], c); seen_state("next", mix(mix(hv(c), hv(a)), n)); }
    else if (kind == 6) { int n = 2 * (L + (int)choose(4)); IV h(s.begin(), s.begin() + n); za = zs(h); a = h; ZV out; compute("berlekamp_massey", [&]() { ZV r = am::berlekamp_massey(ca, Z(1)); out.swap(r); }, same, 10); IV o = ints(out); SIM_CHECK((int)o.size() <= L, "wrong-answer", "a recurrence of length %zu for one of length %d", o.size(), L); for (size_t i = o.size(); i < s.size(); i++) { long long x = 0; for (size_t j = 0; j < o.size(); j++) x += (long long)o[j] * s[i - 1 - j] % P; SIM_CHECK(md(x) == s[i], "wrong-answer", "berlekamp_massey of [%s] gave [%s], wrong at %zu", show(h).c_str(), show(o).c_str(), i); } seen_state("massey", hv(h)); }
    else if (kind == 7) { int n = choose(60), r = -1, p = rnd(), q = rnd(), what = choose(4); long long f0 = what == 0 || what == 2 ? 0 : 2, f1 = what == 3 ? p : 1; if (what < 2) p = 1, q = P - 1; for (int i = 0; i < n; i++) { long long t = md((long long)p * f1 - (long long)q * f0); f0 = f1; f1 = t; } compute("lucas", [&]() { r = (what == 0 ? am::fibonacci<Z>(n) : what == 1 ? am::lucas_l<Z>(n) : what == 2 ? am::lucas_u(Z(p), Z(q), n) : am::lucas_v(Z(p), Z(q), n)).v(); }, same, 10); equal("lucas", r, f0); seen_state("lucas", mix(mix(p, q), n * 4 + what)); }
    else { int n = (int)choose(12); ZV out; compute("bernoulli_b", [&]() { ZV r = am::bernoulli_b<Z>(n); out.swap(r); }, [](bool) {}, 9); IV b = ints(out); equal("bernoulli_b: number", (long long)b.size(), n + 1); for (int m = 0; m <= n; m++) { long long x = 0, bin = 1; for (int k = 0; k <= m; k++) { x = (x + bin * b[k]) % P; bin = bin * (m + 1 - k) % P * inv(k + 1) % P; } SIM_CHECK(md(x) == md(m + 1), "wrong-answer", "bernoulli_b(%d) is wrong at %d", n, m); } seen_state("bernoulli", n); }
}

// ---------------------------------------------------------------- expressions
struct Node { int op; std::vector<Node> kid; };      // op < 0: operand -1 - op
static const int PREC[] = {20, 15, 11, 10, 10, 0, 0, 0, 0, 0}; static const int NARG[] = {1, 2, 2, 2, 2, 1, 2, 3, 4, 6}; enum { OPS = 10, ARGS = 6 };
static Node tree(int depth, int operands) { Node x; if (!depth || choose(4) == 0) { x.op = -1 - (int)choose(operands); return x; } x.op = choose(OPS + 1); if (x.op == OPS) x.op = 0; for (int i = 0; i < NARG[x.op]; i++) x.kid.push_back(tree(depth - 1, operands)); return x; }
static int apply(int op, const int* a) { switch (op) { case 0: return md(-a[0]); case 1: return md(a[0] * 31LL + a[1] * 7LL + 3); case 2: return md((long long)a[0] * a[1]); case 3: return md(a[0] + a[1]); case 4: return md(a[0] - a[1]); case 5: return md(a[0] + 1000LL); case 6: return md(5LL * a[0] + 3LL * a[1]); case 7: return md(a[0] + 2LL * a[1] + 4LL * a[2]); default: { long long r = 0; for (int i = 0; i < NARG[op]; i++) r += (op + 3LL * i) * a[i]; return md(r); } } }
static int value(const Node& x, const IV& vals) { if (x.op < 0) return vals[-1 - x.op]; int a[ARGS]; for (size_t i = 0; i < x.kid.size(); i++) a[i] = value(x.kid[i], vals); return apply(x.op, a); }
typedef ay::infix_token IT; typedef ay::postfix_token PT;
static void infix(const Node& x, int need, std::vector<IT>& out) {
    if (x.op < 0) { bool p = choose(8) == 0; if (p) out.push_back({IT::type_t::LEFT_PARENTHESIS, 0}); out.push_back({IT::type_t::OPERAND, -1 - x.op}); if (p) out.push_back({IT::type_t::RIGHT_PARENTHESIS, 0}); return; }
    if (x.op >= 5) { out.push_back({IT::type_t::FUNCTION, x.op}); out.push_back({IT::type_t::LEFT_PARENTHESIS, 0}); for (size_t i = 0; i < x.kid.size(); i++) { if (i) out.push_back({IT::type_t::SEPARATOR, 0}); infix(x.kid[i], 0, out); } out.push_back({IT::type_t::RIGHT_PARENTHESIS, 0}); return; }
    bool p = PREC[x.op] < need || choose(8) == 0; if (p) out.push_back({IT::type_t::LEFT_PARENTHESIS, 0});
    if (x.op == 0) { out.push_back({IT::type_t::OPERATOR, 0}); infix(x.kid[0], 20, out); }
    else { bool right = x.op == 1; infix(x.kid[0], PREC[x.op] + right, out); out.push_back({IT::type_t::OPERATOR, x.op}); infix(x.kid[1], PREC[x.op] + !right, out); }
    if (p) out.push_back({IT::type_t::RIGHT_PARENTHESIS, 0});
}
static void postfix(const Node& x, std::vector<PT>& out) { if (x.op < 0) { out.push_back({PT::type_t::OPERAND, -1 - x.op, 0}); return; } for (auto& k : x.kid) postfix(k, out); out.push_back({PT::type_t::FUNCTION, x.op, NARG[x.op]}); }
static void expressions() {
    IV vals; int nv = 1 + choose(5); for (int i = 0; i < nv; i++) vals.push_back(rnd()); std::vector<Node> trees; int nt = choose(4) ? 1 : 1 + (int)choose(3); for (int i = 0; i < nt; i++) trees.push_back(tree(choose(5), nv));
    std::vector<IT> in; std::vector<PT> want, got; IV res; for (int i = 0; i < nt; i++) { if (i) in.push_back({IT::type_t::SEPARATOR, 0}); infix(trees[i], 0, in); postfix(trees[i], want); res.push_back(value(trees[i], vals)); }
    typedef ay::operator_desc OD; std::vector<OD> ops; for (int i = 0; i < 5; i++) ops.push_back({PREC[i], i < 2 ? OD::assoc_t::RIGHT : OD::assoc_t::LEFT, i == 0 ? OD::arity_t::UNARY : OD::arity_t::BINARY}); std::vector<IT> in0 = in; uint64_t h = hv(vals); for (auto& t : in) h = mix(h, (uint64_t)t.id * 8 + (uint64_t)t.type);
    auto sameops = [&]() { for (int i = 0; i < 5; i++) SIM_CHECK(ops[i].precedence == PREC[i], "input-changed", "operators have changed"); };
    compute("infix_to_postfix", [&]() { auto r = ay::infix_to_postfix<>(in, ops); got.swap(r); }, [&](bool) { sameops(); SIM_CHECK(in.size() == in0.size(), "input-changed", "the tokens have changed"); for (size_t i = 0; i < in.size(); i++) SIM_CHECK(in[i].type == in0[i].type && in[i].id == in0[i].id, "input-changed", "token %zu has changed", i); }, 4);
    SIM_CHECK(got == want, "wrong-answer", "infix_to_postfix gives %zu tokens instead of %zu, or others", got.size(), want.size());
    size_t calls = 0, fns = 0; for (auto& t : want) fns += t.type == PT::type_t::FUNCTION; std::vector<std::function<Z(Z*)>> ev; for (int o = 0; o < OPS; o++) ev.push_back([&, o](Z* a) { fp_point(FP_USER); calls++; int x[ARGS]; for (int i = 0; i < NARG[o]; i++) x[i] = a[i].v(); return Z(apply(o, x)); });
    ZV zv = zs(vals), out; compute("evaluate_postfix", [&]() { calls = 0; ZV r = ay::evaluate_postfix(want, zv, ev); out.swap(r); }, [&](bool failed) { SIM_CHECK(ints(zv) == vals, "input-changed", "operands have changed"); SIM_CHECK(failed ? calls <= fns : calls == fns, "wrong-calls", "%zu evaluators called for %zu functions", calls, fns); }, 8);
    equal("evaluate_postfix", ints(out), res, vals); seen_state("expression", h);
}

// ---------------------------------------------------------------- lists of numbers and their visitors
typedef long long LL; typedef std::vector<LL> LV;
static void visited(const char* name, std::function<void(std::function<void(LL, LL, LL)>)> f, std::function<std::vector<am::triple<int64_t>>()> list, const std::vector<am::triple<int64_t>>& want_set) {
    typedef std::vector<am::triple<int64_t>> TV; TV ref, got; got.reserve(4000); f([&](LL a, LL b, LL c) { ref.push_back({a, b, c}); }); TV s = ref; std::sort(s.begin(), s.end()); SIM_CHECK(s == want_set, "wrong-answer", "%s: %zu triples instead of %zu, or others", name, s.size(), want_set.size());
    compute(name, [&]() { got.clear(); f([&](LL a, LL b, LL c) { fp_point(FP_USER); NoFault nf; SIM_CHECK(got.size() < ref.size(), "wrong-calls", "%s: called too often", name); got.push_back({a, b, c}); }); }, [&](bool failed) { SIM_CHECK(std::equal(got.begin(), got.end(), ref.begin()), "wrong-calls", "%s: called for others than before", name); SIM_CHECK(failed || got.size() == ref.size(), "wrong-calls", "%s: called %zu times instead of %zu", name, got.size(), ref.size()); }, 6);
    TV out; compute(name, [&]() { TV r = list(); out.swap(r); }, [](bool) {}, 4); SIM_CHECK(out == ref, "wrong-answer", "%s: the list differs from the visits", name);
}
static LL gcd(LL a, LL b) { return b ? gcd(b, a % b) : a; }
static std::vector<std::pair<LL, int>> factor(LL n) { std::vector<std::pair<LL, int>> f; for (LL p = 2; n > 1; p++) { int e = 0; while (n % p == 0) n /= p, e++; if (e) f.push_back({p, e}); } return f; }
static void numbers() {
    typedef std::vector<am::triple<int64_t>> TV; int kind = choose(12); auto none = [](bool) {};
    if (kind < 4) {
        int64_t c = 1 + (int64_t)choose(70); bool prim = choose(2); TV w; typedef std::function<void(LL, LL, LL)> F;
        if (kind == 0) { for (LL a = 1; a < c; a++) for (LL b = a; b < c; b++) for (LL z = b; z <= c; z++) if (a * a + b * b == z * z && (!prim || gcd(gcd(a, b), z) == 1)) w.push_back({a, b, z}); visited("pythagorean_triples", [&](F v) { am::pythagorean_triples(c, prim, v); }, [&]() { return am::pythagorean_triples(c, prim); }, w); }
        else if (kind == 1) { for (LL a = 1; a <= c; a++) for (LL b = a; b <= c; b++) for (LL z = b; z <= c; z++) if (a * a + a * b + b * b == z * z && (!prim || gcd(gcd(a, b), z) == 1)) w.push_back({a, b, z}); visited("eisenstein_triples120", [&](F v) { am::eisenstein_triples120(c, prim, v); }, [&]() { return am::eisenstein_triples120(c, prim); }, w); }
        else if (kind == 2) { LL leg = 1 + choose(60); auto f = factor(leg), f0 = f; for (LL b = 1; b <= leg * leg; b++) { LL z = (LL)sqrtl((long double)(leg * leg + b * b)); for (LL q = z - 1; q <= z + 1; q++) if (q > 0 && q * q == leg * leg + b * b) w.push_back({leg, b, q}); } visited("pythagorean_triples_fixed_leg", [&](F v) { am::pythagorean_triples_fixed_leg<int64_t>(leg, f, [&](LL b, LL z) { v(leg, b, z); }); SIM_CHECK(f == f0, "input-changed", "the factorisation has changed"); }, [&]() { return am::pythagorean_triples_fixed_leg<int64_t>(leg, f); }, w); SIM_CHECK(f == f0, "input-changed", "the factorisation has changed"); c = leg + 1000; }
        else { c = 1 + choose(30); for (LL a = 1; a <= c; a++) for (LL b = a; b <= c; b++) for (LL z = b; z <= c; z++) if (a * a - a * z + z * z == b * b && (!prim || gcd(gcd(a, b), z) == 1)) w.push_back({a, b, z}); TV u; std::function<void(F)> f = [&](F v) { am::eisenstein_triples60(c, prim, v); }; f([&](LL a, LL b, LL z) { u.push_back({a, b, z}); }); std::sort(u.begin(), u.end()); for (auto& t : u) SIM_CHECK(std::binary_search(w.begin(), w.end(), t), "wrong-answer", "eisenstein_triples60: %lld %lld %lld is none", (LL)t.a, (LL)t.b, (LL)t.c); for (auto& t : w) { am::triple<int64_t> o{t.c - t.a, t.b, t.c}; SIM_CHECK(std::binary_search(u.begin(), u.end(), t) || std::binary_search(u.begin(), u.end(), o), "wrong-answer", "eisenstein_triples60: %lld %lld %lld is missing", (LL)t.a, (LL)t.b, (LL)t.c); } visited("eisenstein_triples60", f, [&]() { return am::eisenstein_triples60(c, prim); }, u); }
        seen_state("triples", mix(kind, c * 2 + prim));
    } else if (kind == 4) {
        LL n = 1 + choose(5000); auto f = factor(n), f0 = f; LL maxd = choose(2) ? 0 : 1 + choose((uint32_t)n); LV w, out; for (LL d = 1; d <= n; d++) if (n % d == 0 && (!maxd || d <= maxd)) w.push_back(d); auto same = [&](bool) { SIM_CHECK(f == f0, "input-changed", "the factorisation has changed"); };
        compute("divisors", [&]() { LV r = am::divisors<LL>(f, maxd); out.swap(r); }, same, 4); SIM_CHECK(out == w, "wrong-answer", "divisors of %lld up to %lld: %zu instead of %zu", n, maxd, out.size(), w.size());
        LV ap(1, 77), sq; compute("divisors", [&]() { am::divisors(ap, f, maxd); }, [&](bool failed) { same(failed); SIM_CHECK(!ap.empty() && ap[0] == 77 && ap.size() <= w.size() + 1, "wrong-answer", "elements already listed are lost"); if (failed) ap.resize(1); }, 3); std::sort(ap.begin() + 1, ap.end()); SIM_CHECK(LV(ap.begin() + 1, ap.end()) == w, "wrong-answer", "divisors appended of %lld", n);
        LV mu; for (LL d = 1; d <= n; d++) if (n % d == 0) { auto g = factor(d); bool ok = true; for (auto& q : g) ok &= q.second == 1; if (ok) mu.push_back(g.size() % 2 ? -d : d); } compute("squarefree_signed_divisors", [&]() { sq.clear(); am::squarefree_signed_divisors(sq, f); }, same, 3); std::sort(sq.begin(), sq.end()); std::sort(mu.begin(), mu.end()); SIM_CHECK(sq == mu, "wrong-answer", "squarefree divisors of %lld", n);
        seen_state("divisors", mix(n, maxd));
    } else if (kind == 5) {
        int b = 2 + choose(15); LL q = 2 + choose(300), p = 1 + choose((uint32_t)q - 1); std::pair<IV, size_t> r; compute("repeating_decimal", [&]() { auto x = am::repeating_decimal<LL>(b, p, q); r.first.swap(x.first); r.second = x.second; }, none, 6);
        LL t = p; IV d; std::map<LL, int> at; size_t period = 0; while (true) { if (at.count(t)) { period = d.size() - at[t]; break; } at[t] = (int)d.size(); t *= b; d.push_back((int)(t / q)); t %= q; if (!t) break; } equal("repeating_decimal", r.first, d); equal("period", (LL)r.second, (LL)period);
        int n = choose(40), len = choose(12); IV ds; compute("rational_digits", [&]() { auto x = am::rational_digits<LL>(n, len, b, p, q); ds.swap(x); }, none, 4); IV w; t = p; for (int i = 0; i < n + len; i++) { t *= b; if (i >= n) w.push_back((int)(t / q)); t %= q; } equal("rational_digits", ds, w); seen_state("decimal", mix(mix(p, q), b));
    } else if (kind == 6) {
        LL p = choose(3000), q = 1 + choose(3000); LV cf; compute("continued_fraction", [&]() { LV x = am::continued_fraction<LL>(p, q); cf.swap(x); }, none, 4); LL a = 1, b = 0; for (size_t i = cf.size(); i-- > 0;) { LL t = cf[i] * a + b; b = a; a = t; } LL g = gcd(p, q); SIM_CHECK(a == p / g && b == q / g, "wrong-answer", "continued fraction of %lld / %lld", p, q);
        std::vector<std::pair<LL, LL>> cv; LV cf0 = cf; compute("convergents", [&]() { auto x = am::convergents(cf); cv.swap(x); }, [&](bool) { SIM_CHECK(cf == cf0, "input-changed", "the continued fraction has changed"); }, 4); SIM_CHECK(cv.size() == cf.size() && cv.back().first == p / g && cv.back().second == q / g, "wrong-answer", "convergents of %lld / %lld", p, q); for (size_t i = 1; i < cv.size(); i++) SIM_CHECK(llabs(cv[i].first * cv[i - 1].second - cv[i].second * cv[i - 1].first) == 1, "wrong-answer", "convergents %zu of %lld / %lld", i, p, q); seen_state("fraction", mix(p, q));
    } else if (kind == 7) {
        LL n = (LL)(bits64() >> (1 + choose(62))), b = 2 + choose(35); int len = choose(12); LV d; compute("integer_digits", [&]() { LV x = am::integer_digits<LL, LL>(n, b, len); d.swap(x); }, none, 4); LL back = 0; for (size_t i = d.size(); i-- > 0;) { SIM_CHECK(0 <= d[i] && d[i] < b, "wrong-answer", "digit %lld in base %lld", d[i], b); back = back * b + d[i]; } SIM_CHECK(back == n && (int)d.size() >= len && (d.empty() || (int)d.size() == len || d.back() != 0), "wrong-answer", "digits of %lld", n);
        std::string s; LV d0 = d; compute("integer_string", [&]() { std::string x = am::integer_string(d); s.swap(x); }, [&](bool) { SIM_CHECK(d == d0, "input-changed", "digits have changed"); }, 2); SIM_CHECK(s.size() == d.size(), "wrong-answer", "integer_string"); for (size_t i = 0; i < s.size(); i++) { LL x = d[d.size() - 1 - i]; SIM_CHECK(s[i] == (x < 10 ? '0' + x : 'a' + x - 10), "wrong-answer", "integer_string: digit %zu", i); } seen_state("digits", mix(n, b));
    } else if (kind == 8) {
        int n = 1 + choose(14), k = 1 + choose(14); bool second = choose(2); std::vector<ZV> out; compute("stirling", [&]() { auto x = second ? am::stirling_s2_all<Z>(n, k) : am::stirling_s1_all<Z>(n, k); out.swap(x); }, none, 10); std::vector<LV> w(n, LV(n + 1)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) w[i][j] = i == 0 ? 1 : md((j ? w[i - 1][j - 1] : 0) + (second ? (LL)j : -(LL)(i - 1)) * w[i - 1][j]); SIM_CHECK((int)out.size() == n, "wrong-answer", "stirling: rows"); for (int i = 0; i < n; i++) { SIM_CHECK((int)out[i].size() == std::min(i + 1, k), "wrong-answer", "stirling: row %d has %zu", i, out[i].size()); for (size_t j = 0; j < out[i].size(); j++) SIM_CHECK(out[i][j].v() == w[i][j], "wrong-answer", "stirling(%d, %zu)", i, j); }
        ZV row; int rn = choose(12); compute("stirling row", [&]() { ZV x = second ? am::stirling_s2_all_k_for_n<Z>(rn) : am::stirling_s1_all_k_for_n<Z>(rn); row.swap(x); }, none, 12); LV r(rn + 1); r[0] = 1; for (int i = 1; i <= rn; i++) { LV q(rn + 1); for (int j = 0; j <= i; j++) q[j] = md((j ? r[j - 1] : 0) + (second ? (LL)j : -(LL)(i - 1)) * (j < i ? r[j] : 0)); r = q; } IV got = ints(row); got.resize(rn + 1); IV want; for (LL x : r) want.push_back((int)x); equal("stirling row", got, want); seen_state("stirling", mix(n * 20 + k, rn * 2 + second));
    } else if (kind == 9) {
        int n = 1 + choose(30), what = choose(5); ZV out; const char* nm[] = {"partitions_p_slow", "partitions_p", "partitions_p_distinct_slow", "partitions_p_distinct", "partitions_p_distinct_odd"}; compute(nm[what], [&]() { ZV x = what == 0 ? am::partitions_p_slow<Z>(n) : what == 1 ? am::partitions_p<Z>(n) : what == 2 ? am::partitions_p_distinct_slow<Z>(n) : what == 3 ? am::partitions_p_distinct<Z>(n) : am::partitions_p_distinct_odd<Z>(n); out.swap(x); }, none, 12);
        LV w(n); w[0] = 1; for (int k = 1; k < n; k += what == 4 ? 2 : 1) if (what < 2) for (int i = k; i < n; i++) w[i] = md(w[i] + w[i - k]); else for (int i = n - 1; i >= k; i--) w[i] = md(w[i] + w[i - k]); IV got = ints(out), want; got.resize(n); for (LL x : w) want.push_back((int)x); equal(nm[what], got, want); seen_state(nm[what], n);
    } else if (kind == 10) {
        static const int DS[] = {2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15}; LL D = DS[choose(12)], N = 1 + choose(20); if (choose(2)) N = -N; LL xm = 50 + choose(3000); int cnt = choose(2) ? 0 : 1 + (int)choose(6); auto f = factor(llabs(N)), f0 = f; typedef std::pair<LL, LL> PL; std::vector<PL> ref, got; got.reserve(400); auto go = [&](std::function<void(const am::quadraticX<LL>&)> v) { am::pell<LL>(D, N, f, xm, (LL)0, cnt, v); }; go([&](const am::quadraticX<LL>& s) { ref.push_back(PL(s.a, s.b)); });
        for (auto& s : ref) SIM_CHECK(s.first * s.first - D * s.second * s.second == N && s.first <= xm && s.first >= 0 && s.second >= 0, "wrong-answer", "pell %lld %lld: %lld %lld is no solution", D, N, s.first, s.second); SIM_CHECK(!cnt || (int)ref.size() <= cnt, "wrong-answer", "pell: too many solutions");
        compute("pell", [&]() { got.clear(); go([&](const am::quadraticX<LL>& s) { fp_point(FP_USER); NoFault nf; SIM_CHECK(got.size() < ref.size(), "wrong-calls", "pell: called too often"); got.push_back(PL(s.a, s.b)); }); }, [&](bool failed) { SIM_CHECK(f == f0, "input-changed", "the factorisation has changed"); SIM_CHECK(std::equal(got.begin(), got.end(), ref.begin()) && (failed || got.size() == ref.size()), "wrong-calls", "pell: called for others than before"); }, 7); seen_state("pell", mix(mix(D, N + 100), xm));
    } else {
        struct CE { int v; bool operator<(const CE& o) const { fp_point(FP_CMP); return v < o.v; } }; IV m = gen(8, 20); std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); int n = (int)m.size(), k = (int)choose(n + 1); std::set<IV> combos; for (int s = 0; s < (1 << n); s++) if (__builtin_popcount(s) == k) { IV c; for (int i = 0; i < n; i++) if (s >> i & 1) c.push_back(m[i]); combos.insert(c); }
        std::vector<CE> v; for (int x : m) v.push_back({x}); for (auto it = combos.begin(); it != combos.end();) { IV c; for (int i = 0; i < k; i++) c.push_back(v[i].v); equal("next_combination", c, *it, m); std::vector<CE> before = v; bool more = false; ++it;
            compute("next_combination", [&]() { more = am::next_combination(v.begin(), v.begin() + k, v.end()); }, [&](bool failed) { IV all; for (auto& e : v) all.push_back(e.v); for (int x : all) SIM_CHECK(std::find(m.begin(), m.end(), x) != m.end(), "invalid-value", "next_combination: %d was not there", x); if (failed) { v = before; return; } std::sort(all.begin(), all.end()); equal("next_combination: elements", all, m, m); }, 4); equal("next_combination: more", more, it != combos.end() && k > 0, m); if (!more) break; }
        seen_state("combination", mix(hv(m), k));
    }
}

static void one(void (*f)()) { Leak l; f(); l.check(); }
#ifdef P_D12
SIM_SCENARIO(D12, collections, 3) { one(collections); }
SIM_SCENARIO(D12, searches, 3) { one(searches); }
SIM_SCENARIO(D12, tables, 3) { one(tables); }
SIM_SCENARIO(D12, convolutions, 3) { one(convolutions); }
SIM_SCENARIO(D12, transforms, 3) { one(transforms); }
SIM_SCENARIO(D12, expressions, 2) { one(expressions); }
SIM_SCENARIO(D12, numbers, 4) { one(numbers); }
#endif
