// D10: arithmetic on polynomials, series, matrices, permutations, vectors and
// factorisations with allocations and coefficient operations failing inside.
// Values live in slots with plain models beside them; a failed operation must
// leave every operand as it was, its target valid, nothing leaked, and work
// when it is made again.
#include "../sim/env.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/polynoms.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/series.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
using namespace sim;
namespace am = altruct::math;

// ---------------------------------------------------------------- coefficients: a prime field whose every operation can fail
static const int P = 10007;
static int inv_mod(int a) { int r = 1, e = P - 2; long long b = a; while (e) { if (e & 1) r = (int)(r * b % P); b = b * b % P; e >>= 1; } return r; }
static int md(long long x) { x %= P; return (int)(x < 0 ? x + P : x); }
struct Z {
    Elem e;
    Z() : e(0) {} Z(int v) : e(md(v)) {} Z(int64_t v) : e(md(v)) {}
    int v() const { return e.get(); }
    Z& operator+=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() + r.v())); return *this; }
    Z& operator-=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() - r.v())); return *this; }
    Z& operator*=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() * r.v())); return *this; }
    Z& operator/=(const Z& r) { fp_point(FP_USER); e = Elem(md((long long)v() * inv_mod(r.v()))); return *this; }
    Z operator+(const Z& r) const { Z t(*this); t += r; return t; } Z operator-(const Z& r) const { Z t(*this); t -= r; return t; }
    Z operator*(const Z& r) const { Z t(*this); t *= r; return t; } Z operator/(const Z& r) const { Z t(*this); t /= r; return t; }
    Z operator-() const { fp_point(FP_USER); return Z(-(int64_t)v()); }
    bool operator==(const Z& r) const { return e == r.e; } bool operator!=(const Z& r) const { return !(e == r.e); }
    bool operator<(const Z& r) const { return e < r.e; } bool operator>(const Z& r) const { return r.e < e; }
};
typedef std::vector<int> IV;
static int rd(const Z& z) { int x = z.v(); SIM_CHECK(0 <= x && x < P, "invalid-value", "a coefficient is %d, which is none", x); return x; }
static int rnd() { int k = choose(8); return k < 2 ? 0 : k < 3 ? 1 : k < 4 ? P - 1 : (int)choose(P); }
static int rnd1() { return 1 + (int)choose(P - 1); }
static std::vector<Z> zs(const IV& m) { std::vector<Z> c; c.reserve(m.size()); for (int x : m) c.push_back(Z(x)); return c; }
static uint64_t hv(const IV& v) { uint64_t h = v.size(); for (int x : v) h = mix(h, (uint64_t)x + 1); return h; }
static std::string show(const IV& v) { std::string s; char b[16]; for (size_t i = 0; i < v.size() && i < 14; i++) { snprintf(b, sizeof b, "%d ", v[i]); s += b; } if (v.size() > 14) s += "..."; return s; }

// models: dense polynomials
static IV trim(IV a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
static IV cut(IV a, int n) { a.resize(n); return a; }
static IV add(const IV& a, const IV& b, int s = 1) { IV r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = md((i < a.size() ? a[i] : 0) + (long long)s * (i < b.size() ? b[i] : 0)); return r; }
static IV mul(const IV& a, const IV& b) { if (a.empty() || b.empty()) return IV(); std::vector<long long> r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + (long long)a[i] * b[j]) % P; return IV(r.begin(), r.end()); }
static IV scale(IV a, int s) { for (int& x : a) x = md((long long)x * s); return a; }
static void divmod(IV a, IV b, IV& q, IV& r) { a = trim(a); b = trim(b); q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0); int li = inv_mod(b.back()); for (int i = (int)q.size() - 1; i >= 0; i--) { int s = md((long long)a[i + b.size() - 1] * li); q[i] = s; for (size_t j = 0; j < b.size(); j++) a[i + j] = md(a[i + j] - (long long)s * b[j]); } r = trim(a); q = trim(q); }
static IV inverse(const IV& a, int n) { IV r(n); int i0 = inv_mod(a[0]); for (int k = 0; k < n; k++) { long long s = k == 0; for (int j = 1; j <= k; j++) if (j < (int)a.size()) s -= (long long)a[j] * r[k - j] % P; r[k] = md((long long)md(s) * i0); } return r; }
static IV deriv(const IV& a) { IV r; for (size_t i = 1; i < a.size(); i++) r.push_back(md((long long)a[i] * (long long)i)); return r; }
static IV integ(const IV& a, int c0) { IV r(1, c0); for (size_t i = 0; i < a.size(); i++) r.push_back(md((long long)a[i] * inv_mod(md((long long)i + 1)))); return r; }
static int eval(const IV& a, int x) { long long r = 0; for (size_t i = a.size(); i-- > 0;) r = (r * x + a[i]) % P; return (int)r; }
static IV powm(const IV& a, int k, int n) { IV r(1, 1); for (int i = 0; i < k; i++) { r = mul(r, a); if (n >= 0) r = cut(r, n); } if (n >= 0) r = cut(r, n); return r; }
static IV compose(const IV& a, const IV& b, int n) { IV r(n, 0); for (size_t i = a.size(); i-- > 0;) { r = cut(mul(r, b), n); r[0] = md(r[0] + a[i]); } return r; }
static IV lnm(const IV& a, int n) { IV s = mul(cut(deriv(a), n), inverse(a, n)); return cut(integ(cut(s, n), 0), n); }
static IV expm(const IV& a, int n) { IV r(n); r[0] = 1; for (int k = 1; k < n; k++) { long long s = 0; for (int j = 1; j <= k; j++) if (j < (int)a.size()) s = (s + (long long)j * a[j] % P * r[k - j]) % P; r[k] = md(s * inv_mod(k)); } return r; }
static IV revm(const IV& a, int n) { IV u(n + 1); for (int i = 0; i < n && i + 1 < (int)a.size(); i++) u[i] = a[i + 1]; IV w = inverse(u, n); IV r(n); IV t(1, 1); t.resize(n); for (int k = 1; k < n; k++) { t = cut(mul(t, w), n); r[k] = md((long long)t[k - 1] * inv_mod(k)); } return r; }

// ---------------------------------------------------------------- the driver
template<typename V> struct Op {
    const char* name; std::function<void()> f;             // f reads slots and writes slot `dest` or `res`, `out`
    int dest; bool has_res; IV expect; IV out; bool cheap;
    Op() : name(nullptr), dest(-1), has_res(false), cheap(false) {}
};
static IV g_out;    // numbers an operation returns
static const int MASKS[] = {FP_ALL, FP_ALL, FP_ALLOC, FP_COPY | FP_USER, FP_USER, FP_CMP, FP_COPY};
static bool run(const char* name, const std::function<void()>& f, bool fault, bool heavy) {
    bool threw = false; if (fault) { int m = MASKS[choose(7)]; fp_arm(1 + (choose(3) ? choose(1u << (1 + choose(heavy ? 13 : 9))) : choose(6)), m); }
    try { f(); } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
    bool fired = fp_disarm() && fault; if (threw) { log("%s failed", name); probe("operation-failed"); }
    SIM_CHECK(fired == threw, fired ? "swallowed" : "refused", fired ? "%s: a failure did not reach the caller" : "%s: failed without a reason", name); return threw;
}
// K: V value, setup(), gen() -> model, make(model) -> V*, read(V) -> model (checks that the value is valid), poke(V), pick(ctx) -> Op
template<typename K> static auto settle(typename K::V& v, int) -> decltype(K::settle(v)) { K::settle(v); }
template<typename K> static void settle(typename K::V&, long) {}
template<typename K> struct Ctx { std::vector<std::unique_ptr<typename K::V>>& s; std::vector<IV>& m; std::unique_ptr<typename K::V>& res; int d, i, j; };
template<typename K> static void arith(const char* name, int max_ops) {
    typedef typename K::V V; uint64_t lb = live_blocks(); int64_t le = Elem::live; set_crash_class(name); K::setup();
    {
        std::vector<std::unique_ptr<V>> s; std::vector<IV> m; std::unique_ptr<V> res; int n = 2 + choose(3), ops = 2 + small(max_ops);
        for (int i = 0; i < n; i++) { m.push_back(K::gen()); s.emplace_back(K::make(m.back())); }
        auto all = [&](const char* when, const char* op, int except) { for (int i = 0; i < n; i++) if (i != except) { IV got = K::read(*s[i]); SIM_CHECK(got == m[i], "operand-changed", "%s %s value %d is [%s] instead of [%s]", when, op, i, show(got).c_str(), show(m[i]).c_str()); } };
        for (int t = 0; t < ops; t++) {
            Ctx<K> x{s, m, res, (int)choose(n), (int)choose(n), (int)choose(n)}; Op<V> o; g_out.clear();
            int k = choose(16);
            if (k == 0) { IV g = K::gen(); x.m[x.d] = g; s[x.d].reset(K::make(g)); log("new %d", x.d); continue; }
            else if (k == 1) { V* a = s[x.i].get(); V* d = s[x.d].get(); o.name = "assign"; o.dest = x.d; o.expect = m[x.i]; o.f = [=]() { *d = *a; }; }
            else if (k == 2) { const V* a = s[x.i].get(); o.name = "copy"; o.has_res = true; o.expect = m[x.i]; auto* r = &res; o.f = [=]() { r->reset(new V(*a)); }; }
            else if (k == 3) { if (x.i == x.d) continue; std::swap(*s[x.i], *s[x.d]); std::swap(m[x.i], m[x.d]); log("swap %d %d", x.i, x.d); all("after", "swap", -1); continue; }
            else { K::pick(x, o); if (!o.name || !o.f) continue; }
            if (o.has_res) o.dest = -1;
            IV before = o.dest >= 0 ? m[o.dest] : IV(); bool heavy = false; for (auto& v : m) heavy |= v.size() > 20;
            log("%s %d %d %d", o.name, x.d, x.i, x.j);
            bool failed = run(o.name, o.f, choose(4) != 0, heavy);
            if (failed) {
                SIM_CHECK(!res, "harness", "a result in spite of a failure");
                all("after the failed", o.name, o.dest);
                if (o.dest >= 0) {
                    int how = choose(4); settle<K>(*s[o.dest], 0); IV left = K::read(*s[o.dest]);
                    if (how == 3) { m[o.dest] = left; K::poke(*s[o.dest]); all("after using the result of the failed", o.name, -1); probe("kept-leftover"); state(mix(3, hv(left))); continue; }
                    if (how == 2) { int q = choose(n); m[o.dest] = q == o.dest ? left : m[q]; *s[o.dest] = *s[q]; all("after reassigning the target of", o.name, -1); probe("reassigned"); continue; }
                    if (how == 1) { log("destroyed"); s[o.dest].reset(K::make(before)); continue; }
                    std::unique_ptr<V> f(K::make(before)); *s[o.dest] = *f; m[o.dest] = before; all("after reassigning the target of", o.name, -1);
                } else if (choose(4) == 0) continue;
                g_out.clear(); run(o.name, o.f, false, false); probe("repeated");
            }
            IV got = o.has_res ? K::read(*res) : o.dest >= 0 ? K::read(*s[o.dest]) : IV();
            SIM_CHECK(got == o.expect, "wrong-answer", "%s%s gave [%s] instead of [%s]", o.name, failed ? " made again" : "", show(got).c_str(), show(o.expect).c_str());
            SIM_CHECK(g_out == o.out, "wrong-answer", "%s%s returned %s instead of %s", o.name, failed ? " made again" : "", show(g_out).c_str(), show(o.out).c_str());
            if (o.dest >= 0) m[o.dest] = o.expect;
            if (o.has_res) { if (choose(2)) { *s[x.d] = std::move(*res); m[x.d] = o.expect; } res.reset(); }
            all("after", o.name, -1); uint64_t h = o.name[0] + 256u * o.name[1]; for (auto& v : m) h = mix(h, hv(v)); state(h);
        }
    }
    SIM_CHECK(Elem::live == le, "elements-leak", "%lld elements remain", (long long)(Elem::live - le));
    IV().swap(g_out); SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb));
}
#define RES(...) do { o.has_res = true; auto* r = &x.res; o.f = [=]() { r->reset(new V(__VA_ARGS__)); }; } while (0)
#define INP(...) do { o.dest = x.d; o.f = [=]() { __VA_ARGS__; }; } while (0)
#define OUT(...) do { o.f = [=]() { __VA_ARGS__; }; } while (0)
static int cmpm(const IV& a, const IV& b) { for (size_t i = std::max(a.size(), b.size()); i-- > 0;) { int p = i < a.size() ? a[i] : 0, q = i < b.size() ? b[i] : 0; if (p != q) return p < q ? -1 : 1; } return 0; }

// ---------------------------------------------------------------- polynomials
struct PolyK {
    typedef am::polynom<Z> V;
    static void setup() {}
    static IV gen() { int n = choose(12) == 0 ? 48 + (int)choose(70) : (int)small(10); IV m; for (int i = 0; i < n; i++) m.push_back(rnd()); if (n && choose(2)) m[n - 1] = 1; return trim(m); }
    static V* make(const IV& m) {
        std::vector<Z> c = zs(m); int pad = choose(3); V* v = nullptr;
        switch (choose(4)) { case 0: v = new V(c); break; case 1: v = new V(std::move(c)); break; case 2: v = new V(c.begin(), c.end()); break; default: v = new V(); for (size_t i = 0; i < m.size(); i++) (*v)[(int)i] = Z(m[i]); }
        if (pad) v->reserve((int)m.size() + pad); return v;
    }
    static IV read(const V& v) { IV r; SIM_CHECK(rd(v.ZERO_COEFF) == 0, "invalid-value", "a polynomial's zero is %d", v.ZERO_COEFF.v()); for (auto& c : v.c) r.push_back(rd(c)); return trim(r); }
    static void poke(V& v) { IV a = read(v); V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); int x = choose(P); SIM_CHECK(rd(v.eval(Z(x))) == eval(a, x), "invalid-value", "wrong value at %d", x); SIM_CHECK(read(v * v) == trim(mul(a, a)), "invalid-value", "wrong square"); SIM_CHECK(read(v.derivative()) == trim(deriv(a)), "invalid-value", "wrong derivative"); }
    static void pick(Ctx<PolyK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; IV q, r; int v = rnd(), v1 = rnd1();
        int cap = 140; bool mulok = A.size() + B.size() < (size_t)cap * 2, dok = A.size() + D.size() < (size_t)cap;
        switch (choose(36)) {
            case 0: o.name = "a + b"; o.expect = trim(add(A, B)); RES(*a + *b); break;
            case 1: o.name = "a - b"; o.expect = trim(add(A, B, -1)); RES(*a - *b); break;
            case 2: case 3: if (!mulok) return; o.name = "a * b"; o.expect = trim(mul(A, B)); RES(*a * *b); break;
            case 4: if (B.empty()) return; divmod(A, B, q, r); o.name = "a / b"; o.expect = q; RES(*a / *b); break;
            case 5: if (B.empty()) return; divmod(A, B, q, r); o.name = "a % b"; o.expect = r; RES(*a % *b); break;
            case 6: o.name = "-a"; o.expect = trim(scale(A, -1)); RES(-*a); break;
            case 7: o.name = "a * s"; o.expect = trim(scale(A, v)); RES(*a * Z(v)); break;
            case 8: o.name = "a / s"; o.expect = trim(scale(A, inv_mod(v1))); RES(*a / Z(v1)); break;
            case 9: o.name = "d += a"; o.expect = trim(add(D, A)); INP(*d += *a); break;
            case 10: o.name = "d -= a"; o.expect = trim(add(D, A, -1)); INP(*d -= *a); break;
            case 11: if (!dok) return; o.name = "d *= a"; o.expect = trim(mul(D, A)); INP(*d *= *a); break;
            case 12: if (A.empty() || x.i == x.d) return; divmod(D, A, q, r); o.name = "d /= a"; o.expect = q; INP(*d /= *a); break;
            case 13: if (A.empty() || x.i == x.d) return; divmod(D, A, q, r); o.name = "d %= a"; o.expect = r; INP(*d %= *a); break;
            case 14: o.name = "d *= s"; o.expect = trim(scale(D, v)); INP(*d *= Z(v)); break;
            case 15: o.name = "d /= s"; o.expect = trim(scale(D, inv_mod(v1))); INP(*d /= Z(v1)); break;
            case 16: o.name = "add(d, a, b)"; o.expect = trim(add(A, B)); INP(V::add(*d, *a, *b)); break;
            case 17: o.name = "sub(d, a, b)"; o.expect = trim(add(A, B, -1)); INP(V::sub(*d, *a, *b)); break;
            case 18: { if (!mulok) return; int l = choose(3) ? -1 : (int)choose((uint32_t)(A.size() + B.size()) + 4); IV e = mul(A, B); if (l >= 0) e = cut(e, l + 1); o.name = "mul(d, a, b)"; o.expect = trim(e); INP(V::mul(*d, *a, *b, l)); break; }
            case 19: o.name = "neg(d, a)"; o.expect = trim(scale(A, -1)); INP(V::neg(*d, *a)); break;
            case 20: if (B.empty() || x.j == x.d) return; divmod(A, B, q, r); o.name = "div(d, a, b)"; o.expect = q; INP(V::div(*d, *a, *b)); break;
            case 21: if (B.empty() || x.j == x.d) return; divmod(A, B, q, r); o.name = "mod(d, a, b)"; o.expect = r; INP(V::mod(*d, *a, *b)); break;
            case 22: { if (B.empty() || x.j == x.d) return; divmod(A, B, q, r); IV e = cut(r, std::max<int>(A.size(), B.size() - 1)); for (size_t i = 0; i < q.size(); i++) e[i + B.size() - 1] = q[i]; o.name = "quot_rem_hensel"; o.expect = trim(e); INP(V::quot_rem_hensel(*d, *a, *b)); break; }
            case 23: { if (B.empty() || x.j == x.d) return; divmod(A, B, q, r); IV e = cut(r, std::max<int>(A.size(), B.size() - 1)); for (size_t i = 0; i < q.size(); i++) e[i + B.size() - 1] = q[i]; o.name = "quot_rem_long"; o.expect = trim(e); INP(V::quot_rem_long(*d, *a, *b)); break; }
            case 24: case 25: { if (A.empty()) return; int L = 1 + small(30); o.name = "inverse"; o.expect = A[0] ? trim(inverse(A, L)) : IV(); RES(a->inverse(L)); break; }
            case 26: { IV e = A; std::reverse(e.begin(), e.end()); o.name = "reverse"; o.expect = trim(e); RES(a->reverse()); break; }
            case 27: o.name = "derivative"; o.expect = trim(deriv(A)); RES(a->derivative()); break;
            case 28: o.name = "integral"; o.expect = trim(integ(A, v)); RES(a->integral(Z(v))); break;
            case 29: o.name = "eval"; o.out = IV(1, eval(A, v)); OUT(g_out = IV(1, rd((*a)(Z(v))))); break;
            case 30: { if (A.size() > 20 || B.size() > 6) return; o.name = "substitution"; IV e; for (size_t i = A.size(); i-- > 0;) { e = mul(e, B); if (e.empty()) e.push_back(0); e[0] = md(e[0] + A[i]); } o.expect = trim(e); RES((*a)(*b)); break; }
            case 31: { int k = small(5); if (A.size() > 8) return; o.name = "power"; o.expect = trim(powm(A, k, -1)); RES(am::powT(*a, k)); break; }
            case 32: { o.name = "compare"; int c = cmpm(A, B); o.out = IV{c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0, A.empty() ? 0 : (int)A.size() - 1}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b, a->deg()})); break; }
            case 33: { int p = small(14); IV e = D; if ((int)e.size() <= p) e.resize(p + 1); e[p] = v; o.name = "d[i] = v"; o.expect = trim(e); INP((*d)[p] = Z(v)); break; }
            case 34: { int n = choose(4) == 0 ? 0 : small(14); o.name = "resize"; o.expect = trim(cut(D, n)); INP(d->resize(n)); break; }
            default: o.name = "shrink_to_fit"; o.expect = D; INP(d->shrink_to_fit());
        }
    }
};
#if defined P_D10 || defined P_C08
SIM_SCENARIO(D10, polynomials, 4) { arith<PolyK>("polynom", 40); }
#endif

// ---------------------------------------------------------------- series
template<int ID, int ST> struct SerK {
    typedef am::series<Z, ID, ST> V; static int fixed() { return ST == am::series_storage::INSTANCE ? 0 : V::N(); }
    struct V0 : V { using V::V; };
    static void setup_n(int n, std::integral_constant<int, am::series_storage::STATIC>) { V::refN() = n; }
    template<int X> static void setup_n(int, std::integral_constant<int, X>) {}
    static void setup() { setup_n(1 + small(16), std::integral_constant<int, ST>()); }
    static IV gen() { int n = fix(std::integral_constant<int, ST>()); IV m; for (int i = 0; i < n; i++) m.push_back(rnd()); int k = choose(6); if (k == 0) m[0] = 1; else if (k < 3) { m[0] = 0; if (k == 2 && n > 1) m[1] = rnd1(); } else if (k < 5) m[0] = rnd1(); return m; }
    static int fix(std::integral_constant<int, am::series_storage::INSTANCE>) { return choose(10) == 0 ? 30 + (int)choose(30) : choose(3) ? 7 : 1 + (int)small(14); }
    template<int X> static int fix(std::integral_constant<int, X>) { return V::N(); }
    static V* make(const IV& m) { std::vector<Z> c = zs(m); switch (choose(4)) { case 0: return new V(c); case 1: return new V(std::move(c)); case 2: return new V(c.begin(), c.end()); default: return new V(am::polynom<Z>(c), (int)m.size()); } }
    static IV read(const V& v) { IV r; SIM_CHECK(rd(v.p.ZERO_COEFF) == 0, "invalid-value", "a series' zero is %d", v.p.ZERO_COEFF.v()); SIM_CHECK(v.N() == v.size() && v.p.size() >= v.N(), "invalid-value", "a series to order %d has %d coefficients", v.N(), v.p.size()); for (auto& c : v.p.c) r.push_back(rd(c)); while ((int)r.size() > v.N()) { SIM_CHECK(r.back() == 0, "invalid-value", "a series to order %d has more coefficients", v.N()); r.pop_back(); } return r; }   // libc++ may leave zeros behind when resize() fails
    static void poke(V& v) { IV a = read(v); int n = (int)a.size(); V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); SIM_CHECK(read(v * v) == cut(mul(a, a), n), "invalid-value", "wrong square"); int l = choose(n + 1); IV e(n); for (int i = l; i < n; i++) e[i] = a[i - l]; SIM_CHECK(read(v.shift(l)) == e, "invalid-value", "wrong shift"); if (a[0] == 0) SIM_CHECK(read(v.exp()) == expm(a, n), "invalid-value", "wrong exponential"); if (a[0] != 0) SIM_CHECK(read(v.inverse()) == inverse(a, n), "invalid-value", "wrong inverse"); }
    static void pick(Ctx<SerK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int n = (int)A.size(), nd = (int)D.size(), v = rnd(), v1 = rnd1(); bool small_n = n <= 16;
        bool nz = true; for (int c : A) nz &= c != 0;
        switch (choose(34)) {
            case 0: o.name = "a + b"; o.expect = cut(add(A, B), n); RES(*a + *b); break;
            case 1: o.name = "a - b"; o.expect = cut(add(A, B, -1), n); RES(*a - *b); break;
            case 2: o.name = "a * b"; o.expect = cut(mul(A, B), n); RES(*a * *b); break;
            case 3: if (!B[0] || (int)B.size() < n) return; o.name = "a / b"; o.expect = cut(mul(A, inverse(B, (int)B.size())), n); RES(*a / *b); break;
            case 4: o.name = "-a"; o.expect = scale(A, -1); RES(-*a); break;
            case 5: o.name = "a * s"; o.expect = scale(A, v); RES(*a * Z(v)); break;
            case 6: o.name = "a / s"; o.expect = scale(A, inv_mod(v1)); RES(*a / Z(v1)); break;
            case 7: case 8: o.name = "d += a"; o.expect = cut(add(D, A), nd); INP(*d += *a); break;
            case 9: o.name = "d -= a"; o.expect = cut(add(D, A, -1), nd); INP(*d -= *a); break;
            case 10: case 11: o.name = "d *= a"; o.expect = cut(mul(D, A), nd); INP(*d *= *a); break;
            case 12: if (!A[0] || n < nd) return; o.name = "d /= a"; o.expect = cut(mul(D, inverse(A, n)), nd); INP(*d /= *a); break;
            case 13: o.name = "d *= s"; o.expect = scale(D, v); INP(*d *= Z(v)); break;
            case 14: o.name = "d /= s"; o.expect = scale(D, inv_mod(v1)); INP(*d /= Z(v1)); break;
            case 15: if (!A[0]) return; o.name = "inverse"; o.expect = inverse(A, n); RES(a->inverse()); break;
            case 16: o.name = "derivative"; o.expect = cut(deriv(A), n); RES(a->derivative()); break;
            case 17: o.name = "integral"; o.expect = cut(integ(A, v), n); RES(a->integral(Z(v))); break;
            case 18: { IV e = A; for (int i = 0; i < n; i++) e[i] = i < (int)B.size() ? md((long long)A[i] * B[i]) : 0; o.name = "pointwise product"; o.expect = e; RES(a->pointwise_mul(*b)); break; }
            case 19: { IV e = A; for (int& c : e) c = c ? inv_mod(c) : 0; o.name = "pointwise inverse"; o.expect = e; RES(a->template pointwise_inv<false>()); break; }
            case 20: { if (!nz) return; IV e = A; for (int& c : e) c = inv_mod(c); o.name = "pointwise inverse of units"; o.expect = e; RES(a->template pointwise_inv<true>()); break; }
            case 21: { int l = (int)choose(2 * n + 1) - n; IV e(n); for (int i = 0; i < n; i++) if (0 <= i - l && i - l < n) e[i] = A[i - l]; o.name = "shift"; o.expect = e; RES(a->shift(l)); break; }
            case 22: { IV e = A; long long q = 1; for (int i = 0; i < n; i++) { e[i] = md(e[i] * q); q = q * v % P; } o.name = "s(x*a)"; o.expect = e; RES(a->sub_mul(Z(v))); break; }
            case 23: { int k = small(4); IV e(n); if (k > 0) for (int i = 0, j = 0; i < n; i += k, j++) e[i] = A[j]; o.name = "s(x^a)"; o.expect = e; RES(a->sub_pow(k)); break; }
            case 24: case 25: if (!small_n || (int)B.size() != n) return; o.name = "composition"; o.expect = compose(A, B, n); RES((*a)(*b)); break;
            case 26: if (!small_n || n < 2 || A[0] || !A[1]) return; o.name = "reversion"; o.expect = revm(A, n); RES(a->reversion()); break;
            case 27: if (A[0]) return; o.name = "exp"; o.expect = expm(A, n); RES(a->exp()); break;
            case 28: if (A[0] != 1) return; o.name = "ln"; o.expect = lnm(A, n); RES(a->ln()); break;
            case 29: { int k = small(9); if (!small_n) return; o.name = "power"; o.expect = powm(A, k, n); RES(a->pow(k)); break; }
            case 30: { int k = 200 + choose(30); if (!small_n || !A[0]) return; o.name = "large power"; o.expect = powm(A, k, n); RES(a->pow(k)); break; }
            case 31: { int p = choose(nd); IV e = D; e[p] = v; o.name = "d[i] = v"; o.expect = e; INP((*d)[p] = Z(v)); break; }
            case 32: { IV e(n); long long f = 1; for (int i = 0; i < n; i++) { if (i) f = f * i % P; e[i] = md(A[i] * (v & 1 ? f : inv_mod((int)f))); } bool ord = v & 1; o.name = ord ? "make_ordinary" : "make_exponential"; o.expect = e; RES(ord ? a->make_ordinary() : a->make_exponential()); break; }
            default: resize(x, o, std::integral_constant<int, ST>());
        }
    }
    static void resize(Ctx<SerK>& x, Op<V>& o, std::integral_constant<int, am::series_storage::INSTANCE>) { V* d = x.s[x.d].get(); int n = 1 + small(20); o.name = "resize"; o.expect = cut(x.m[x.d], n); INP(d->resize(n)); }
    template<int X> static void resize(Ctx<SerK>&, Op<V>&, std::integral_constant<int, X>) {}
};
#if defined P_D10 || defined P_C08
SIM_SCENARIO(D10, series, 3) { arith<SerK<0, am::series_storage::INSTANCE>>("series", 40); }
SIM_SCENARIO(D10, series_of_a_fixed_order, 1) { arith<SerK<7, am::series_storage::CONSTANT>>("series", 40); }
SIM_SCENARIO(D10, series_of_a_shared_order, 1) { arith<SerK<5, am::series_storage::STATIC>>("series", 40); }
#endif

// ---------------------------------------------------------------- matrices; model: rows, columns, entries
struct MatK {
    typedef am::matrix<Z> V;
    static void setup() {}
    static IV gen() { int n = 1 + small(5), m = choose(3) ? n : 1 + small(5); if (choose(2)) n = m = 3; IV r{n, m}; bool sparse = choose(3) == 0; for (int i = 0; i < n * m; i++) r.push_back(sparse && choose(2) ? 0 : rnd()); return r; }
    static V* make(const IV& m) { V* v = new V(m[0], m[1]); for (int i = 0; i < m[0]; i++) for (int j = 0; j < m[1]; j++) (*v)[i][j] = Z(m[2 + i * m[1] + j]); return v; }
    static IV read(const V& v) { int n = v.rows(), m = v.cols(); IV r{n, m}; for (int i = 0; i < n; i++) { SIM_CHECK((int)v[i].size() == m, "invalid-value", "row %d of a %d x %d matrix has %d entries", i, n, m, (int)v[i].size()); for (auto& z : v[i]) r.push_back(rd(z)); } if (n == 0) r[1] = 0; return r; }
    static void poke(V& v) { IV a = read(v); V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); if (a[0] && a[1]) { SIM_CHECK(read(v.transpose()) == transp(a), "invalid-value", "wrong transpose"); SIM_CHECK(read(v + v) == lin(a, a, 1), "invalid-value", "wrong sum"); } }
    static IV lin(const IV& a, const IV& b, int s) { IV r = a; for (size_t i = 2; i < a.size(); i++) r[i] = md(a[i] + (long long)s * b[i]); return r; }
    static IV transp(const IV& a) { IV r{a[1], a[0]}; for (int j = 0; j < a[1]; j++) for (int i = 0; i < a[0]; i++) r.push_back(a[2 + i * a[1] + j]); return r; }
    static IV prod(const IV& a, const IV& b) { IV r{a[0], b[1]}; for (int i = 0; i < a[0]; i++) for (int j = 0; j < b[1]; j++) { long long s = 0; for (int k = 0; k < a[1]; k++) s += (long long)a[2 + i * a[1] + k] * b[2 + k * b[1] + j] % P; r.push_back(md(s)); } return r; }
    static IV ident(int n) { IV r{n, n}; for (int i = 0; i < n * n; i++) r.push_back(i % (n + 1) == 0); return r; }
    static IV sc(const IV& a, int s) { IV r = a; for (size_t i = 2; i < a.size(); i++) r[i] = md((long long)a[i] * s); return r; }
    static bool solve(const IV& a, IV& inv, int& det) { int n = a[0]; std::vector<IV> m(n, IV(2 * n)); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m[i][j] = a[2 + i * n + j]; m[i][n + i] = 1; } long long dt = 1; for (int c = 0; c < n; c++) { int p = c; while (p < n && !m[p][c]) p++; if (p == n) { det = 0; return false; } if (p != c) { std::swap(m[p], m[c]); dt = P - dt; } dt = dt * m[c][c] % P; int q = inv_mod(m[c][c]); for (int& z : m[c]) z = md((long long)z * q); for (int i = 0; i < n; i++) if (i != c && m[i][c]) { int f = m[i][c]; for (int j = 0; j < 2 * n; j++) m[i][j] = md(m[i][j] - (long long)f * m[c][j]); } } inv = IV{n, n}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv.push_back(m[i][n + j]); det = md(dt); return true; }
    static IV pw(const IV& a, int k) { IV r = ident(a[0]); for (int i = 0; i < k; i++) r = prod(r, a); return r; }
    static void pick(Ctx<MatK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; if (!A[0] || !B[0] || !D[0] || !A[1] || !B[1] || !D[1]) return;
        int v = rnd(), v1 = rnd1(); bool same = A[0] == B[0] && A[1] == B[1], dsame = A[0] == D[0] && A[1] == D[1], sq = A[0] == A[1]; IV inv; int det = 0;
        switch (choose(24)) {
            case 0: if (!same) return; o.name = "a + b"; o.expect = lin(A, B, 1); RES(*a + *b); break;
            case 1: if (!same) return; o.name = "a - b"; o.expect = lin(A, B, -1); RES(*a - *b); break;
            case 2: case 3: if (A[1] != B[0]) return; o.name = "a * b"; o.expect = prod(A, B); RES(*a * *b); break;
            case 4: o.name = "a * s"; o.expect = sc(A, v); RES(*a * Z(v)); break;
            case 5: o.name = "a / s"; o.expect = sc(A, inv_mod(v1)); RES(*a / Z(v1)); break;
            case 6: o.name = "-a"; o.expect = sc(A, -1); RES(-*a); break;
            case 7: if (!dsame) return; o.name = "d += a"; o.expect = lin(D, A, 1); INP(*d += *a); break;
            case 8: if (!dsame) return; o.name = "d -= a"; o.expect = lin(D, A, -1); INP(*d -= *a); break;
            case 9: case 10: if (D[1] != A[0]) return; o.name = "d *= a"; o.expect = prod(D, A); INP(*d *= *a); break;
            case 11: o.name = "d *= s"; o.expect = sc(D, v); INP(*d *= Z(v)); break;
            case 12: o.name = "d /= s"; o.expect = sc(D, inv_mod(v1)); INP(*d /= Z(v1)); break;
            case 13: o.name = "transpose"; o.expect = transp(A); RES(a->transpose()); break;
            case 14: case 15: if (!sq || !solve(A, inv, det)) return; o.name = "inverse"; o.expect = inv; RES(a->inverse()); break;
            case 16: if (!sq || B[0] != B[1] || A[0] != B[0] || !solve(B, inv, det)) return; o.name = "a / b"; o.expect = prod(A, inv); RES(*a / *b); break;
            case 17: if (!sq || D[1] != A[0] || !solve(A, inv, det)) return; o.name = "d /= a"; o.expect = prod(D, inv); INP(*d /= *a); break;
            case 18: { if (!sq) return; solve(A, inv, det); o.name = "det"; o.out = IV(1, det); OUT(g_out = IV(1, rd(a->det()))); break; }
            case 19: { if (!sq || !solve(A, inv, det)) return; o.name = "rank"; o.out = IV(1, A[0]); OUT(g_out = IV(1, a->rank())); break; }
            case 20: { if (!sq) return; int k = small(6); bool neg = choose(2); if (neg && !solve(A, inv, det)) return; o.name = "power"; o.expect = pw(neg ? inv : A, k); RES(a->pow(neg ? -k : k)); break; }
            case 21: { int i = choose(A[0]), j = choose(A[1]), n = 1 + choose(A[0] - i), m = 1 + choose(A[1] - j); IV e{n, m}; for (int p = 0; p < n; p++) for (int q = 0; q < m; q++) e.push_back(A[2 + (i + p) * A[1] + j + q]); o.name = "submatrix"; o.expect = e; RES(V(*a, i, j, n, m)); break; }
            case 22: { o.name = "compare"; auto rows = [](const IV& m) { std::vector<IV> r; for (int i = 0; i < m[0]; i++) r.push_back(IV(m.begin() + 2 + i * m[1], m.begin() + 2 + (i + 1) * m[1])); return r; }; auto RA = rows(A), RB = rows(B); o.out = IV{RA == RB, RA != RB, RA < RB, RA > RB, RA <= RB, RA >= RB}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break; }
            default: { int n = 1 + small(4), i = choose(n); (void)i; o.name = "identity"; o.expect = sc(ident(n), v); if (v) RES(V::identity(n, Z(1)) * Z(v)); else RES(am::zeroOf(V::identity(n, Z(1)))); }
        }
    }
};
// ---------------------------------------------------------------- permutations; model: the line
struct PermK {
    typedef am::permutation<int> V;
    static void setup() {}
    static IV gen() { int n = choose(3) ? 6 : (int)small(12); IV m; for (int i = 0; i < n; i++) m.push_back(i); int k = choose(4) ? n : (int)choose(3); for (int i = 0; i < k && n > 1; i++) std::swap(m[choose(n)], m[choose(n)]); return m; }
    static V* make(const IV& m) { switch (choose(3)) { case 0: return new V(m); case 1: return new V(V::line_to_cycles(m), (int)m.size()); default: return new V(V::line_to_transpositions(m), (int)m.size()); } }
    static IV read(const V& v) { std::vector<char> u(v.n < 0 ? 0 : v.n); IV l(u.size()); for (size_t i = 0; i < l.size(); i++) l[i] = (int)i; for (auto& c : v.cycles) SIM_CHECK(!c.empty(), "invalid-value", "a permutation has an empty cycle"); for (auto& c : v.cycles) for (size_t k = 0; k < c.size(); k++) { SIM_CHECK(0 <= c[k] && c[k] < v.n && !u[c[k]], "invalid-value", "a permutation of %d elements has a cycle with %d", v.n, c[k]); u[c[k]] = 1; l[c[k]] = c[(k + 1) % c.size()]; } return l; }
    static IV pow(const IV& a, int k) { IV r(a.size()); for (size_t i = 0; i < a.size(); i++) { int q = (int)i; for (int t = 0; t < k; t++) q = a[q]; r[i] = q; } return r; }
    static IV inv(const IV& a) { IV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[a[i]] = (int)i; return r; }
    static IV comp(const IV& a, const IV& b) { IV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[b[i]]; return r; }
    static void poke(V& v) { IV a = read(v); SIM_CHECK(IV(v.to_line()) == a, "invalid-value", "wrong line"); SIM_CHECK(read(v.inv()) == inv(a), "invalid-value", "wrong inverse"); SIM_CHECK(read(v.pow(3)) == pow(a, 3), "invalid-value", "wrong power"); }
    static void pick(Ctx<PermK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; bool same = A.size() == B.size(), dsame = A.size() == D.size();
        switch (choose(15)) {
            case 0: case 1: if (!same) return; o.name = "a * b"; o.expect = orient(comp(A, B), comp(B, A)); RES(*a * *b); break;
            case 2: if (!same) return; o.name = "a / b"; o.expect = orient(comp(A, inv(B)), comp(inv(B), A)); RES(*a / *b); break;
            case 3: case 4: if (!dsame) return; o.name = "d *= a"; o.expect = orient(comp(D, A), comp(A, D)); INP(*d *= *a); break;
            case 5: if (!dsame) return; o.name = "d /= a"; o.expect = orient(comp(D, inv(A)), comp(inv(A), D)); INP(*d /= *a); break;
            case 6: o.name = "inverse"; o.expect = inv(A); RES(a->inv()); break;
            case 7: { int k = (int)choose(14) - 5; o.name = "power"; o.expect = k < 0 ? pow(inv(A), -k) : pow(A, k); RES(a->pow(k)); break; }
            case 8: { o.name = "to_line"; o.out = A; OUT(auto l = a->to_line(); NoFault nf; g_out = l); break; }
            case 9: { o.name = "to_transpositions"; o.expect = A; RES(V(a->to_transpositions(), a->n)); break; }
            case 10: { o.name = "to_all_cycles"; o.expect = A; RES(V(a->to_all_cycles(), a->n)); break; }
            case 11: { int k = 1 + small(5); o.name = "power of a power's root"; o.expect = pow(A, k); int n = (int)A.size(); RES(keep(a->pow(k).root(k), k, n, *a)); break; }
            case 12: { o.name = "compare"; o.out = IV{A == B, A != B}; OUT(g_out.assign({canon(*a) == canon(*b), canon(*a) != canon(*b)})); break; }
            case 13: { o.name = "identity"; int n = small(9); IV e; for (int i = 0; i < n; i++) e.push_back(i); o.expect = e; RES(am::identityOf(V(IV(e)))); break; }
            default: { o.name = "transpositions_to_cycles"; o.expect = A; RES(V(V::transpositions_to_cycles(a->to_transpositions()), a->n)); }
        }
    }
    static V canon(const V& v) { return V(v.to_line()); }
    // the root of a power of a exists; its own power is checked, not which root it is
    static V keep(V r, int k, int n, const V&) { SIM_CHECK(r.n == n, "wrong-answer", "a power %d has no root of that order", k); return r.pow(k); }
    static IV orient(const IV&, const IV& ba) { return ba; }   // the line of p1 * p2 takes x to p2(p1(x)), as the tests have it
};
// ---------------------------------------------------------------- vectors and quadratic extensions
struct VecK {
    typedef am::vectorNd<Z, 4> V;
    static void setup() {}
    static IV gen() { IV m; for (int i = 0; i < 4; i++) m.push_back(rnd()); return m; }
    static V* make(const IV& m) { V* v = new V(); for (int i = 0; i < 4; i++) (*v)[i] = Z(m[i]); return v; }
    static IV read(const V& v) { IV r; for (int i = 0; i < 4; i++) r.push_back(rd(v[i])); return r; }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); }
    static void pick(Ctx<VecK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), k = choose(4), w = choose(5); if (k == 3 && v == 0) v = 5; bool nz = true; for (int c : B) nz &= c != 0; bool nza = true; for (int c : A) nza &= c != 0;
        auto f = [k](const IV& p, const IV& q) { IV r = p; for (int i = 0; i < 4; i++) { long long c = p[i], e = q[i]; r[i] = md(k == 0 ? c + e : k == 1 ? c - e : k == 2 ? c * e : c * inv_mod((int)e)); } return r; };
        static const char* const N1[] = {"a + b", "a - b", "a * b", "a / b"}; static const char* const N2[] = {"d += a", "d -= a", "d *= a", "d /= a"}; static const char* const N3[] = {"a + s", "a - s", "a * s", "a / s"}; static const char* const N4[] = {"d += s", "d -= s", "d *= s", "d /= s"};
        if (w == 0) { if (k == 3 && !nz) return; o.name = N1[k]; o.expect = f(A, B); RES(k == 0 ? *a + *b : k == 1 ? *a - *b : k == 2 ? *a * *b : *a / *b); }
        else if (w == 1) { if (k == 3 && !nza) return; o.name = N2[k]; o.expect = f(D, A); INP(k == 0 ? *d += *a : k == 1 ? *d -= *a : k == 2 ? *d *= *a : *d /= *a); }
        else if (w == 2) { o.name = N3[k]; o.expect = f(A, IV(4, v)); RES(k == 0 ? *a + Z(v) : k == 1 ? *a - Z(v) : k == 2 ? *a * Z(v) : *a / Z(v)); }
        else if (w == 3) { o.name = N4[k]; o.expect = f(D, IV(4, v)); INP(k == 0 ? *d += Z(v) : k == 1 ? *d -= Z(v) : k == 2 ? *d *= Z(v) : *d /= Z(v)); }
        else if (k < 2) { o.name = "-a"; o.expect = scale(A, -1); RES(-*a); }
        else { long long s = 0; for (int c : A) s += (long long)c * c % P; o.name = "abs2"; o.out = IV(1, md(s)); OUT(g_out = IV(1, rd(a->abs2()))); }
    }
};
template<int ID, int ST> struct QuadK {
    typedef am::quadratic<Z, ID, ST> V;
    static void setup() {}
    static IV gen() { return IV{rnd(), rnd()}; }
    static V* make(const IV& m) { return new V(Z(m[0]), Z(m[1]), Z(5)); }
    static IV read(const V& v) { SIM_CHECK(rd(v.D()) == 5, "invalid-value", "the discriminant is %d", rd(v.D())); return IV{rd(v.a), rd(v.b)}; }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); }
    static IV times(const IV& a, const IV& b) { return IV{md((long long)a[0] * b[0] + 5LL * a[1] % P * b[1]), md((long long)a[0] * b[1] + (long long)a[1] * b[0])}; }
    static int norm(const IV& a) { return md((long long)a[0] * a[0] - 5LL * a[1] % P * a[1]); }
    static IV quot(const IV& a, const IV& b) { return scale(times(a, IV{b[0], md(-b[1])}), inv_mod(norm(b))); }
    static void pick(Ctx<QuadK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), v1 = rnd1();
        switch (choose(13)) {
            case 0: o.name = "a + b"; o.expect = add(A, B); RES(*a + *b); break;
            case 1: o.name = "a - b"; o.expect = add(A, B, -1); RES(*a - *b); break;
            case 2: o.name = "a * b"; o.expect = times(A, B); RES(*a * *b); break;
            case 3: if (!norm(B)) return; o.name = "a / b"; o.expect = quot(A, B); RES(*a / *b); break;
            case 4: o.name = "-a"; o.expect = scale(A, -1); RES(-*a); break;
            case 5: o.name = "a * s"; o.expect = scale(A, v); RES(*a * Z(v)); break;
            case 6: o.name = "d += a"; o.expect = add(D, A); INP(*d += *a); break;
            case 7: o.name = "d *= a"; o.expect = times(D, A); INP(*d *= *a); break;
            case 8: if (!norm(A)) return; o.name = "d /= a"; o.expect = quot(D, A); INP(*d /= *a); break;
            case 9: o.name = "d /= s"; o.expect = scale(D, inv_mod(v1)); INP(*d /= Z(v1)); break;
            case 10: { int k = small(8); IV e{1, 0}; for (int i = 0; i < k; i++) e = times(e, A); o.name = "power"; o.expect = e; RES(am::powT(*a, k)); break; }
            case 11: o.name = "norm"; o.out = IV(1, norm(A)); OUT(g_out = IV(1, rd(a->norm()))); break;
            default: o.name = "conjugate"; o.expect = IV{A[0], md(-A[1])}; RES(a->conjugate());
        }
    }
};
#if defined P_D10 || defined P_C08
SIM_SCENARIO(D10, matrices, 3) { arith<MatK>("matrix", 40); }
SIM_SCENARIO(D10, permutations, 2) { arith<PermK>("permutation", 40); }
SIM_SCENARIO(D10, vectors, 1) { arith<VecK>("vectorNd", 40); }
SIM_SCENARIO(D10, quadratic_extensions, 1) { if (choose(2)) arith<QuadK<5, am::quadratic_storage::CONSTANT>>("quadratic", 30); else arith<QuadK<0, am::quadratic_storage::INSTANCE>>("quadratic", 30); }

// ---------------------------------------------------------------- factorisations
SIM_SCENARIO(D10, factorisations, 1) {
    uint64_t lb = live_blocks(); set_crash_class("factorization");
    {
        int ops = 2 + small(12);
        for (int t = 0; t < ops; t++) {
            int64_t n = 1; IV ps; static const int PR[] = {2, 3, 5, 7, 11, 13, 101, 997, 10007, 65537}; for (int i = small(8); i > 0; i--) { int p = PR[choose(10)]; if (n > 4000000000000LL / p) break; n *= p; ps.push_back(p); } std::sort(ps.begin(), ps.end());
            int how = choose(4); IV got; bool done = false;
            auto flat = [&](const std::vector<std::pair<int64_t, int>>& vf) { NoFault nf; got.clear(); for (auto& f : vf) for (int e = 0; e < f.second; e++) got.push_back((int)f.first); std::sort(got.begin(), got.end()); done = true; };
            std::vector<std::pair<int64_t, int>> in; for (int p : ps) { if (!in.empty() && in.back().first == p) in.back().second++; else in.push_back({p, 1}); } auto in0 = in; int64_t sum = 0, cnt = 0;
            std::vector<int64_t> num, den; for (size_t i = 0; i < ps.size(); i++) { (i & 1 ? den : num).push_back(ps[i] * 6); }
            std::function<void()> f = how == 0 ? std::function<void()>([&]() { flat(am::factor_integer<int64_t>(n)); }) : how == 1 ? std::function<void()>([&]() { flat(am::factor_integer_slow<int64_t>(n)); }) : how == 2 ? std::function<void()>([&]() { got.clear(); int64_t r = am::from_factorization<int64_t>(in); NoFault nf; if (r == n) got = ps; done = true; })
                : std::function<void()>([&]() { sum = cnt = 0; std::vector<int64_t> vp{2, 3, 7}; am::from_primes<int64_t>(vp, int64_t(200), [&](const std::vector<std::pair<int64_t, int>>& vf, int64_t m) { fp_point(FP_USER); int64_t r = 1; for (auto& e : vf) for (int q = 0; q < e.second; q++) r *= e.first; SIM_CHECK(r == m, "wrong-answer", "a factorisation of %lld belongs to %lld", (long long)r, (long long)m); sum += m; cnt++; }); done = true; NoFault nf; got = ps; });
            static const char* const N[] = {"factor_integer", "factor_integer_slow", "from_factorization", "from_primes"};
            log("%s %lld", N[how], (long long)n); bool failed = run(N[how], f, choose(4) != 0, false); SIM_CHECK(in == in0, "operand-changed", "the factorisation handed in has changed");
            if (failed) { SIM_CHECK(!done, "harness", "a result in spite of a failure"); if (choose(4) == 0) continue; run(N[how], f, false, false); probe("repeated"); }
            SIM_CHECK(got == ps, "wrong-answer", "%s(%lld) gave %s", N[how], (long long)n, show(got).c_str()); if (how == 3) { int64_t es = 0, ec = 0; for (int m = 1; m <= 200; m++) { int r = m; while (r % 2 == 0) r /= 2; while (r % 3 == 0) r /= 3; while (r % 7 == 0) r /= 7; if (r == 1) { es += m; ec++; } } SIM_CHECK(sum == es && cnt == ec, "wrong-answer", "from_primes visited %lld numbers", (long long)cnt); }
            state(mix(how, (uint64_t)n));
        }
    }
    SIM_CHECK(live_blocks() == lb, "leak", "%lld blocks remain", (long long)(live_blocks() - lb));
}
#endif
