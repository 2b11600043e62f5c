// D13: number types that are built from others (fractions, extensions, planes
// with a point at infinity, Moebius maps, plane vectors, Clifford and
// plane-based geometric algebra) over components that know which ring they
// belong to, that cannot be used any more once moved from, and whose every
// operation can fail.  The driver is that of arith.cpp.
#define NESTED
#include "arith.cpp"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/pga.h"
#include "altruct/structure/math/with_infinity.h"

// ---------------------------------------------------------------- components: numbers of a prime field that carry their ring
static const int RING = 7;          // the ring the values of a run live in; 0: a bare number, of no ring
struct C {
    Elem e; int ring;
    C() : e(0), ring(0) {} C(int v) : e(md(v)), ring(0) {}
    C(const C& r) : e(r.e), ring(r.use("copied")) {} C(C&& r) noexcept : e(std::move(r.e)), ring(r.use("moved")) { r.ring = -1; }
    C& operator=(const C& r) { int g = r.use("assigned"); e = r.e; ring = g; return *this; } C& operator=(C&& r) noexcept { if (this != &r) { ring = r.use("assigned"); e = std::move(r.e); r.ring = -1; } return *this; }
    int use(const char* w) const { SIM_CHECK(ring != -1, "used-after-move", "a component was %s after it had been moved from", w); return ring; }
    int v() const { use("used"); return e.get(); }
    C& put(long long x) { fp_point(FP_USER); e = Elem(md(x)); return *this; }
    C& operator+=(const C& r) { return put((long long)v() + r.v()); } C& operator-=(const C& r) { return put((long long)v() - r.v()); }
    C& operator*=(const C& r) { return put((long long)v() * r.v()); } C& operator/=(const C& r) { SIM_CHECK(r.v() != 0, "divided-by-zero", "a component was divided by zero"); return put((long long)v() * inv_mod(r.v())); }
    C operator+(const C& r) const { C t(*this); t += r; return t; } C operator-(const C& r) const { C t(*this); t -= r; return t; }
    C operator*(const C& r) const { C t(*this); t *= r; return t; } C operator/(const C& r) const { C t(*this); t /= r; return t; }
    C operator-() const { C t(*this); t.put(-(long long)v()); return t; } C operator+() const { return *this; }
    bool operator==(const C& r) const { use("compared"); r.use("compared"); return e == r.e; } bool operator!=(const C& r) const { return !(*this == r); }
    bool operator<(const C& r) const { use("compared"); r.use("compared"); return e < r.e; } bool operator>(const C& r) const { return r < *this; } bool operator<=(const C& r) const { return !(r < *this); } bool operator>=(const C& r) const { return !(*this < r); }
};
// whole numbers of the same kind, for fractions
struct N {
    Elem e; int ring;
    N() : e(0), ring(0) {} N(int v) : e(v), ring(0) {}
    N(const N& r) : e(r.e), ring(r.use("copied")) {} N(N&& r) noexcept : e(std::move(r.e)), ring(r.use("moved")) { r.ring = -1; }
    N& operator=(const N& r) { int g = r.use("assigned"); e = r.e; ring = g; return *this; } N& operator=(N&& r) noexcept { if (this != &r) { ring = r.use("assigned"); e = std::move(r.e); r.ring = -1; } return *this; }
    int use(const char* w) const { SIM_CHECK(ring != -1, "used-after-move", "a component was %s after it had been moved from", w); return ring; }
    int v() const { use("used"); return e.get(); }
    N& put(long long x) { fp_point(FP_USER); SIM_CHECK(x == (int)x, "harness", "a whole number too large"); e = Elem((int)x); return *this; }
    N& operator+=(const N& r) { return put((long long)v() + r.v()); } N& operator-=(const N& r) { return put((long long)v() - r.v()); } N& operator*=(const N& r) { return put((long long)v() * r.v()); }
    N& operator/=(const N& r) { SIM_CHECK(r.v() != 0, "divided-by-zero", "a component was divided by zero"); return put((long long)v() / r.v()); } N& operator%=(const N& r) { SIM_CHECK(r.v() != 0, "divided-by-zero", "a component was divided by zero"); return put((long long)v() % r.v()); }
    N operator+(const N& r) const { N t(*this); t += r; return t; } N operator-(const N& r) const { N t(*this); t -= r; return t; } N operator*(const N& r) const { N t(*this); t *= r; return t; }
    N operator/(const N& r) const { N t(*this); t /= r; return t; } N operator%(const N& r) const { N t(*this); t %= r; return t; } N operator-() const { N t(*this); t.put(-(long long)v()); return t; }
    bool operator==(const N& r) const { use("compared"); r.use("compared"); return e == r.e; } bool operator!=(const N& r) const { return !(*this == r); }
    bool operator<(const N& r) const { use("compared"); r.use("compared"); return e < r.e; } bool operator>(const N& r) const { return r < *this; } bool operator<=(const N& r) const { return !(r < *this); } bool operator>=(const N& r) const { return !(*this < r); }
};
namespace altruct { namespace math {
#define RINGED(X) \
    template<> struct zeroT<X> { static X of(const X& x) { X t(0); t.ring = x.use("used"); return t; } }; \
    template<> struct identityT<X> { static X of(const X& x) { X t(1); t.ring = x.use("used"); return t; } }; \
    template<> struct castT<X, int> { static X of(const int& v) { return X(v); } static X of(const X& ref, const int& v) { X t(v); t.ring = ref.use("used"); return t; } };
RINGED(C) RINGED(N)
template<> struct castT<C, C> : nopCastT<C> {}; template<> struct castT<N, N> : nopCastT<N> {};
}}
template<typename X> static X mk(int v) { X t(v); t.ring = RING; return t; }
static C cc(int v) { return mk<C>(v); }
template<typename X> static int rdc(const X& c, const char* what) { int g = c.use("read"); SIM_CHECK(g == RING, "lost-context", "%s: the component %d belongs to %s instead of to the ring of the operands", what, c.v(), g == 0 ? "no ring" : "another ring"); return c.v(); }
static int rdk(const C& c, const char* what) { int x = rdc(c, what); SIM_CHECK(0 <= x && x < P, "invalid-value", "a component is %d, which is none", x); return x; }
static IV gen_n(int n) { IV m; bool sparse = choose(3) == 0; for (int i = 0; i < n; i++) m.push_back(sparse && choose(2) ? 0 : rnd()); return m; }
static int mu(int a, int b) { return md((long long)a * b); }

// ---------------------------------------------------------------- fractions; model: numerator and denominator in lowest terms
struct FracK {
    typedef am::fraction<N> V;
    static void setup() {}
    static long long g(long long a, long long b) { while (b) { long long t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
    static IV red(long long p, long long q) { long long d = g(p, q); p /= d; q /= d; if (q < 0) p = -p, q = -q; return IV{(int)p, (int)q}; }
    static bool fits(long long x) { return -30000000 < x && x < 30000000; }
    static IV gen() { int p = (int)choose(401) - 200, q = 1 + small(60); return red(p, q); }
    static V* make(const IV& m) { if (m[1] == 1 && choose(2)) return new V(mk<N>(m[0])); int k = 1 + choose(3); if (choose(2)) k = -k; return new V(mk<N>(m[0] * k), mk<N>(m[1] * k)); }
    static void settle(V& v) { v.reduce(); }
    static IV read(const V& v) { IV r{rdc(v.p, "numerator"), rdc(v.q, "denominator")}; SIM_CHECK(r[1] > 0 && g(r[0], r[1]) == 1, "invalid-value", "a fraction is %d/%d, which is not in lowest terms", r[0], r[1]); return r; }
    static void poke(V& v) { IV a = read(v); V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); SIM_CHECK(read(-v) == (IV{-a[0], a[1]}), "invalid-value", "wrong negative"); }
    static void pick(Ctx<FracK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d];
        auto calc = [](const IV& p, const IV& q, int k, IV& e) { long long n, m; if (k < 2) { n = (long long)p[0] * q[1] + (k ? -1 : 1) * (long long)q[0] * p[1]; m = (long long)p[1] * q[1]; } else if (k == 2) { n = (long long)p[0] * q[0]; m = (long long)p[1] * q[1]; } else { if (!q[0]) return false; n = (long long)p[0] * q[1]; m = (long long)p[1] * q[0]; } if (!fits(n) || !fits(m) || !fits((long long)p[0] * q[1]) || !fits((long long)q[0] * p[1])) return false; e = red(n, m); return true; };
        int k = choose(4); IV e; static const char* const N1[] = {"a + b", "a - b", "a * b", "a / b"}; static const char* const N2[] = {"d += a", "d -= a", "d *= a", "d /= a"};
        switch (choose(11)) {
            case 0: case 1: case 2: if (!calc(A, B, k, e)) return; o.name = N1[k]; o.expect = e; RES(k == 0 ? *a + *b : k == 1 ? *a - *b : k == 2 ? *a * *b : *a / *b); break;
            case 3: case 4: case 5: if (!calc(D, A, k, e)) return; o.name = N2[k]; o.expect = e; INP(k == 0 ? *d += *a : k == 1 ? *d -= *a : k == 2 ? *d *= *a : *d /= *a); break;
            case 6: o.name = "-a"; o.expect = IV{-A[0], A[1]}; RES(-*a); break;
            case 7: if (!A[0]) return; o.name = "reciprocal"; o.expect = red(A[1], A[0]); RES(a->reciprocal()); break;
            case 8: { long long c = (long long)A[0] * B[1] - (long long)B[0] * A[1]; if (!calc(A, B, 1, e)) return; o.name = "compare"; o.out = IV{c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break; }
            case 9: { int q = 1 + choose(3); if (std::max(std::abs(A[0]), A[1]) > 70) return; for (int i = 0; i < q; i++) { IV p = e.empty() ? IV{1, 1} : e; if (!calc(p, A, 2, e)) return; } o.name = "power"; o.expect = e; RES(am::powT(*a, q)); break; }
            default: o.name = k & 1 ? "identity" : "zero"; o.expect = IV{k & 1, 1}; RES(k & 1 ? am::identityOf(*a) : am::zeroOf(*a));
        }
    }
};

// ---------------------------------------------------------------- quadratic extensions
template<int ID, int ST> struct QuadC {
    typedef am::quadratic<C, ID, ST> V; static const bool own = ST == am::quadratic_storage::INSTANCE;
    static int disc() { return own ? 5 : md(ID); }
    static void setup() {}
    static IV gen() { return gen_n(2); }
    static V* make(const IV& m) { return new V(cc(m[0]), cc(m[1]), cc(disc())); }
    static IV read(const V& v) { if (own) SIM_CHECK(rdk(v.D(), "discriminant") == disc(), "invalid-value", "the discriminant is %d", v.D().v()); return IV{rdk(v.a, "first part"), rdk(v.b, "second part")}; }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); }
    static IV times(const IV& a, const IV& b) { return IV{md((long long)a[0] * b[0] + (long long)disc() * a[1] % P * b[1]), md((long long)a[0] * b[1] + (long long)a[1] * b[0])}; }
    static int norm(const IV& a) { return md((long long)a[0] * a[0] - (long long)disc() * a[1] % P * a[1]); }
    static IV quot(const IV& a, const IV& b) { return scale(times(a, IV{b[0], md(-b[1])}), inv_mod(norm(b))); }
    static void pick(Ctx<QuadC>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), v1 = rnd1(), k = choose(4);
        switch (choose(16)) {
            case 0: o.name = "a + b"; o.expect = add(A, B); RES(*a + *b); break;
            case 1: o.name = "a - b"; o.expect = add(A, B, -1); RES(*a - *b); break;
            case 2: o.name = "a * b"; o.expect = times(A, B); RES(*a * *b); break;
            case 3: if (!norm(B)) return; o.name = "a / b"; o.expect = quot(A, B); RES(*a / *b); break;
            case 4: o.name = "-a"; o.expect = scale(A, -1); RES(-*a); break;
            case 5: o.name = "a * s"; o.expect = scale(A, v); RES(*a * cc(v)); break;
            case 6: o.name = "d += a"; o.expect = add(D, A); INP(*d += *a); break;
            case 7: o.name = "d -= a"; o.expect = add(D, A, -1); INP(*d -= *a); break;
            case 8: o.name = "d *= a"; o.expect = times(D, A); INP(*d *= *a); break;
            case 9: if (!norm(A)) return; o.name = "d /= a"; o.expect = quot(D, A); INP(*d /= *a); break;
            case 10: o.name = "d /= s"; o.expect = scale(D, inv_mod(v1)); INP(*d /= cc(v1)); break;
            case 11: { int q = small(8); IV e{1, 0}; for (int i = 0; i < q; i++) e = times(e, A); o.name = "power"; o.expect = e; RES(am::powT(*a, q)); break; }
            case 12: o.name = "norm"; o.out = IV(1, norm(A)); OUT(g_out = IV(1, rdk(a->norm(), "norm"))); break;
            case 13: o.name = "compare"; o.out = IV{A == B, A != B, A < B, A > B, A <= B, A >= B}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break;
            case 14: o.name = "constant"; o.expect = IV{k == 0 ? 0 : k == 1 ? 1 : 9, 0}; RES(k == 0 ? am::zeroOf(*a) : k == 1 ? am::identityOf(*a) : am::castOf<V>(*a, 9)); break;
            default: o.name = "conjugate"; o.expect = IV{A[0], md(-A[1])}; if (k) RES(a->conjugate()); else RES(am::conjugateT<V>::of(*a));
        }
    }
};

// ---------------------------------------------------------------- the point at infinity; model: value, or {0, 1}
struct InfK {
    typedef am::with_infinity<C> V;
    static void setup() {}
    static IV gen() { int k = choose(6); return k == 0 ? IV{0, 1} : IV{rnd(), 0}; }
    static V* make(const IV& m) { return m[1] ? new V(cc(rnd()), 1) : new V(cc(m[0])); }
    static IV read(const V& v) { int x = rdk(v.v, "value"); SIM_CHECK(v.is_inf == 0 || v.is_inf == 1, "invalid-value", "the mark of infinity is %d", v.is_inf); return v.is_inf ? IV{0, 1} : IV{x, 0}; }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); }
    // the tables in the header; false where they have a question mark
    static bool calc(const IV& a, const IV& b, int k, IV& e) {
        bool ia = a[1], ib = b[1]; int x = a[0], y = b[0]; const IV inf{0, 1};
        if (k == 0) { e = ia || ib ? inf : IV{md(x + y), 0}; return true; }
        if (k == 1) { if (ia && ib) return false; e = ia || ib ? inf : IV{md(x - y), 0}; return true; }
        if (k == 2) { if ((ia && !ib && !y) || (ib && !ia && !x)) return false; e = ia || ib ? inf : IV{mu(x, y), 0}; return true; }
        if (ia && ib) return false; if (!ia && !ib && !x && !y) return false;
        e = ia ? inf : ib ? IV{0, 0} : !y ? inf : IV{mu(x, inv_mod(y)), 0}; return true;
    }
    static void pick(Ctx<InfK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int k = choose(4); IV e;
        static const char* const N1[] = {"a + b", "a - b", "a * b", "a / b"}; static const char* const N2[] = {"d += a", "d -= a", "d *= a", "d /= a"};
        switch (choose(9)) {
            case 0: case 1: if (!calc(A, B, k, e)) return; o.name = N1[k]; o.expect = e; RES(k == 0 ? *a + *b : k == 1 ? *a - *b : k == 2 ? *a * *b : *a / *b); break;
            case 2: case 3: if (!calc(D, A, k, e)) return; o.name = N2[k]; o.expect = e; INP(k == 0 ? *d += *a : k == 1 ? *d -= *a : k == 2 ? *d *= *a : *d /= *a); break;
            case 4: case 5: o.name = "-a"; o.expect = IV{md(-A[0]), A[1]}; RES(-*a); break;
            case 6: o.name = "inverse"; o.expect = A[1] ? IV{0, 0} : !A[0] ? IV{0, 1} : IV{inv_mod(A[0]), 0}; RES(a->inverse()); break;
            case 7: { if (A[1] && B[1]) return; auto lt = [](const IV& p, const IV& q) { return p[1] != q[1] ? p[1] < q[1] : p[0] < q[0]; }; o.name = "compare"; o.out = IV{A == B, A != B, lt(A, B), lt(B, A), !lt(B, A), !lt(A, B)}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break; }
            default: if (k == 3) { o.name = "is infinity"; o.out = IV(1, A[1]); OUT(g_out = IV(1, am::infinityT<V>::is(*a))); return; } o.name = "constant"; o.expect = IV{k == 0 ? 0 : k == 1 ? 1 : 9, 0}; RES(k == 0 ? am::zeroOf(*a) : k == 1 ? am::identityOf(*a) : am::castOf<V>(*a, 9));
        }
    }
};

// ---------------------------------------------------------------- Moebius maps; model: four complex entries up to a common factor, and the sign
struct MoebK {
    typedef am::complex<C> Q; typedef am::with_infinity<Q> W; typedef am::moebius_tr<W> V; typedef QuadC<-1, am::quadratic_storage::CONSTANT> M;
    static void setup() {}
    static IV part(const IV& m, int i) { return IV{m[2 * i], m[2 * i + 1]}; }
    static IV cj(const IV& z, int s) { return s < 0 ? IV{z[0], md(-z[1])} : z; }
    static bool nul(const IV& z) { return !z[0] && !z[1]; }
    static IV norm(const IV& m) { IV r = m; for (int i = 0; i < 4; i++) if (!nul(part(m, i))) { for (int j = 0; j < 4; j++) { IV q = M::quot(part(m, j), part(m, i)); r[2 * j] = q[0]; r[2 * j + 1] = q[1]; } break; } return r; }
    static IV det(const IV& m) { return add(M::times(part(m, 0), part(m, 3)), M::times(part(m, 1), part(m, 2)), -1); }
    static IV of4(const IV& a, const IV& b, const IV& c, const IV& d, int s) { return norm(IV{a[0], a[1], b[0], b[1], c[0], c[1], d[0], d[1], s}); }
    static IV comp(const IV& f, const IV& g) { IV r[4]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r[2 * i + j] = add(M::times(part(f, 2 * i), cj(part(g, j), f[8])), M::times(part(f, 2 * i + 1), cj(part(g, 2 + j), f[8]))); return of4(r[0], r[1], r[2], r[3], f[8] * g[8]); }
    static IV inv(const IV& m) { int s = m[8]; return of4(cj(part(m, 3), s), cj(scale(part(m, 1), -1), s), cj(scale(part(m, 2), -1), s), cj(part(m, 0), s), s); }
    static IV gen() { for (;;) { IV m = gen_n(8); m.push_back(choose(2) ? 1 : -1); if (!nul(det(m))) return norm(m); } }
    static W w(const IV& z) { return W(Q(cc(z[0]), cc(z[1]))); }
    static V* make(const IV& m) { IV f = gen_n(2); if (nul(f)) f = IV{1, 0}; auto e = [&](int i) { return w(M::times(part(m, i), f)); }; return new V(e(0), e(1), e(2), e(3), m[8]); }
    static IV read(const V& v) { IV r; for (const W* e : {&v.a, &v.b, &v.c, &v.d}) { SIM_CHECK(e->is_inf == 0, "invalid-value", "an entry of a map is infinite"); r.push_back(rdk(e->v.a, "entry")); r.push_back(rdk(e->v.b, "entry")); } SIM_CHECK(v.s == 1 || v.s == -1, "invalid-value", "the sign of a map is %d", v.s); r.push_back(v.s); return norm(r); }
    static void poke(V& v) { V u(v); SIM_CHECK(u == v, "invalid-value", "a copy differs"); }
    static void pick(Ctx<MoebK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int k = choose(7); IV z = gen_n(2);
        switch (choose(10)) {
            case 0: case 1: o.name = "a * b"; o.expect = comp(A, B); RES(*a * *b); break;
            case 2: o.name = "d *= a"; o.expect = comp(D, A); INP(*d *= *a); break;
            case 3: if (nul(det(B))) return; o.name = "a / b"; o.expect = comp(A, inv(B)); RES(*a / *b); break;
            case 4: if (nul(det(A))) return; o.name = "d /= a"; o.expect = comp(D, inv(A)); INP(*d /= *a); break;
            case 5: if (nul(det(A))) return; o.name = "inverse"; o.expect = inv(A); RES(a->inverse()); break;
            case 6: if (nul(det(D))) return; o.name = "normalize"; o.expect = D; INP(d->normalize()); break;
            case 7: case 8: {
                if (nul(det(A))) return; bool zi = choose(5) == 0; IV zz = cj(z, A[8]), nu = zi ? part(A, 0) : add(M::times(part(A, 0), zz), part(A, 1)), de = zi ? part(A, 2) : add(M::times(part(A, 2), zz), part(A, 3));
                o.name = "apply"; IV q = nul(de) ? IV{0, 0} : M::quot(nu, de); q.push_back(nul(de)); o.out = q; W in = zi ? W(Q(cc(z[0]), cc(z[1])), 1) : w(z); OUT(W r = (*a)(in); NoFault nf; int i = rdk(r.v.a, "image"), j = rdk(r.v.b, "image"); g_out = r.is_inf ? IV{0, 0, 1} : IV{i, j, 0}); break;
            }
            default: { W y = w(z); IV i0{0, 0}, i1{1, 0}; static const char* const N[] = {"scaling", "translation", "flip_x", "flip_y", "inversion", "identity", "constant"}; if (k == 0 && nul(z)) return; o.name = N[k];
                o.expect = k == 0 ? of4(z, i0, i0, i1, 1) : k == 1 ? of4(i1, z, i0, i1, 1) : k == 2 ? of4(scale(i1, -1), i0, i0, i1, -1) : k == 3 ? of4(i1, i0, i0, i1, -1) : k == 4 ? of4(i0, i1, i1, i0, -1) : k == 5 ? of4(i1, i0, i0, i1, 1) : of4(IV{9, 0}, i0, i0, i1, 1);
                RES(k == 0 ? V::scaling(y) : k == 1 ? V::translation(y) : k == 2 ? V::flip_x(y) : k == 3 ? V::flip_y(y) : k == 4 ? V::inversion(y) : k == 5 ? am::identityOf(*a) : am::castOf<V>(*a, 9)); }
        }
    }
};

// ---------------------------------------------------------------- vectors of the plane and of space
template<int DIM> struct VecX {
    template<int X, int Y> struct ty { typedef am::vector2d<C> t; }; template<int Y> struct ty<3, Y> { typedef am::vector3d<C> t; }; typedef typename ty<DIM, 0>::t V; typedef std::integral_constant<int, DIM> I;
    static void setup() {}
    static IV gen() { return gen_n(DIM); }
    static am::vector2d<C> mkv(const IV& m, std::integral_constant<int, 2>) { return am::vector2d<C>(cc(m[0]), cc(m[1])); }
    static am::vector3d<C> mkv(const IV& m, std::integral_constant<int, 3>) { return am::vector3d<C>(cc(m[0]), cc(m[1]), cc(m[2])); }
    static V* make(const IV& m) { return new V(mkv(m, I())); }
    static IV read(const am::vector2d<C>& v) { return IV{rdk(v.x, "x"), rdk(v.y, "y")}; }
    static IV read(const am::vector3d<C>& v) { return IV{rdk(v.x, "x"), rdk(v.y, "y"), rdk(v.z, "z")}; }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); }
    static int dot(const IV& a, const IV& b) { long long s = 0; for (int i = 0; i < DIM; i++) s += mu(a[i], b[i]); return md(s); }
    static IV cross(const IV& a, const IV& b) { if (DIM == 2) return IV{md(mu(a[0], b[1]) - mu(a[1], b[0]))}; IV r; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; r.push_back(md(mu(a[j % DIM], b[k % DIM]) - mu(a[k % DIM], b[j % DIM]))); } return r; }
    static IV any(const C& c) { return IV{rdk(c, "product")}; } static IV any(const V& v) { return read(v); }
    static void more(Ctx<VecX>& x, Op<V>& o, std::integral_constant<int, 2>) {
        const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j]; int p = A[0], q = A[1], r = B[0], s = B[1];
        switch (choose(5)) { case 0: o.name = "rot"; o.expect = IV{md(mu(p, r) - mu(q, s)), md(mu(q, r) + mu(p, s))}; RES(a->rot(*b)); break; case 1: o.name = "irot"; o.expect = IV{md(mu(p, r) + mu(q, s)), md(mu(q, r) - mu(p, s))}; RES(a->irot(*b)); break;
            case 2: o.name = "perp"; o.expect = IV{md(-q), p}; RES(a->perp()); break; case 3: o.name = "diff2"; o.out = IV{md(mu(p, p) - mu(q, q))}; OUT(g_out = IV{rdk(a->diff2(), "diff2")}); break; default: o.name = "abs2"; o.out = IV{dot(A, A)}; OUT(g_out = IV{rdk(a->abs2(), "abs2")}); }
    }
    static void more(Ctx<VecX>& x, Op<V>& o, std::integral_constant<int, 3>) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const IV &A = x.m[x.i], &D = x.m[x.d]; int v = rnd();
        switch (choose(4)) { case 0: o.name = "s * a"; o.expect = scale(A, v); RES(cc(v) * *a); break; case 1: o.name = "+a"; o.expect = A; RES(+*a); break; case 2: o.name = "d ^= a"; o.expect = cross(D, A); INP(*d ^= *a); break; default: o.name = "abs2"; o.out = IV{dot(A, A)}; OUT(g_out = IV{rdk(a->abs2(), "abs2")}); }
    }
    static void pick(Ctx<VecX>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), v1 = rnd1(), k = choose(4); bool nz = true; for (int c : B) nz &= c != 0; bool nza = true; for (int c : A) nza &= c != 0;
        auto f = [k](const IV& p, const IV& q) { IV r = p; for (size_t i = 0; i < p.size(); i++) r[i] = md(k == 0 ? (long long)p[i] + q[i] : k == 1 ? (long long)p[i] - q[i] : (long long)p[i] * (k == 2 ? q[i] : inv_mod(q[i]))); return r; };
        static const char* const N1[] = {"a + b", "a - b", "a * b", "a / b"}; static const char* const N2[] = {"d += a", "d -= a", "d *= a", "d /= a"};
        switch (choose(12)) {
            case 0: case 1: if (k == 3 && !nz) return; o.name = N1[k]; o.expect = f(A, B); RES(k == 0 ? *a + *b : k == 1 ? *a - *b : k == 2 ? *a * *b : *a / *b); break;
            case 2: case 3: if (k == 3 && !nza) return; o.name = N2[k]; o.expect = f(D, A); INP(k == 0 ? *d += *a : k == 1 ? *d -= *a : k == 2 ? *d *= *a : *d /= *a); break;
            case 4: o.name = k & 1 ? "a * s" : "a / s"; o.expect = scale(A, k & 1 ? v : inv_mod(v1)); RES(k & 1 ? *a * cc(v) : *a / cc(v1)); break;
            case 5: o.name = k & 1 ? "d *= s" : "d /= s"; o.expect = scale(D, k & 1 ? v : inv_mod(v1)); INP(k & 1 ? *d *= cc(v) : *d /= cc(v1)); break;
            case 6: o.name = "-a"; o.expect = scale(A, -1); RES(-*a); break;
            case 7: o.name = "dot"; o.out = IV{dot(A, B)}; OUT(g_out = IV{rdk(*a & *b, "dot product")}); break;
            case 8: o.name = "cross"; o.out = cross(A, B); OUT(auto c = *a ^ *b; NoFault nf; g_out = any(c)); break;
            case 9: { o.name = k & 1 ? "dot from here" : "cross from here"; IV p = add(A, D, -1), q = add(B, D, -1); o.out = k & 1 ? IV{dot(p, q)} : cross(p, q); if (k & 1) OUT(auto c = d->dot(*a, *b); NoFault nf; g_out = any(c)); else OUT(auto c = d->cross(*a, *b); NoFault nf; g_out = any(c)); break; }
            case 10: o.name = "compare"; o.out = IV{A == B, A != B, A < B, A > B, A <= B, A >= B}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break;
            default: more(x, o, I());
        }
    }
};

// ---------------------------------------------------------------- multiplication of basis blades, as sets of basis vectors in ascending order
static int blade_sign(int a, int b) { int s = 1; for (int x = a >> 1; x; x >>= 1) if (__builtin_popcount(x & b) & 1) s = -s; return s; }
static int grade(int m) { return __builtin_popcount(m); }
// the coefficients of a library value: which blade each stands for and with which sign
struct Basis { int n; const int* mask; const int* sign; bool null0; };
static std::vector<long long> to_masks(const Basis& B, const IV& a) { std::vector<long long> r(B.n); for (int i = 0; i < B.n; i++) r[B.mask[i]] = B.sign[i] * a[i]; return r; }
static IV from_masks(const Basis& B, const std::vector<long long>& r) { IV a(B.n); for (int i = 0; i < B.n; i++) a[i] = md(B.sign[i] * r[B.mask[i]]); return a; }
// kind 0: geometric product, 1: outer product, 2: inner product
static IV gprod(const Basis& B, const IV& a, const IV& b, int kind = 0) {
    auto x = to_masks(B, a), y = to_masks(B, b); std::vector<long long> r(B.n);
    for (int i = 0; i < B.n; i++) if (x[i]) for (int j = 0; j < B.n; j++) if (y[j]) { if (B.null0 && (i & j & 1)) continue; int g = grade(i ^ j), d = grade(i) - grade(j); if (kind == 1 && (i & j)) continue; if (kind == 2 && g != (d < 0 ? -d : d)) continue; r[i ^ j] = (r[i ^ j] + blade_sign(i, j) * x[i] % P * y[j]) % P; }
    return from_masks(B, r);
}
static IV grev(const Basis& B, IV a) { for (int i = 0; i < B.n; i++) if (grade(B.mask[i]) & 2) a[i] = md(-a[i]); return a; }

// ---------------------------------------------------------------- Clifford algebra of space; model: s yz zx xy x y z w
static const int CM[] = {0, 6, 5, 3, 1, 2, 4, 7}, CS[] = {1, 1, -1, 1, 1, 1, 1, 1}; static const Basis CB = {8, CM, CS, false};
struct CliffK {
    typedef am::cl3::multivector<C> V; typedef am::cl3::rotor<C> R; typedef am::cl3::vector<C> T;
    static void setup() {}
    static IV gen() { IV m = gen_n(8); int k = choose(5); for (int i = 0; i < 8; i++) if ((k == 0 && i < 4) || (k == 1 && i >= 4)) m[i] = 0; return m; }
    static R rot(const IV& m) { return R(cc(m[0]), cc(m[1]), cc(m[2]), cc(m[3])); } static T vec(const IV& m) { return T(cc(m[4]), cc(m[5]), cc(m[6]), cc(m[7])); }
    static V* make(const IV& m) { return new V(rot(m), vec(m)); }
    static IV read(const R& r) { return IV{rdk(r.s, "scalar"), rdk(r.yz, "yz"), rdk(r.zx, "zx"), rdk(r.xy, "xy"), 0, 0, 0, 0}; }
    static IV read(const T& v) { return IV{0, 0, 0, 0, rdk(v.x, "x"), rdk(v.y, "y"), rdk(v.z, "z"), rdk(v.w, "w")}; }
    static IV read(const V& v) { return add(read(v.r), read(v.v)); }
    static void poke(V& v) { V w(v); SIM_CHECK(w == v, "invalid-value", "a copy differs"); IV a = read(v); SIM_CHECK(read(v * v) == gprod(CB, a, a), "invalid-value", "wrong square"); }
    static IV ev(IV a) { for (int i = 4; i < 8; i++) a[i] = 0; return a; } static IV od(IV a) { for (int i = 0; i < 4; i++) a[i] = 0; return a; }
    static int n2(const IV& a) { long long s = 0; for (int c : a) s += mu(c, c); return md(s); }                    // of an even or an odd part
    static IV pinv(const IV& a) { return scale(grev(CB, a), inv_mod(n2(a))); }                                      // inverse of an even or an odd part
    static bool unit(const IV& a, IV& i) {                                                                          // inverse of the whole
        IV r = ev(a), v = od(a); if (r == IV(8)) { if (!n2(v)) return false; i = pinv(v); return true; } if (!n2(r)) return false;
        IV t = gprod(CB, scale(v, -1), pinv(r)), q = add(r, gprod(CB, t, v)); if (!n2(q)) return false; IV ri = pinv(q); i = add(ri, gprod(CB, ri, t)); return true;
    }
    // one part or the whole of a value
    template<typename F> static void part(int k, const V& v, F f) { if (k == 0) f(v.r); else if (k == 1) f(v.v); else f(v); }
    static IV pm(int k, const IV& a) { return k == 0 ? ev(a) : k == 1 ? od(a) : a; }
    template<typename X> static void give(const X& x) { NoFault nf; g_out = read(x); }
    static void pick(Ctx<CliffK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), v1 = rnd1(), ka = choose(3), kb = choose(3), k = choose(4); IV i; IV a1 = pm(ka, A), b1 = pm(kb, B);
        switch (choose(22)) {
            case 0: case 1: case 2: o.name = "product"; o.out = gprod(CB, a1, b1); o.f = [=]() { part(ka, *a, [&](const auto& p) { part(kb, *b, [&](const auto& q) { give(p * q); }); }); }; break;
            case 3: case 4: o.name = "sum"; o.out = add(a1, b1, k & 1 ? 1 : -1); if (ka == 2 || kb == 2 || ka == kb || true) o.f = [=]() { part(ka, *a, [&](const auto& p) { part(kb, *b, [&](const auto& q) { if (k & 1) give(p + q); else give(p - q); }); }); }; break;
            case 5: case 6: if (kb == 2 ? !unit(b1, i) : !n2(b1)) return; if (kb != 2) i = pinv(b1); o.name = "quotient"; o.out = gprod(CB, a1, i); o.f = [=]() { part(ka, *a, [&](const auto& p) { part(kb, *b, [&](const auto& q) { give(p / q); }); }); }; break;
            case 7: if (!unit(A, i)) return; SIM_CHECK(gprod(CB, i, A) == (IV{1, 0, 0, 0, 0, 0, 0, 0}), "harness", "the model's inverse is none"); o.name = "inverse"; o.expect = i; RES(a->inv()); break;
            case 8: if (ka == 2 || !n2(a1)) return; o.name = "inverse of a part"; o.out = pinv(a1); o.f = [=]() { if (ka) give(a->v.inv()); else give(a->r.inv()); }; break;
            case 9: o.name = "s * a"; o.out = scale(a1, v); o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) give(cc(v) * p); else give(p * cc(v)); }); }; break;
            case 10: o.name = "a / s"; o.out = scale(a1, inv_mod(v1)); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(p / cc(v1)); }); }; break;
            case 11: if (ka == 2 ? !unit(a1, i) : !n2(a1)) return; if (ka != 2) i = pinv(a1); o.name = "s / a"; o.out = scale(i, v); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(cc(v) / p); }); }; break;
            case 12: o.name = "-a"; o.out = scale(a1, -1); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(-p); }); }; break;
            case 13: o.name = "reverse"; o.out = grev(CB, a1); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(p.rev()); }); }; break;
            case 14: { IV e = grev(CB, a1); for (int q = 4; q < 8; q++) e[q] = md(-e[q]); o.name = "conjugate"; o.out = e; o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) give(p.conj()); else give(am::conjugateT<typename std::decay<decltype(p)>::type>::of(p)); }); }; break; }
            case 15: o.name = "d += a"; o.expect = add(D, a1, k & 1 ? 1 : -1); if (x.i == x.d && ka != 2) return; o.dest = x.d; o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) *d += p; else *d -= p; }); }; break;
            case 16: o.name = "d *= a"; o.expect = gprod(CB, D, a1); if (x.i == x.d && ka != 2) return; o.dest = x.d; o.f = [=]() { part(ka, *a, [&](const auto& p) { *d *= p; }); }; break;
            case 17: if (x.i == x.d && ka != 2) return; if (ka == 2 ? !unit(a1, i) : !n2(a1)) return; if (ka != 2) i = pinv(a1); o.name = "d /= a"; o.expect = gprod(CB, D, i); o.dest = x.d; o.f = [=]() { part(ka, *a, [&](const auto& p) { *d /= p; }); }; break;
            case 18: o.name = "part of d by part of a"; { IV e; switch (k) { case 0: e = add(gprod(CB, ev(D), ev(A)), od(D)); INP(d->r *= a->r); break; case 1: e = add(gprod(CB, od(D), ev(A)), ev(D)); INP(d->v *= a->r); break; case 2: e = add(D, ev(A)); INP(d->r += a->r); break; default: e = add(D, od(A), -1); INP(d->v -= a->v); } o.expect = e; } break;
            case 19: o.name = "compare"; o.out = IV{A == B, A != B, A < B, A > B, A <= B, A >= B}; OUT(g_out.assign({*a == *b, *a != *b, *a < *b, *a > *b, *a <= *b, *a >= *b})); break;
            case 20: { IV p = od(A), q = k & 1 ? od(B) : ev(B); o.name = k & 1 ? "reflect" : "rotate"; o.out = k & 1 ? gprod(CB, gprod(CB, scale(q, -1), p), grev(CB, q)) : gprod(CB, gprod(CB, q, p), grev(CB, q)); o.f = [=]() { if (k & 1) give(a->v.reflect(b->v)); else give(a->v.rotate(b->r)); }; break; }
            default: {
                IV one{1, 0, 0, 0, 0, 0, 0, 0}, three = scale(one, 3), p; switch (choose(7)) {
                    case 0: o.name = "identity"; o.expect = one; RES(am::identityOf(*a)); break; case 1: o.name = "zero"; o.expect = IV(8); RES(am::zeroOf(*a)); break; case 2: o.name = "constant"; o.expect = three; RES(am::castOf<V>(*a, 3)); break;
                    case 3: { int e = small(5); p = one; for (int q = 0; q < e; q++) p = gprod(CB, p, A); o.name = "power"; o.expect = p; RES(am::powT(*a, e)); break; }
                    case 4: o.name = "from a scalar"; o.out = scale(one, v); OUT(give(R(cc(v)))); break; case 5: o.name = "from three coordinates"; p = od(A); p[7] = 0; o.out = p; OUT(give(T(a->v.x, a->v.y, a->v.z))); break;
                    default: o.name = "from a part"; o.expect = k & 1 ? ev(A) : od(A); if (k & 1) RES(V(a->r)); else RES(V(a->v)); }
            }
        }
    }
};

// ---------------------------------------------------------------- plane-based geometric algebra
// model: s | e0 e1 e2 e3 | e23 e31 e12 | e01 e02 e03 | e0123 | e123 e032 e013 e021
static const int GM[] = {0, 1, 2, 4, 8, 12, 10, 6, 3, 5, 9, 15, 14, 13, 11, 7}, GS[] = {1, 1, 1, 1, 1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1, -1}; static const Basis GB = {16, GM, GS, true};
static const int DUAL[] = {11, 12, 13, 14, 15, 8, 9, 10, 5, 6, 7, 0, 1, 2, 3, 4};
namespace pg = altruct::math::pga;
struct PgaK {
    typedef pg::multivector<C> V;
    static void setup() {}
    static IV gen() { return gen_n(16); }
    static am::vector3d<C> v3(const IV& m, int i) { return am::vector3d<C>(cc(m[i]), cc(m[i + 1]), cc(m[i + 2])); }
    static V* make(const IV& m) {
        pg::blade0<C> b0(cc(m[0])); pg::blade1<C> b1(cc(m[1]), v3(m, 2)); pg::blade2E<C> bE(v3(m, 5)); pg::blade2e<C> be(v3(m, 8)); pg::blade4<C> b4(cc(m[11])); pg::blade3<C> b3(cc(m[12]), v3(m, 13));
        switch (choose(4)) { case 0: return new V(b0, b1, bE, be, b3, b4); case 1: return new V(b1, b0, bE, be, b4, b3); case 2: return new V(b1, pg::blade02E<C>(b0, bE), pg::blade2e4<C>(be, b4), b3); default: return new V(pg::blade024<C>(pg::blade02E<C>(b0, bE), pg::blade2e4<C>(be, b4)), pg::blade13<C>(b1, b3)); }
    }
    static void put3(IV& r, int i, const am::vector3d<C>& v, const char* w) { r[i] = rdk(v.x, w); r[i + 1] = rdk(v.y, w); r[i + 2] = rdk(v.z, w); }
    static void put(IV&, pg::zero<C>) {}
    static void put(IV& r, const pg::blade0<C>& b) { r[0] = rdk(b.s, "scalar"); }
    static void put(IV& r, const pg::blade1<C>& b) { r[1] = rdk(b.e0, "e0"); put3(r, 2, b.v, "vector"); }
    static void put(IV& r, const pg::blade2E<C>& b) { put3(r, 5, b.biE, "E-bivector"); }
    static void put(IV& r, const pg::blade2e<C>& b) { put3(r, 8, b.bie, "e-bivector"); }
    static void put(IV& r, const pg::blade4<C>& b) { r[11] = rdk(b.e0123, "e0123"); }
    static void put(IV& r, const pg::blade3<C>& b) { r[12] = rdk(b.e123, "e123"); put3(r, 13, b.triP, "trivector"); }
    template<typename B> static IV any(const B& b) { typedef pg::get<B> G; IV r(16); put(r, G::b0(b)); put(r, G::b1(b)); put(r, G::b2E(b)); put(r, G::b2e(b)); put(r, G::b3(b)); put(r, G::b4(b)); return r; }
    static IV any(const C& c) { IV r(16); r[0] = rdk(c, "number"); return r; }
    static IV read(const V& v) { return any(v); }
    static void poke(V& v) { V w(v); IV a = read(v); SIM_CHECK(read(w) == a, "invalid-value", "a copy differs"); SIM_CHECK(any(v + v) == add(a, a), "invalid-value", "wrong sum"); }
    // the parts of a value, each as the type it has by itself
    enum { B0, B1, BE, Be, B3, B4, B0E, B0e, B22, BE4, Be4, B024, B13, BM, KINDS };
    template<typename F> static void part(int k, const V& v, F f) {
        const auto& e = v.b024; const auto& o = v.b13;
        switch (k) {
            case B0: f(e.b02.b0); break; case B1: f(o.b1); break; case BE: f(e.b02.b2E); break; case Be: f(e.b24.b2e); break; case B3: f(o.b3); break; case B4: f(e.b24.b4); break;
            case B0E: f(e.b02); break; case B0e: { alignas(pg::blade02e<C>) char m[sizeof(pg::blade02e<C>)]; hold<pg::blade02e<C>> h(m, e.b02.b0, e.b24.b2e); f(*h.p); break; } case B22: { alignas(pg::blade22<C>) char m[sizeof(pg::blade22<C>)]; hold<pg::blade22<C>> h(m, e.b02.b2E, e.b24.b2e); f(*h.p); break; }
            case BE4: { alignas(pg::blade2E4<C>) char m[sizeof(pg::blade2E4<C>)]; hold<pg::blade2E4<C>> h(m, e.b02.b2E, e.b24.b4); f(*h.p); break; } case Be4: f(e.b24); break; case B024: f(e); break; case B13: f(o); break; default: f(v);
        }
    }
    template<typename B> struct hold { B* p; template<typename X, typename Y> hold(void* m, const X& x, const Y& y) { NoFault nf; p = new (m) B(x, y); } ~hold() { p->~B(); } };
    static int has(int k) { static const int M[] = {1, 2, 4, 8, 16, 32, 1 | 4, 1 | 8, 4 | 8, 4 | 32, 8 | 32, 1 | 4 | 8 | 32, 2 | 16, 63}; return M[k]; }
    static int group(int i) { return i == 0 ? 1 : i < 5 ? 2 : i < 8 ? 4 : i < 11 ? 8 : i == 11 ? 32 : 16; }
    static IV pm(int k, IV a) { for (int i = 0; i < 16; i++) if (!(has(k) & group(i))) a[i] = 0; return a; }
    static IV dual(const IV& a) { IV r(16); for (int i = 0; i < 16; i++) r[DUAL[i]] = a[i]; return r; }
    static IV gr(IV a, int g) { for (int i = 0; i < 16; i++) if (grade(GM[i]) != g) a[i] = 0; return a; }
    static int n2(const IV& a) { return gprod(GB, a, grev(GB, a))[0]; }
    static IV sandwich(const IV& a, const IV& b, bool odd) { IV r(16); for (int g = 0; g <= 4; g++) r = add(r, gr(gprod(GB, gprod(GB, b, gr(a, g)), grev(GB, b)), g)); return scale(r, odd ? -1 : 1); }
    // makes b ~b a number by changing one component, which it enters linearly
    static int off(const IV& b) { return gprod(GB, b, grev(GB, b))[11]; }
    static bool versor(IV& b, int parts) {
        if (!off(b)) return true; static const int TRY[] = {11, 8, 9, 10, 1, 13, 14, 15};
        for (int i : TRY) if (parts & group(i)) { IV t = b; t[i] = 0; int f0 = off(t); t[i] = 1; int k = md(off(t) - f0); if (!k) continue; t[i] = mu(md(-f0), inv_mod(k)); b = t; return off(b) == 0; }
        return false;
    }
    template<typename X> static void give(const X& x) { NoFault nf; g_out = any(x); }
    struct Mul { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x * y); } };
    struct Wed { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x ^ y); } };
    struct Dot { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x & y); } };
    struct Joi { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x | y); } };
    struct Add { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x + y); } };
    struct Sub { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x - y); } };
    struct San { template<typename X, typename Y> void operator()(const X& x, const Y& y) { give(x % y); } template<typename X> void operator()(const X& x, const V&) { give(x); } };
    template<typename F> static void two(int ka, int kb, const V& a, const V& b, F f) { part(ka, a, [&](const auto& p) { part(kb, b, [&](const auto& q) { f(p, q); }); }); }
    struct Inv { template<typename X> void operator()(const X& x) { give(x.inv()); } void operator()(const V& x) { give(x); } };
    static void pick(Ctx<PgaK>& x, Op<V>& o) {
        V* d = x.s[x.d].get(); const V* a = x.s[x.i].get(); const V* b = x.s[x.j].get(); const IV &A = x.m[x.i], &B = x.m[x.j], &D = x.m[x.d]; int v = rnd(), v1 = rnd1(), ka = choose(KINDS), kb = choose(KINDS), k = choose(4); IV a1 = pm(ka, A), b1 = pm(kb, B);
        log("kinds %d and %d, [%s] and [%s]", ka, kb, show(a1).c_str(), show(b1).c_str());
        switch (choose(22)) {
            case 0: case 1: o.name = "geometric product"; o.out = gprod(GB, a1, b1); o.f = [=]() { two(ka, kb, *a, *b, Mul()); }; break;
            case 2: o.name = "outer product"; o.out = gprod(GB, a1, b1, 1); o.f = [=]() { two(ka, kb, *a, *b, Wed()); }; break;
            case 3: o.name = "inner product"; o.out = gprod(GB, a1, b1, 2); o.f = [=]() { two(ka, kb, *a, *b, Dot()); }; break;
            case 4: o.name = "join"; o.out = dual(gprod(GB, dual(a1), dual(b1), 1)); o.f = [=]() { two(ka, kb, *a, *b, Joi()); }; break;
            case 5: case 6: o.name = "sum"; o.out = add(a1, b1); o.f = [=]() { two(ka, kb, *a, *b, Add()); }; break;
            case 7: case 8: o.name = "difference"; o.out = add(a1, b1, -1); o.f = [=]() { two(ka, kb, *a, *b, Sub()); }; break;
            case 9: case 10: { if (kb == BM || !versor(b1, has(kb))) return; o.name = "sandwich"; o.out = sandwich(a1, b1, kb == B1 || kb == B3 || kb == B13); std::shared_ptr<V> w(make(b1)); IV wm = b1; o.f = [=]() { two(ka, kb, *a, *w, San()); NoFault nf; SIM_CHECK(read(*w) == wm, "operand-changed", "sandwich changed what it moves by"); }; break; }
            case 11: o.name = "a * s"; o.out = scale(a1, v); o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) give(p * cc(v)); else give(cc(v) * p); }); }; break;
            case 12: o.name = "a / s"; o.out = scale(a1, inv_mod(v1)); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(p / cc(v1)); }); }; break;
            case 13: o.name = k & 1 ? "-a" : "+a"; o.out = scale(a1, k & 1 ? -1 : 1); o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) give(-p); else give(+p); }); }; break;
            case 14: o.name = "reverse"; o.out = grev(GB, a1); o.f = [=]() { part(ka, *a, [&](const auto& p) { if (k & 1) give(~p); else give(p.rev()); }); }; break;
            case 15: o.name = "dual"; o.out = dual(a1); o.f = [=]() { part(ka, *a, [&](const auto& p) { give(!p); }); }; break;
            case 16: { o.name = "norms"; long long in = 0; for (int i = 0; i < 16; i++) if (GM[i] & 1) in += mu(a1[i], a1[i]); o.out = IV{n2(a1), md(in), gprod(GB, a1, a1)[0]}; o.f = [=]() { part(ka, *a, [&](const auto& p) { C x1 = p.norm2(), x2 = p.ninf2(), x3 = p.diff2(); NoFault nf; g_out = IV{rdk(x1, "norm"), rdk(x2, "norm at infinity"), rdk(x3, "difference of norms")}; }); }; break; }
            case 17: { if (ka == BM || !n2(a1)) return; if (ka == B22 && md(mu(a1[5], a1[8]) + mu(a1[6], a1[9]) + mu(a1[7], a1[10]))) return; o.name = "inverse"; IV one(16); one[0] = 1; o.out = one; o.f = [=]() { part(ka, *a, Inv()); NoFault nf; g_out = gprod(GB, g_out, a1); }; break; }
            case 18: o.name = k == 0 ? "d += a" : k == 1 ? "d -= a" : k == 2 ? "d *= s" : "d /= s"; o.expect = k == 0 ? add(D, A) : k == 1 ? add(D, A, -1) : scale(D, k == 2 ? v : inv_mod(v1)); INP(k == 0 ? *d += *a : k == 1 ? *d -= *a : k == 2 ? *d *= cc(v) : *d /= cc(v1)); break;
            case 19: { o.name = "part of d += part of a"; int g = choose(4); o.expect = add(D, pm(g == 0 ? B024 : g == 1 ? B13 : g == 2 ? B0E : B3, A)); if (g == 0) INP(d->b024 += a->b024); else if (g == 1) INP(d->b13 += a->b13); else if (g == 2) INP(d->b024.b02 += a->b024.b02); else INP(d->b13.b3 += a->b13.b3); break; }
            case 20: {
                IV e(16); int t = choose(5); auto at = [&](int to, int from, int s) { for (int i = 0; i < 3; i++) e[to + i] = md(s * A[from + i]); };
                static const char* const N[] = {"plane", "line", "point", "weighted point", "translator"}; o.name = N[t]; const auto* n = &a->b13.b1.v; const auto* q = &a->b13.b3.triP; const C* h = &a->b13.b1.e0;
                if (t == 0) { e[1] = A[1]; at(2, 2, 1); } else if (t == 1) { at(5, 2, 1); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, l = (i + 2) % 3; e[8 + i] = md(mu(A[2 + j], A[13 + l]) - mu(A[2 + l], A[13 + j])); } } else if (t == 2) { e[12] = 1; at(13, 2, -1); } else if (t == 3) { e[12] = A[1]; at(13, 2, -1); } else { e[0] = 1; for (int i = 0; i < 3; i++) e[8 + i] = mu(A[2 + i], inv_mod(2)); }
                o.out = e; o.f = [=]() { switch (t) { case 0: give(pg::plane(*n, *h)); break; case 1: give(pg::line(*n, *q)); break; case 2: give(pg::point(*n)); break; case 3: give(pg::point(*n, *h)); break; default: give(pg::translator(*n)); } }; break;
            }
            default: widen(x, o);
        }
    }
    // a part as a value of a larger type: the rest of it is zero
    static void widen(Ctx<PgaK>& x, Op<V>& o) {
        const V* a = x.s[x.i].get(); const IV& A = x.m[x.i]; int t = choose(20); const auto* e = &a->b024; const auto* d = &a->b13; static const int K[] = {B0, BE, B0, Be, BE, Be, BE, B4, Be, B4, B0, BE, Be, B4, B0e, B22, BE4, B1, B3, B024}; o.name = "as a larger type"; o.out = pm(K[t], A);
        o.f = [=]() {
            switch (t) {
                case 0: give(pg::blade02E<C>(e->b02.b0)); break; case 1: give(pg::blade02E<C>(e->b02.b2E)); break; case 2: give(pg::blade02e<C>(e->b02.b0)); break; case 3: give(pg::blade02e<C>(e->b24.b2e)); break;
                case 4: give(pg::blade22<C>(e->b02.b2E)); break; case 5: give(pg::blade22<C>(e->b24.b2e)); break; case 6: give(pg::blade2E4<C>(e->b02.b2E)); break; case 7: give(pg::blade2E4<C>(e->b24.b4)); break; case 8: give(pg::blade2e4<C>(e->b24.b2e)); break; case 9: give(pg::blade2e4<C>(e->b24.b4)); break;
                case 10: give(pg::blade024<C>(e->b02.b0)); break; case 11: give(pg::blade024<C>(e->b02.b2E)); break; case 12: give(pg::blade024<C>(e->b24.b2e)); break; case 13: give(pg::blade024<C>(e->b24.b4)); break;
                case 14: part(B0e, *a, [&](const auto& p) { wide024(p); }); break; case 15: part(B22, *a, [&](const auto& p) { wide024(p); }); break; case 16: part(BE4, *a, [&](const auto& p) { wide024(p); }); break;
                case 17: give(pg::blade13<C>(d->b1)); break; case 18: give(pg::blade13<C>(d->b3)); break; default: give(V(*e));
            }
        };
    }
    static void wide024(const pg::blade02e<C>& p) { give(pg::blade024<C>(p)); } static void wide024(const pg::blade22<C>& p) { give(pg::blade024<C>(p)); } static void wide024(const pg::blade2E4<C>& p) { give(pg::blade024<C>(p)); } template<typename X> static void wide024(const X&) {}
};

// ---------------------------------------------------------------- Moebius maps over the built-in floating point types; whole numbers, so that only the division rounds
template<typename F> static auto is_inf(const F& z, int) -> decltype(am::infinityT<F>::is(z)) { return am::infinityT<F>::is(z); }
template<typename F> static bool is_inf(const F&, long) { SIM_CHECK(false, "unusable", "infinityT of a floating point type cannot be used like that of any other type, so that Moebius maps over it cannot be applied"); return false; }
template<typename M, typename F> static auto apply(const M& m, const F& z, int) -> decltype((void)am::infinityT<F>::is(z), F()) { return m(z); }
template<typename M, typename F> static F apply(const M&, const F& z, long) { return z; }
template<typename F> static void flat(const char* name) {
    int m[4], z; do { for (int& x : m) x = (int)choose(41) - 20; } while (m[0] * m[3] == m[1] * m[2]); z = (int)choose(41) - 20; bool inf = choose(4) == 0; F in = inf ? (F)INFINITY : (F)z; if (inf && choose(2)) in = -in;
    log("%s %d %d %d %d at %d%s", name, m[0], m[1], m[2], m[3], z, inf ? " (infinite)" : ""); state(mix(mix(m[0] * 64 + m[1], m[2] * 64 + m[3]), z + 64 * inf));
    SIM_CHECK(is_inf(in, 0) == inf, "wrong-answer", "%s: infinity is not told from a number", name); SIM_CHECK(!is_inf(F(z), 0), "wrong-answer", "%s: %d is taken for infinity", name, z);
    int nu = inf ? m[0] : m[0] * z + m[1], de = inf ? m[2] : m[2] * z + m[3]; if (!de) return;
    am::moebius_tr<F> f(m[0], m[1], m[2], m[3], choose(2) ? 1 : -1); F got = apply(f, in, 0), want = F(nu) / F(de);
    SIM_CHECK(got == want, "wrong-answer", "%s: the map gives %g instead of %g", name, (double)got, (double)want);
}
SIM_SCENARIO(D13, moebius_maps_of_floats, 1) { set_crash_class("moebius_tr"); switch (choose(3)) { case 0: flat<float>("float"); break; case 1: flat<double>("double"); break; default: flat<long double>("long double"); } }

SIM_SCENARIO(D13, fractions, 2) { arith<FracK>("fraction", 40); }
SIM_SCENARIO(D13, complex_numbers, 1) { arith<QuadC<-1, am::quadratic_storage::CONSTANT>>("complex", 40); }
SIM_SCENARIO(D13, extensions_by_a_root, 1) { arith<QuadC<0, am::quadratic_storage::INSTANCE>>("quadratic", 40); }
SIM_SCENARIO(D13, the_point_at_infinity, 1) { arith<InfK>("with_infinity", 40); }
SIM_SCENARIO(D13, moebius_maps, 2) { arith<MoebK>("moebius_tr", 30); }
SIM_SCENARIO(D13, vectors_of_the_plane, 1) { arith<VecX<2>>("vector2d", 40); }
SIM_SCENARIO(D13, vectors_of_space, 1) { arith<VecX<3>>("vector3d", 40); }
SIM_SCENARIO(D13, clifford_algebra, 3) { arith<CliffK>("clifford3", 40); }
SIM_SCENARIO(D13, projective_geometric_algebra, 5) { arith<PgaK>("pga", 40); }
