// D08: helpers with hidden or owned tables answer as in a fresh process whatever
// was called before. D09: the same with allocations, coefficient operations and
// user functions failing inside the calls.
#include "../sim/env.h"
#include <math.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/structure/math/series.h"
using namespace sim;
using namespace altruct::math;
using namespace altruct::container;
namespace ahash = altruct::hash;
namespace sy = altruct::parser::shunting_yard;

typedef ahash::polynomial_hash<2> ph2;
template<> int32_t ph2::M[2] = {1000000007, 1000000009};
template<> int32_t ph2::B[2] = {131, 137};
template<> int32_t ph2::BI[2] = {190839696, 262773725};
typedef ahash::polynomial_hash<3> ph3;
template<> int32_t ph3::M[3] = {1000000007, 998244353, 1000000009};
template<> int32_t ph3::B[3] = {10, 10, 137};
template<> int32_t ph3::BI[3] = {700000005, 299473306, 262773725};
typedef ahash::polynomial_hash1<1000000007, 10, 700000005> ph1;
typedef ahash::polynomial_hash1<998244353, 10, 299473306> ph1b;
typedef modulo<int, 1000000007, modulo_storage::CONSTANT> zp;
typedef modulo<int, 998244353, modulo_storage::CONSTANT> zn;
typedef modulo<int, 1, modulo_storage::STATIC> zs;     // its modulus is set by each call
typedef moduloX<int> zx;

// a coefficient type whose copies can fail
struct Num { Elem e; Num() : e(0) {} Num(int64_t v) : e((int)v) {} int v() const { return e.v; }
    Num& operator+=(const Num& r) { e = Elem(e.get() + r.e.get()); return *this; } Num& operator-=(const Num& r) { e = Elem(e.get() - r.e.get()); return *this; }
    Num& operator*=(const Num& r) { e = Elem(e.get() * r.e.get()); return *this; } Num& operator/=(const Num& r) { fp_point(FP_COPY); e = Elem(e.get() / r.e.get()); return *this; }
    Num operator+(const Num& r) const { Num t(*this); t += r; return t; } Num operator-(const Num& r) const { Num t(*this); t -= r; return t; } Num operator*(const Num& r) const { Num t(*this); t *= r; return t; } Num operator/(const Num& r) const { Num t(*this); t /= r; return t; } Num operator-() const { return Num(0) - *this; }
    bool operator==(const Num& r) const { return e == r.e; } bool operator<(const Num& r) const { return e < r.e; } };
static int num(const Num& n) { return n.e.get(); }
static long long num(int n) { return n; }
static long long num(int64_t n) { return n; }
template<typename T, uint64_t I, int S> static long long num(const modulo<T, I, S>& n) { return n.v; }

namespace {
struct Lcg { uint64_t x; explicit Lcg(uint64_t s) : x(s * 0x9e3779b97f4a7c15ULL + 12345) {} uint32_t next() { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(x >> 33); } int in(int lo, int hi) { return lo + (int)(next() % (uint32_t)(hi - lo + 1)); } int sz(int hi) { int b = in(0, 31 - __builtin_clz(hi | 1)); return in(1, std::min(hi, 2 << b)); } };
struct Out { std::vector<long long> i; std::vector<double> d; void operator()(long long v) { i.push_back(v); } void f(double v) { d.push_back(v); } template<typename V> void all(const V& v) { uint64_t h = 17; long long n = 0; for (const auto& x : v) { h = mix(h, (uint64_t)num(x)); n++; } i.push_back(n); i.push_back((long long)h); } };
bool same(const Out& a, const Out& b, double tol = 1e-9) { if (a.i != b.i || a.d.size() != b.d.size()) return false; for (size_t k = 0; k < a.d.size(); k++) if (!(fabs(a.d[k] - b.d[k]) <= tol * (1 + fabs(a.d[k])))) return false; return true; }
std::string show(const Out& o) { std::string s; char b[40]; for (size_t k = 0; k < o.i.size() && k < 12; k++) { snprintf(b, sizeof b, "%lld ", o.i[k]); s += b; } for (size_t k = 0; k < o.d.size() && k < 6; k++) { snprintf(b, sizeof b, "%.12g ", o.d[k]); s += b; } return s; }

enum { KPRIME, KPRIME_NEW, KPRIME_COPY, KPRIME_ASSIGN, KFACT_NEW, KFACT, KFACT_COPY, KROOT, KFFT, KMUL, KSUMPOW, KNIMBER, KPRIMEPI, KHASH, KHASH1, KCUMUL, KMEMO, KPARSER, KSERIES, KKINDS };
const char* const NAME[] = {"prime_holder", "new prime_holder", "copy of prime_holder", "assignment of prime_holder", "new factorial_holder", "factorial_holder", "copy of factorial_holder", "complex_root_wrapper", "fft", "polynom_mul", "sum_pow", "nimber", "prime_pi_deprecated", "polynomial_hash", "polynomial_hash1", "cumulative_hash", "memo table", "shunting_yard", "series"};
struct Op { int kind; uint32_t seed; int slot, slot2, sz, sz2; };
enum { SLOTS = 3, MEMOS = 9 };

// what the caller owns
struct World {
    std::unique_ptr<prime_holder> ph[SLOTS]; std::unique_ptr<factorial_holder<zp>> fa[SLOTS];
    std::unordered_map<int64_t, int> m0; sqrt_map<int64_t, zp> m1; lohi_map<int64_t, zn> m2; std::map<int64_t, int64_t> m3; std::unordered_map<int64_t, Num> m4; std::unordered_map<int64_t, std::pair<int64_t, int64_t>> m5; std::unordered_map<int64_t, Num> m6; lohi_map<int64_t, Num> m7; sqrt_map<int64_t, Num> m8;
    struct Held { int slot; std::function<bool()> ok; const char* what; };
    std::vector<Held> held;
    World() : m1(31, 1000), m2(20), m7(12), m8(31, 1000) {}
    void hold(int slot, const char* what, std::function<bool()> f) { NoFault nf; if (held.size() < 24) held.push_back({slot, f, what}); }
    void drop(int slot) { for (size_t i = held.size(); i-- > 0;) if (held[i].slot == slot) held.erase(held.begin() + i); }
};
const std::vector<int>* g_p; const std::vector<int>* g_pi;   // primes and prime counts, from a plain sieve

struct ScopedZs { explicit ScopedZs(int m) { zs::M() = m; } };
template<typename T> void emit(Out& o, const T& t) { o(num(t)); }
void emit(Out& o, double d) { o.f(d); }

void prime_op(World& w, const Op& op, Out& o, bool keep) {
    prime_holder& h = *w.ph[op.slot]; Lcg r(op.seed); int sz = op.sz; int s = op.slot;
    auto hold = [&](const char* what, const std::vector<int>& v) { if (!keep) return; NoFault nf; const std::vector<int>* pv = &v; const int* d = v.data(); std::vector<int> c(v); w.hold(s, what, [pv, d, c]() { return pv->size() == c.size() && std::equal(c.begin(), c.end(), d); }); };
    for (int k = r.in(1, 2); k > 0; k--) switch (r.in(0, 15)) {
        case 0: o.all(h.p()); hold("primes", h.p()); break;
        case 1: { auto& q = h.q(); uint64_t x = 3; for (char c : q) x = mix(x, c != 0); o((long long)q.size()); o((long long)x); break; }
        case 2: o.all(h.pf()); hold("prime factors", h.pf()); break;
        case 3: o.all(h.pi()); hold("prime counts", h.pi()); break;
        case 4: o.all(h.phi()); hold("totients", h.phi()); break;
        case 5: o.all(h.mu()); hold("Moebius values", h.mu()); break;
        case 6: o.all(h.nu()); hold("prime nu", h.nu()); break;
        case 7: o.all(h.mertens()); hold("Mertens sums", h.mertens()); break;
        case 8: o(h.primes()); o(h.size()); break;
        case 9: case 10: { int n = r.in(1, sz - 1); for (auto& e : h.factor_integer(n)) { o(e.first); o(e.second); } break; }
        case 11: { std::vector<int> v; for (int i = r.in(1, 4); i > 0; i--) v.push_back(r.in(1, sz - 1)); for (auto& e : h.factor_integer(v)) { o(e.first); o(e.second); } o.all(h.divisors<int64_t>(v, 100000)); break; }
        case 12: { int n = r.in(1, sz - 1), x = r.in(0, 20); o.all(h.divisors(n, x)); break; }
        case 13: { int i = r.in(0, sz - 1); o(h.q(i)); o(h.phi(i)); o(h.mu(i)); break; }
        case 14: { int i = r.in(0, sz - 1); o(h.pi(i)); o(h.nu(i)); o(h.mertens(i)); break; }
        default: { int i = r.in(1, sz - 1); o(h.mu(i)); o(h.pf(i)); }
    }
}
void fact_op(World& w, const Op& op, Out& o, bool) { auto& f = *w.fa[op.slot]; Lcg r(op.seed); o(f.size()); o.all(f.fact()); o.all(f.ifact()); o.all(f.inv()); int n = r.in(0, op.sz - 1); o(f.bin(n, r.in(0, n)).v); o(f.inv(n).v); }
template<typename F> void root_one(World& w, Lcg& r, Out& o, bool keep) {
    int n = 1 << r.in(0, r.in(0, 9)); int l = n == 1 ? 1 : r.in(n / 2 + 1, n); auto root = complex_root_wrapper<F>(l); auto c = powT(root, root.size / n);
    auto check = [c, n]() { auto p = c; for (int i = 1; i <= n; i++) { complex<F> z = p; F a = 2 * acos(F(-1)) * i / n; if (!(fabs(z.a - cos(a)) < 1e-4 && fabs(z.b - sin(a)) < 1e-4)) return false; if (i > 40 && (i & (i - 1))) i += 7; if (i > n) break; p = c; p.index = (int)((long long)c.index * (i + 1) & (c.size - 1)); } return true; };
    auto p = c; for (int i = 0; i < std::min(n, 12); i++) { complex<F> z = p; o.f(1 + floor(z.a * 1e5 + 0.5) * 1e-5); o.f(1 + floor(z.b * 1e5 + 0.5) * 1e-5); p *= c; }
    o(check()); if (keep) { NoFault nf; w.hold(-1, "root of unity", check); }
}
void root_op(World& w, const Op& op, Out& o, bool keep) { Lcg r(op.seed); if (r.in(0, 2)) root_one<double>(w, r, o, keep); else root_one<float>(w, r, o, keep); }
void fft_op(World&, const Op& op, Out& o, bool) {
    Lcg r(op.seed); typedef complex<double> cplx; int n = 1 << r.in(0, 6); std::vector<cplx> a(n); for (auto& c : a) c = cplx(r.in(-99, 99), r.in(-99, 99)); auto root = complex_root_wrapper<double>(n << r.in(0, 2)); root = powT(root, root.size / n); auto a0 = a;
    if (r.in(0, 1)) { fft(a.data(), n, root); for (auto& c : a) { o.f(floor(c.a * 1000 + 0.5)); o.f(floor(c.b * 1000 + 0.5)); } }
    else { std::vector<cplx> b(n); for (auto& c : b) c = cplx(r.in(-9, 9), 0); fft(a.data(), n, root); fft(b.data(), n, root); for (int i = 0; i < n; i++) a[i] *= b[i]; fft(a.data(), n, powT(root, n - 1)); for (auto& c : a) { o((long long)llround(c.a / n)); o((long long)llround(c.b / n)); } }
}
template<typename Z> void mul_one(Lcg& r, Out& o, std::function<Z(int)> make) {
    int n = r.sz(90), m = r.sz(n); std::vector<Z> a(n + 1, make(0)), b(m + 1, make(0)), c(n + m + 1, make(0)); for (auto& x : a) x = make(r.in(0, 1000000006)); for (auto& x : b) x = make(r.in(0, 1000000006));
    switch (r.in(0, 3)) { case 0: polynom_mul<Z>::_mul_fft(c.data(), n + m, a.data(), n, b.data(), m); break; case 1: polynom_mul<Z>::_mul_fft_crt(c.data(), n + m, a.data(), n, b.data(), m); break; case 2: polynom_mul<Z>::_mul_fft_big(c.data(), n + m, a.data(), n, b.data(), m); break;
        default: { polynom<Z> p(a), q(b); auto t = p * q; for (int i = 0; i <= n + m; i++) c[i] = t.at(i); } }
    o.all(c);
}
void mul_op(World&, const Op& op, Out& o, bool) { Lcg r(op.seed); switch (r.in(0, 3)) { case 0: mul_one<zp>(r, o, [](int v) { return zp(v); }); break; case 1: mul_one<zn>(r, o, [](int v) { return zn(v); }); break; case 2: { static const int M[] = {1000003, 999983, 1000000007}; int m = M[r.in(0, 2)]; mul_one<zx>(r, o, [m](int v) { return zx(v, m); }); break; } default: { static const int M[] = {10007, 65537, 998244353}; zs::M() = M[r.in(0, 2)]; mul_one<zs>(r, o, [](int v) { return zs(v); }); } } }
void sumpow_op(World&, const Op& op, Out& o, bool) {
    Lcg r(op.seed); int p = r.in(0, 14), n = r.in(0, 60); static const int M[] = {10007, 65537, 998244353, 101};
    switch (r.in(0, 7)) { case 0: o(sum_pow<zp>(p, n).v); break; case 1: o(sum_pow<zn>(p, n).v); break; case 2: { int m = M[r.in(0, 3)]; auto s = sum_pow<zx>(p, n, zx(1, m)); o(s.v); o(s.M()); break; } case 3: { zs::M() = M[r.in(0, 3)]; o(sum_pow<zs>(p, n).v); break; }
        case 4: o.f(sum_pow<double>(p, n)); break; case 5: { zs::M() = M[r.in(0, 3)]; o.all(bernoulli_b<zs>(p)); break; } case 6: { auto f = sum_pow<fraction<int64_t>>(std::min(p, 6), std::min(n, 12)); o(f.p); o(f.q); break; } default: { zs::M() = M[r.in(0, 2)]; o(sum_powx<zs>(std::min(p, 5), zs(r.in(2, 90)), n).v); } }
}
template<typename U> void nim_one(Lcg& r, Out& o) { typedef nimber<U> N; auto any = [&]() { uint64_t v = (uint64_t)r.next() << 33 ^ r.next(); int b = r.in(0, 3); return N((U)(b == 0 ? v & 15 : b == 1 ? v & 255 : v)); }; N a = any(), b = any(); N c = a * b; o((long long)c.v); o((long long)N::mul2(a, b).v); o((long long)(c + a).v); o((long long)a.sqrt().v); if (r.in(0, 3) == 0 && b.v) o((long long)((a / b) * b).v); o((long long)N::mul_pow2(r.in(0, (int)sizeof(U) * 8 - 1), r.in(0, (int)sizeof(U) * 8 - 1))); }
void nimber_op(World&, const Op& op, Out& o, bool) { Lcg r(op.seed); switch (r.in(0, 3)) { case 0: nim_one<uint8_t>(r, o); break; case 1: nim_one<uint16_t>(r, o); break; case 2: nim_one<uint32_t>(r, o); break; default: nim_one<uint64_t>(r, o); } }
void primepi_op(World&, const Op& op, Out& o, bool) {
    Lcg r(op.seed); int m = r.in(0, 2) ? r.in(0, 3000) : r.in(0, 1) ? r.in(65400, 66800) : r.in(3000, 200000); int known = r.in(0, 2) ? 0 : r.in(0, (int)g_pi->size());
    switch (r.in(0, 2)) { case 0: o(prime_pi_deprecated<int64_t, int>(m, g_pi->data(), g_p->data(), known)); break; case 1: o(prime_pi_deprecated<int, int>(m, g_pi->data(), g_p->data(), known)); break; default: o(prime_pi_deprecated<int64_t, int>(m, g_pi->data(), g_p->data())); o(prime_pi_deprecated<int, int>(m / 2, g_pi->data(), g_p->data())); }
}
template<typename H> void hash_steps(H h, Lcg& r, Out& o, std::function<void(const H&)> emit) { for (int k = r.in(1, 3); k > 0; k--) { int pos = r.in(0, r.in(0, 5) ? r.in(0, 40) : 400); switch (r.in(0, 4)) { case 0: h <<= pos; break; case 1: h >>= pos; break; case 2: h.add(r.in(1, 90), pos); break; case 3: h.sub_shr(r.in(1, 90), pos); break; default: { H g; g.add(r.in(1, 90), pos / 2); h.add(g, pos); h.sub_shr(g, pos / 3); } } emit(h); } }
void hash_op(World&, const Op& op, Out& o, bool) { Lcg r(op.seed); if (r.in(0, 1)) hash_steps<ph2>(ph2{r.in(0, 99), r.in(0, 99)}, r, o, [&](const ph2& h) { o(h.h[0]); o(h.h[1]); }); else hash_steps<ph3>(ph3{r.in(0, 99), r.in(0, 99), 5}, r, o, [&](const ph3& h) { o(h.h[0]); o(h.h[1]); o(h.h[2]); }); }
void hash1_op(World&, const Op& op, Out& o, bool) { Lcg r(op.seed); if (r.in(0, 1)) hash_steps<ph1>(ph1(r.in(0, 99)), r, o, [&](const ph1& h) { o(h.h); }); else hash_steps<ph1b>(ph1b(r.in(0, 99)), r, o, [&](const ph1b& h) { o(h.h); }); }
template<typename H> void cumul_one(World& w, Lcg& r, Out& o, bool keep, std::function<long long(const H&)> val) {
    std::string s; for (int n = r.in(0, 4) ? r.in(0, 60) : r.in(0, 500); n > 0; n--) s += (char)r.in('a', 'c'); auto c = std::make_shared<ahash::cumulative_hash<H>>(s.begin(), s.end());
    if (r.in(0, 2) == 0) { for (int i = 0; i < 3; i++) { char x = (char)r.in('a', 'c'); c->push_back((int)x); s += x; } if (r.in(0, 1)) { c->pop_back(); s.pop_back(); } }
    int n = (int)s.size(), len = n ? r.in(0, n - 1) / 2 : 0; for (int i = 0; i < 4 && n; i++) { int b = r.in(0, n - len), e = b + len; o(val(c->get(b, e))); } o((long long)c->size());
    if (keep && n) { int b = r.in(0, n - len), e = b + len; long long v = val(c->get(b, e)); NoFault nf; w.hold(-1, "cumulative hash", [c, b, e, v, val]() { return val(c->get(b, e)) == v; }); }
}
void cumul_op(World& w, const Op& op, Out& o, bool keep) { Lcg r(op.seed); switch (r.in(0, 2)) { case 0: cumul_one<ph2>(w, r, o, keep, [](const ph2& h) { return (long long)h.h[0] * 1000 + h.h[1] % 1000; }); break; case 1: cumul_one<ph3>(w, r, o, keep, [](const ph3& h) { return (long long)h.h[1] * 1000 + h.h[2] % 1000; }); break; default: cumul_one<ph1>(w, r, o, keep, [](const ph1& h) { return (long long)h.h; }); } }
// tables the caller hands to a recursion that fills them
void memo_op(World& w, const Op& op, Out& o, bool) {
    Lcg r(op.seed); int64_t n = r.in(0, 3) ? 1000 / r.in(1, 60) : r.in(1, 900); int64_t nd = 1000 / r.in(1, 60);
    switch (op.slot) {
        case 0: for (int k = r.in(1, 2); k > 0; k--, n = n / 2 + 1) o(mertens<int>(n, w.m0)); break;
        case 1: o(mertens<zp>(nd, w.m1).v); break;
        case 2: o(mertens_odd<zn>(n, w.m2).v); break;
        case 3: o(sqfree_count<int64_t>(n, w.m3, int64_t(1))); break;
        case 4: o(num(sum_m<Num>([](int64_t k) { fp_point(FP_USER); return (int)(k * (k + 1) / 2); }, n, w.m4, Num(1)))); break;     // totient sums
        case 5: { std::vector<std::pair<int64_t, int>> f; static const int P[] = {2, 5, 13, 17, 29, 37, 41, 3, 101}; std::map<int64_t, int> m; for (int i = r.in(1, 3); i > 0; i--) { int p = P[r.in(0, 8)]; m[p] += p == 3 ? 2 : 1; } for (auto& e : m) f.push_back(e); auto v = squares_r_list<int64_t, int64_t>(f, r.in(0, 1), w.m5); for (auto& e : v) { o(e.first); o(e.second); } break; }
        case 6: o(num(sum_m<Num>([](int64_t) { fp_point(FP_USER); return 1; }, [](int64_t k) { fp_point(FP_USER); return (int)k; }, n, w.m6, Num(1)))); break;
        case 7: o(num(sqfree_count<Num>(n, w.m7, Num(1)))); break;
        default: o(num(sum_m<Num>([](int64_t k) { return (int)k; }, [](int64_t k) { return (int)((k + 1) / 2); }, nd, w.m8, Num(1))));
    }
}
void parser_op(World& w, const Op& op, Out& o, bool keep) {
    Lcg r(op.seed); typedef sy::infix_token T; std::vector<T> t; int n = r.in(1, 5); std::vector<double> v; std::vector<int> vi;
    for (int i = 0; i < n; i++) { if (i) t.push_back({T::type_t::OPERATOR, r.in(1, 3)}); bool par = r.in(0, 3) == 0; if (par) t.push_back({T::type_t::LEFT_PARENTHESIS, 0}); if (r.in(0, 4) == 0) t.push_back({T::type_t::OPERATOR, 0}); t.push_back({T::type_t::OPERAND, i}); v.push_back(r.in(1, 9)); vi.push_back(r.in(1, 9)); if (par) t.push_back({T::type_t::RIGHT_PARENTHESIS, 0}); }
    switch (r.in(0, 2)) { case 0: { auto p = sy::infix_to_postfix<>(t, sy::basic_math<double>::operators()); for (double d : sy::evaluate_postfix<double>(p, v, sy::basic_math<double>::evaluators())) o.f(d); break; }
        case 1: { auto p = sy::infix_to_postfix<>(t, sy::floating_point_math<double>::operators()); for (double d : sy::evaluate_postfix<double>(p, v, sy::floating_point_math<double>::evaluators())) o.f(d); break; }
        default: { std::vector<T> ti = {{T::type_t::OPERAND, 0}, {T::type_t::OPERATOR, r.in(0, 1) ? (int)sy::integer_math<int>::ADD : (int)sy::integer_math<int>::MUL}, {T::type_t::OPERAND, 1}, {T::type_t::OPERATOR, sy::integer_math<int>::MUL}, {T::type_t::OPERAND, 0}}; vi.push_back(4); auto p = sy::infix_to_postfix<>(ti, sy::integer_math<int>::operators()); for (int x : sy::evaluate_postfix<int>(p, vi, sy::integer_math<int>::evaluators())) o(x); } }
    (void)w; (void)keep;
}
void series_op(World&, const Op& op, Out& o, bool) { Lcg r(op.seed); typedef series<zp, 8> ser; typedef series<zn, 0, series_storage::INSTANCE> dser; int n = r.in(2, 20); if (r.in(0, 1)) { std::vector<zp> v; for (int i = 0; i < 8; i++) v.push_back(zp(r.in(1, 99))); ser s(polynom<zp>(v), 8); auto i = s.inverse(); o.all((s * i).p.c); auto e = ser::exp(zp(2)); for (int k = 0; k < 8; k++) o(e[k].v); } else { std::vector<zn> v; for (int i = 0; i < n; i++) v.push_back(zn(r.in(1, 99))); dser s(polynom<zn>(v), n); auto l = s.ln(0); for (int k = 0; k < n; k++) o(l[k].v); auto e = dser::exp(zn(3), n); for (int k = 0; k < n; k++) o(e[k].v); o(e.N()); } }

// Carries out one call. `keep`: results may be held on to.
void carry_out(World& w, const Op& op, Out& o, bool keep) {
    switch (op.kind) {
        case KPRIME: prime_op(w, op, o, keep); break;
        case KPRIME_NEW: { std::unique_ptr<prime_holder> h(new prime_holder(op.sz)); w.drop(op.slot); w.ph[op.slot] = std::move(h); o(op.sz); break; }
        case KPRIME_COPY: { std::unique_ptr<prime_holder> h(new prime_holder(*w.ph[op.slot2])); w.drop(op.slot); w.ph[op.slot] = std::move(h); o(w.ph[op.slot]->size()); break; }
        case KPRIME_ASSIGN: { prime_holder t(*w.ph[op.slot2]); w.drop(op.slot); *w.ph[op.slot] = std::move(t); o(w.ph[op.slot]->size()); break; }
        case KFACT_NEW: { std::unique_ptr<factorial_holder<zp>> h(new factorial_holder<zp>(op.sz)); w.fa[op.slot] = std::move(h); o(op.sz); break; }
        case KFACT: fact_op(w, op, o, keep); break;
        case KFACT_COPY: { std::unique_ptr<factorial_holder<zp>> h(new factorial_holder<zp>(*w.fa[op.slot2])); w.fa[op.slot] = std::move(h); o(w.fa[op.slot]->size()); break; }
        case KROOT: root_op(w, op, o, keep); break;
        case KFFT: fft_op(w, op, o, keep); break;
        case KMUL: mul_op(w, op, o, keep); break;
        case KSUMPOW: sumpow_op(w, op, o, keep); break;
        case KNIMBER: nimber_op(w, op, o, keep); break;
        case KPRIMEPI: primepi_op(w, op, o, keep); break;
        case KHASH: hash_op(w, op, o, keep); break;
        case KHASH1: hash1_op(w, op, o, keep); break;
        case KCUMUL: cumul_op(w, op, o, keep); break;
        case KMEMO: memo_op(w, op, o, keep); break;
        case KPARSER: parser_op(w, op, o, keep); break;
        case KSERIES: series_op(w, op, o, keep); break;
    }
}
// What the call gives in a fresh process, on fresh objects of the same sizes.
enum { MAXI = 600 };
Out fresh(const Op& op) {
    struct Sh { uint32_t ok, ni, nd; long long i[MAXI]; double d[MAXI]; }; static Sh* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->ok = 0; pid_t p = fork(); if (p < 0) fail("simulator-limit", "fork failed");
    if (p == 0) { World w; Out o; bool src = op.kind == KPRIME_COPY || op.kind == KPRIME_ASSIGN || op.kind == KFACT_COPY;
        if (op.kind == KPRIME || op.kind == KPRIME_ASSIGN) w.ph[op.slot].reset(new prime_holder(op.sz)); if (op.kind == KFACT) w.fa[op.slot].reset(new factorial_holder<zp>(op.sz)); if (src) { w.ph[op.slot2].reset(new prime_holder(op.sz2)); w.fa[op.slot2].reset(new factorial_holder<zp>(op.sz2)); }
        carry_out(w, op, o, false); if (o.i.size() > MAXI || o.d.size() > MAXI) _exit(3);
        sh->ni = (uint32_t)o.i.size(); sh->nd = (uint32_t)o.d.size(); std::copy(o.i.begin(), o.i.end(), sh->i); std::copy(o.d.begin(), o.d.end(), sh->d); sh->ok = 1; _exit(0); }
    int st; waitpid(p, &st, 0); SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->ok, "fresh-call-fails", "%s(%u) of size %d fails as the first call of a process (status %x)", NAME[op.kind], op.seed, op.sz, st);
    Out o; o.i.assign(sh->i, sh->i + sh->ni); o.d.assign(sh->d, sh->d + sh->nd); return o;
}
void sieve() {
    static std::vector<int> p, pi; if (!g_p) { int n = 4200; std::vector<char> q(n + 1, 1); pi.assign(n + 1, 0); for (int i = 2; i <= n; i++) { pi[i] = pi[i - 1]; if (!q[i]) continue; p.push_back(i); pi[i]++; for (int j = 2 * i; j <= n; j += i) q[j] = 0; } g_p = &p; g_pi = &pi; }
}
Op draw(int only, int* psz, int* fsz) {
    static const int KIND[] = {KPRIME, KPRIME, KPRIME, KPRIME, KPRIME_NEW, KPRIME_COPY, KPRIME_ASSIGN, KFACT_NEW, KFACT, KFACT_COPY, KROOT, KROOT, KFFT, KMUL, KMUL, KSUMPOW, KSUMPOW, KNIMBER, KPRIMEPI, KPRIMEPI, KHASH, KHASH, KHASH1, KCUMUL, KMEMO, KMEMO, KMEMO, KMEMO, KPARSER, KSERIES};
    static const int GROUP[][5] = {{KPRIME, KPRIME, KPRIME, KPRIME_NEW, KPRIME_COPY}, {KROOT, KROOT, KFFT, KMUL, KROOT}, {KHASH, KHASH, KHASH1, KCUMUL, KCUMUL}, {KMEMO, KMEMO, KMEMO, KMEMO, KMEMO}, {KSUMPOW, KSUMPOW, KMUL, KNIMBER, KPRIMEPI}};
    Op op; op.kind = only < 0 ? KIND[choose(sizeof KIND / sizeof *KIND)] : GROUP[only][choose(5)]; op.seed = choose(op.kind == KMEMO || op.kind == KSUMPOW ? 4000 : 100000); op.slot = choose(SLOTS); op.slot2 = choose(SLOTS); op.sz = op.sz2 = 0;
    switch (op.kind) {
        case KPRIME_NEW: op.sz = psz[op.slot] = 3 + small(400); break; case KPRIME_COPY: case KPRIME_ASSIGN: op.sz2 = psz[op.slot2]; op.sz = psz[op.slot]; psz[op.slot] = op.sz2; break; case KPRIME: op.sz = psz[op.slot]; break;
        case KFACT_NEW: op.sz = fsz[op.slot] = 2 + small(60); break; case KFACT_COPY: op.sz2 = fsz[op.slot2]; op.sz = fsz[op.slot] = op.sz2; break; case KFACT: op.sz = fsz[op.slot]; break; case KMEMO: op.slot = choose(MEMOS); break; }
    return op;
}
void history(bool faults, int only) {
    sieve(); int psz[SLOTS], fsz[SLOTS]; std::vector<Op> plan; std::vector<Out> want; int n = 2 + small(12);
    for (int i = 0; i < SLOTS; i++) { psz[i] = 3 + (int)small(300); fsz[i] = 2 + (int)small(40); }
    int psz0[SLOTS], fsz0[SLOTS]; memcpy(psz0, psz, sizeof psz); memcpy(fsz0, fsz, sizeof fsz);
    for (int i = 0; i < n; i++) { if (i && chance(1, 4)) { Op op = plan[choose((uint32_t)i)]; if (op.kind == KROOT || op.kind >= KFFT) { plan.push_back(op); want.push_back(want[0]); want.back() = fresh(op); continue; } } plan.push_back(draw(only, psz, fsz)); want.push_back(fresh(plan.back())); }
    World w; { for (int i = 0; i < SLOTS; i++) { w.ph[i].reset(new prime_holder(psz0[i])); w.fa[i].reset(new factorial_holder<zp>(fsz0[i])); } }
    uint64_t h = 7;
    for (int i = 0; i < n; i++) {
        const Op& op = plan[i]; set_crash_class(NAME[op.kind]); bool done = false;
        for (int tries = 0; !done; tries++) {
            Out o; bool threw = false, arm = faults && tries < 3 && choose(3) != 0; if (arm) fp_arm(1 + (choose(3) ? choose(6) : choose(120)));
            try { carry_out(w, op, o, true); } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
            bool fired = arm && fp_disarm(); log("%s%s(%u) slot %d/%d size %d/%d%s", tries ? "again " : "", NAME[op.kind], op.seed, op.slot, op.slot2, op.sz, op.sz2, threw ? " failed" : "");
            SIM_CHECK(fired == threw, fired ? "swallowed" : "refused", fired ? "%s(%u): a failure did not reach the caller" : "%s(%u): failed without a reason", NAME[op.kind], op.seed); h = mix(h, op.kind * 2 + threw);
            if (threw) { probe("call-failed"); char b[60]; snprintf(b, sizeof b, "failed-%s", NAME[op.kind]); probe(b); if (op.kind > KFACT_COPY && choose(4) == 0) break; continue; }   // given up, or made again
            SIM_CHECK(same(want[i], o), "result-differs", "%s(%u)%s gives %s instead of %s as in a fresh process", NAME[op.kind], op.seed, tries ? " after a failed call" : "", show(o).c_str(), show(want[i]).c_str()); done = true; if (tries) probe("made-again");
            char b[60]; snprintf(b, sizeof b, "call-%s", NAME[op.kind]); probe(b);
        }
        for (auto& e : w.held) SIM_CHECK(e.ok(), "held-result-changed", "a %s obtained earlier has changed", e.what);
        state(h);
    }
    // everything once more, after all of it
    for (int i = 0; i < n; i++) { const Op& op = plan[i]; if (op.kind <= KFACT_COPY || chance(1, 2)) continue; Out o; set_crash_class(NAME[op.kind]); carry_out(w, op, o, false); log("again %s(%u)", NAME[op.kind], op.seed); SIM_CHECK(same(want[i], o), "result-differs", "%s(%u) at the end gives %s instead of %s as in a fresh process", NAME[op.kind], op.seed, show(o).c_str(), show(want[i]).c_str()); }
}
} // namespace

#ifdef P_D08
SIM_SCENARIO(D08, any_calls, 3) { history(false, -1); }
SIM_SCENARIO(D08, related_calls, 2) { history(false, (int)choose(5)); }
#endif
#ifdef P_D09
SIM_SCENARIO(D09, any_calls, 3) { history(true, -1); }
SIM_SCENARIO(D09, related_calls, 2) { history(true, (int)choose(5)); }
#endif
