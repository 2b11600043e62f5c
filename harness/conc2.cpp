// C06: threads on separate objects; C07: concurrent read-only queries of one object.
#include "../sim/core.h"
#include "../sim/csim.h"
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/bits.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/modulos.h"
#include "altruct/algorithm/math/polynom_mod.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/algorithm/random/mersenne_twister.h"
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/io/fast_io.h"
#include "altruct/io/reader.h"
#include "altruct/io/stream_tokenizer.h"
#include "altruct/io/writer.h"
#include "altruct/structure/container/binary_heap.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/bit_vector.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/rope.h"
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/graph/graph.h"
#include "altruct/structure/math/factorial_holder.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/modulo.h"
#include "altruct/structure/math/nimber.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/prime_holder.h"
#include "altruct/structure/math/root_wrapper.h"
#include "altruct/structure/math/series.h"
using namespace altruct::math;
using namespace altruct::container;
namespace aio = altruct::io;
namespace arand = altruct::random;
namespace ahash = altruct::hash;
namespace sy = altruct::parser::shunting_yard;

typedef ahash::polynomial_hash<2> ph2;
template<> int32_t ph2::M[2] = {1000000007, 1000000009};
template<> int32_t ph2::B[2] = {131, 137};
template<> int32_t ph2::BI[2] = {190839696, 262773725};
typedef ahash::polynomial_hash1<1000000007, 10, 700000005> ph1;
typedef modulo<int, 998244353> zn;
typedef modulo<int, 1000000007> zp;

namespace tasks {
struct Lcg { uint64_t x; explicit Lcg(uint64_t s) : x(s * 0x9e3779b97f4a7c15ULL + 12345) {} uint32_t next() { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(x >> 33); } int in(int lo, int hi) { return lo + (int)(next() % (uint32_t)(hi - lo + 1)); } };
struct Out { std::string s; void f(const char* fmt, ...) __attribute__((format(printf, 2, 3))) { char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); s += b; } void i(long long v) { f("%lld ", v); } void d(double v) { f("%.9g ", v); } };

static ssize_t cookie_w(void* c, const char* p, size_t n) { ((std::string*)c)->append(p, n); return (ssize_t)n; }
struct Inp { const char* p; size_t n, at; };
static ssize_t cookie_r(void* c, char* p, size_t n) { Inp* i = (Inp*)c; size_t k = std::min(n, std::min<size_t>(7, i->n - i->at)); memcpy(p, i->p + i->at, k); i->at += k; return (ssize_t)k; }
static FILE* cookie(void* c, bool w) { cookie_io_functions_t io = {}; if (w) io.write = cookie_w; else io.read = cookie_r; return fopencookie(c, w ? "wb" : "rb", io); }

// ---------------------------------------------------------------- tasks: a function of its parameter alone
void t_string_writer(Lcg& r, Out& o) {
    char buf[600]; memset(buf, 0, sizeof buf); aio::string_writer sw(buf, sizeof buf); { aio::simple_writer w(sw, r.in(3, 40)); aio::simple_writer_stream s(w);
    for (int i = r.in(1, 6); i > 0; i--) switch (r.in(0, 5)) { case 0: w.write_int(r.in(-100000, 100000)); break; case 1: w.write_ll((long long)r.next() * r.next()); break; case 2: w.write_double(r.next() / 977.0, r.in(0, 9)); break; case 3: w.write_integral_number<int>(r.in(0, 999), r.in(1, 9)); break; case 4: s << (int)r.in(-5, 5) << std::string("ab") << 'c'; break; default: w.write_double(r.next() * 1e-3, 4, true); } }
    o.s += buf;
}
void t_fast_write(Lcg& r, Out& o) {
    std::string got; FILE* f = cookie(&got, true); { aio::fast_write w(f, r.in(2, 40));
    for (int i = r.in(1, 6); i > 0; i--) switch (r.in(0, 4)) { case 0: w.write_int(r.in(-100000, 100000)); break; case 1: w.write_ll((long long)r.next() * r.next()); break; case 2: w.write_double(r.next() / 977.0, r.in(0, 9)); break; case 3: w << r.in(1, 99) << std::string("xy"); break; default: w.write_double(r.next() * 1e-3, 4, true); } w.write_char('.'); }
    fclose(f); o.s += got;
}
std::string numbers(Lcg& r) { std::string t; char b[40]; for (int i = r.in(1, 6); i > 0; i--) { snprintf(b, sizeof b, "%d %d.%d word%d\n", r.in(-9999, 9999), r.in(0, 99), r.in(0, 99), r.in(0, 9)); t += b; } return t; }
void t_reader(Lcg& r, Out& o) {
    std::string t = numbers(r); Inp in{t.data(), t.size(), 0}; FILE* f = cookie(&in, false); { aio::file_reader fr(f); aio::simple_reader rd(fr, r.in(4, 40)); aio::simple_reader_stream s(rd);
    for (int i = 0; i < 3; i++) { int a; double d; std::string w; s >> a >> d >> w; o.i(a); o.d(d); o.s += w; rd.read_line(); } }
    fclose(f);
}
void t_fast_read(Lcg& r, Out& o) {
    std::string t = numbers(r); Inp in{t.data(), t.size(), 0}; FILE* f = cookie(&in, false); { aio::fast_read rd(f, r.in(4, 40));
    for (int i = 0; i < 3; i++) { int a; double d; std::string w; rd >> a >> d >> w; o.i(a); o.d(d); o.s += w; } }
    fclose(f);
}
void t_hash1(Lcg& r, Out& o) { ph1 h(r.in(1, 1000)); for (int i = r.in(1, 5); i > 0; i--) { int k = r.in(0, 60); h.add(ph1(r.in(1, 99)), k); o.i((h << k).h); o.i((h >> k).h); o.i(((h << k) >> k).h); } }
void t_hash2(Lcg& r, Out& o) { std::string s; for (int i = r.in(1, 50); i > 0; i--) s += (char)r.in('a', 'd'); ahash::cumulative_hash<ph2> c(s.begin(), s.end()); c.push_back('x'); for (int i = 0; i < 4; i++) { size_t b = r.next() % (s.size() + 1), e = b + r.next() % (s.size() + 1 - b); ph2 h = c.get(b, e); o.i(h.h[0]); o.i(h.h[1]); } ph2 h{5, 7}; h <<= r.in(0, 70); o.i(h.h[0]); h >>= r.in(0, 70); o.i(h.h[1]); }
void t_roots(Lcg& r, Out& o) { auto w = complex_root_wrapper<double>(r.in(1, 40)); o.i(w.size); typedef complex<double> cplx; auto p = w; for (int i = 0; i < std::min(w.size, 9); i++) { cplx c = p; o.d(c.a + 2); o.d(c.b + 2); p *= w; } }
void t_fft(Lcg& r, Out& o) { typedef complex<double> cplx; int n = 1 << r.in(0, 4); std::vector<cplx> a(n); for (auto& c : a) c = cplx(r.in(-9, 9), r.in(-9, 9)); auto w = complex_root_wrapper<double>(n << r.in(0, 2)); auto ww = powT(w, w.size / n); fft(a.data(), n, ww); for (auto& c : a) { o.d(floor(c.a * 100 + 0.5)); o.d(floor(c.b * 100 + 0.5)); } }
void t_mulfft(Lcg& r, Out& o) { int n = r.in(1, 12), m = r.in(1, n); std::vector<zp> a(n + 1), b(m + 1), c(n + m + 1); for (auto& x : a) x = zp(r.in(0, 1000000006)); for (auto& x : b) x = zp(r.in(0, 1000000006)); polynom_mul<zp>::_mul_fft(c.data(), n + m, a.data(), n, b.data(), m); for (auto& x : c) o.i(x.v); }
void t_polynom(Lcg& r, Out& o) { polynom<zp> p, q; for (int i = r.in(0, 12); i >= 0; i--) p[i] = zp(r.in(0, 99)); for (int i = r.in(0, 8); i >= 0; i--) q[i] = zp(r.in(1, 99)); auto m = p * q; for (int i = 0; i <= m.deg(); i++) o.i(m[i].v); auto d = m / q; o.i(d == p); o.i((m % q).deg()); o.i(m(zp(3)).v); }
void t_sumpow(Lcg& r, Out& o) { int p = r.in(0, 9), n = r.in(0, 50); switch (r.in(0, 2)) { case 0: o.i(sum_pow<zp>(p, n).v); o.i(sum_pow<zp>(r.in(0, 9), n + 1).v); break; case 1: o.i(sum_pow<zn>(p, n).v); break; default: o.d(sum_pow<double>(p, n)); } }
void t_nimber(Lcg& r, Out& o) { nimber<uint32_t> a(r.next()), b(r.next() & 0xffff); o.i((a * b).v); nimber<uint16_t> c((uint16_t)r.next()), d((uint16_t)(r.next() | 1)); o.i((c * d).v); if (r.in(0, 3) == 0) o.i((c / d).v); o.i(c.sqrt().v); }
void t_primepi(Lcg& r, Out& o) { static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97}; int n = 100; std::vector<int> pi(n + 1); for (int i = 0, k = 0; i <= n; i++) { if (k < 25 && P[k] == i) k++; pi[i] = k; } for (int i = 0; i < 3; i++) o.i(prime_pi_deprecated<int64_t, int>(r.in(2, 900), pi.data(), P, i ? 0 : 50)); }
void t_parser(Lcg& r, Out& o) {
    typedef sy::infix_token T; std::vector<T> t; int n = r.in(1, 5); std::vector<double> v; 
    for (int i = 0; i < n; i++) { if (i) t.push_back({T::type_t::OPERATOR, r.in(1, 4)}); bool par = r.in(0, 3) == 0; if (par) t.push_back({T::type_t::LEFT_PARENTHESIS, 0}); if (r.in(0, 4) == 0) t.push_back({T::type_t::OPERATOR, 0}); t.push_back({T::type_t::OPERAND, i}); v.push_back(r.in(1, 9)); if (par) t.push_back({T::type_t::RIGHT_PARENTHESIS, 0}); }
    auto p = sy::infix_to_postfix<>(t, sy::basic_math<double>::operators()); auto e = sy::evaluate_postfix<double>(p, v, sy::basic_math<double>::evaluators()); for (double d : e) o.d(d);
    std::vector<T> ti = {{T::type_t::OPERAND, 0}, {T::type_t::OPERATOR, sy::integer_math<int>::ADD}, {T::type_t::OPERAND, 1}, {T::type_t::OPERATOR, sy::integer_math<int>::MUL}, {T::type_t::OPERAND, 0}};
    auto pi = sy::infix_to_postfix<>(ti, sy::integer_math<int>::operators()); auto ei = sy::evaluate_postfix<int>(pi, {r.in(1, 9), r.in(1, 9)}, sy::integer_math<int>::evaluators()); o.i(ei[0]);
    auto pf = sy::infix_to_postfix<>(t, sy::floating_point_math<double>::operators()); auto ef = sy::evaluate_postfix<double>(pf, v, sy::floating_point_math<double>::evaluators()); for (double d : ef) o.d(d);
}
void t_random(Lcg& r, Out& o) { arand::mtrand g(r.next()); for (int i = 0; i < 3; i++) { o.i(g.randInt()); o.i(g.randInt(r.in(0, 99))); o.d(g.rand()); } arand::xorshift_64star x(r.next() + 1); arand::xorshift_1024star y(r.next() + 1); o.i((int64_t)x.next()); o.i((int64_t)x.next_uniform(3, 17)); o.i((int64_t)y.next()); o.i((int64_t)arand::uniform_next<uint32_t>([&]() { return (uint32_t)y.next(); }, 5, 11)); o.d(y.next_0_1()); }
void t_src(Lcg& r, Out& o) { o.i(ilog2((uint32_t)r.next() | 1)); o.i(bit_cnt1((uint64_t)r.next() * r.next())); o.i((int)bit_reverse((uint32_t)r.next())); prime_holder h(r.in(10, 120)); o.i(h.primes()); o.i(h.phi(7)); o.i(h.mu(6)); o.i(h.mertens(9)); auto f = h.factor_integer(r.in(2, 9)); for (auto& e : f) { o.i(e.first); o.i(e.second); } o.i(gcd(r.in(1, 999), r.in(1, 999))); o.i(isqrt((uint64_t)r.next())); o.i(icbrt((uint64_t)r.next())); }
void t_fact(Lcg& r, Out& o) { factorial_holder<zp> f(r.in(10, 60)); o.i(f.bin(9, r.in(0, 9)).v); o.i(f.fact(r.in(0, 9)).v); o.i(f.ifact(r.in(0, 9)).v); }
void t_treap(Lcg& r, Out& o) { Lcg q(r.next()); treap<int, int, bst_duplicate_handling::STORE> t(std::less<int>(), [&]() { return (int)q.next(); }); for (int i = r.in(1, 20); i > 0; i--) { if (r.in(0, 3)) t.insert(r.in(0, 30)); else t.erase(r.in(0, 30)); } for (int x : t) o.i(x); rope<int> p([&]() { return (int)q.next(); }); for (int i = r.in(1, 12); i > 0; i--) p.insert(r.next() % (p.size() + 1), i); auto p2 = p; p2.erase(0); for (int x : p2) o.i(x); }
void t_collections(Lcg& r, Out& o) { bit_vector<uint32_t> b(70), c(70); for (int i = 0; i < 12; i++) { b.set(r.in(0, 69), 1); c.set(r.in(0, 69), 1); } o.s += (b ^ c).to_string(3, 60); b.rotate_left(2, 40, 7); o.s += b.to_string(0, 70); segment_tree<int> s(9, [](int x, int y) { return x + y; }); for (int i = 0; i < 9; i++) s.set(i, r.in(0, 9)); o.i(s.get(1, r.in(2, 9))); sqrt_map<int, int> m(10, 100); m[3] = 4; m[50] = 6; o.i(m.count(50) + m.at(3)); }
void t_tokenizer(Lcg& r, Out& o) { std::string t = numbers(r); std::stringstream ss(t); aio::stream_tokenizer::tokens_delimited_space toks; namespace st = aio::stream_tokenizer; for (auto& w : st::unbox_tokens((ss >> toks, toks))) { o.s += w; o.s += '|'; } std::stringstream s2("3,4,5"); st::tokens<int, char> ti; s2 >> ti; for (int x : ti.v) o.i(x); }
void t_series(Lcg& r, Out& o) { typedef series<zp, 8> ser; std::vector<zp> v; for (int i = 0; i < 8; i++) v.push_back(zp(r.in(1, 99))); ser s(polynom<zp>(v), 8); ser s2; s2 = s; s2.swap(s); s = s2; auto i = s.inverse(); auto e = s * i; for (int k = 0; k < 8; k++) { o.i(i[k].v); o.i(e[k].v); } permutation<int> p(std::vector<int>{2, 0, 1, 4, 3}); for (int x : p.pow(r.in(0, 9)).to_line()) o.i(x); matrix<zp> m(2, 2, zp(1)); m[0][0] = zp(r.in(2, 9)); auto m2 = m.pow(5); o.i(m2[0][0].v); o.i(m.det().v); }
} // namespace tasks
#include "conc_tasks.h"
namespace tasks {
struct Task { const char* name; void (*f)(Lcg&, Out&); };
const Task TASKS[] = {{"string_writer", t_string_writer}, {"fast_write", t_fast_write}, {"reader", t_reader}, {"fast_read", t_fast_read}, {"polynomial_hash1", t_hash1}, {"polynomial_hash", t_hash2}, {"complex_root_wrapper", t_roots}, {"fft", t_fft}, {"mul_fft", t_mulfft}, {"polynom", t_polynom}, {"sum_pow", t_sumpow}, {"nimber", t_nimber}, {"prime_pi_deprecated", t_primepi}, {"shunting_yard", t_parser}, {"random", t_random}, {"number theory", t_src}, {"factorial_holder", t_fact}, {"treap", t_treap}, {"containers", t_collections}, {"tokenizer", t_tokenizer}, {"series", t_series}, {"paths", t_paths}, {"blocks", t_blocks}, {"flow", t_flow}, {"trees", t_trees}, {"modular", t_modular}, {"sieve", t_sieve}, {"counting", t_counting}, {"convolve", t_convolve}, {"number lists", t_numbers}, {"strings", t_strings}, {"values", t_values}};
enum { NT = sizeof TASKS / sizeof TASKS[0], MAXR = 16000 };

void do_task(int k, uint32_t seed, std::string& out) { Lcg r(seed); Out o; TASKS[k].f(r, o); out = o.s; }
// what the task gives in a process of its own
std::string alone(int k, uint32_t seed) {
    static char* sh = (char*)mmap(nullptr, MAXR, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint32_t* n = (uint32_t*)sh; *n = 0xffffffffu;
    pid_t p = fork();
    if (p < 0) sim::fail("simulator-limit", "fork failed");
    if (p == 0) { std::string s; do_task(k, seed, s); *n = (uint32_t)std::min<size_t>(s.size(), MAXR - 8); memcpy(sh + 4, s.data(), *n); _exit(0); }
    int st; waitpid(p, &st, 0);
    SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && *n != 0xffffffffu, "task-fails-alone", "%s fails in a single-threaded process", TASKS[k].name);
    return std::string(sh + 4, *n);
}
std::string brief(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 12 ? i - 12 : 0; return "..." + b.substr(s, 40) + " instead of ..." + a.substr(s, 40); }
} // namespace
using namespace tasks;

#ifdef P_C06
static void separate(bool same) {
    int nth = sim::range(2, 4); struct Item { int k; uint32_t seed; std::string want, got; }; std::vector<std::vector<Item>> plan(nth);
    int pick = (int)sim::choose(NT);
    for (int t = 0; t < nth; t++) { int n = sim::range(1, same ? 2 : 3); for (int i = 0; i < n; i++) { Item it; it.k = same ? pick : (int)sim::choose(NT); it.seed = sim::choose(1000); it.want = alone(it.k, it.seed); sim::log("T%d: %s(%u)", t + 1, TASKS[it.k].name, it.seed); plan[t].push_back(it); } }
    csim::start();
    { std::vector<std::thread> th;
      for (int t = 0; t < nth; t++) th.emplace_back([&plan, t]() { for (auto& it : plan[t]) do_task(it.k, it.seed, it.got); });
      for (auto& t : th) t.join(); }
    csim::stop();
    uint64_t h = 0;
    for (int t = 0; t < nth; t++) for (auto& it : plan[t]) { SIM_CHECK(it.got == it.want, "result-differs", "%s(%u) on T%d beside other threads gives %s", TASKS[it.k].name, it.seed, t + 1, brief(it.want, it.got).c_str()); h = sim::mix(h, it.k * 1000 + it.seed); char b[48]; snprintf(b, sizeof b, "task-%s", TASKS[it.k].name); sim::probe(b); }
}
SIM_SCENARIO(C06, same_part, 2) { separate(true); }
SIM_SCENARIO(C06, mixed_parts, 1) { separate(false); }
#endif

#ifdef P_C07
namespace tasks {
uint32_t lcg_prio() { static thread_local uint64_t x = 1; x = x * 6364136223846793005ULL + 1; return (uint32_t)(x >> 34); }
// the shared objects, all built before any thread exists
struct World {
    std::vector<int> data; std::string text;
    treap<int, int, bst_duplicate_handling::STORE> tr, tr2; treap<int, int, bst_duplicate_handling::COUNT> tc; binary_search_tree<int, int, bst_duplicate_handling::IGNORE> bs; rope<int> ro, ro2;
    std::unique_ptr<segment_tree<int>> sg; std::unique_ptr<fenwick_tree<int>> fw; bit_vector<uint32_t> b1, b2; std::unique_ptr<sqrt_map<int, int>> sm; std::unique_ptr<lohi_map<int, int>> lm;
    std::unique_ptr<direct_rmq<int>> rq; std::unique_ptr<suffix_array<char>> sa; prefix_tree<26> pt; ahash::cumulative_hash<ph2> ch; polynom<zp> p1, p2; matrix<zp> m1; permutation<int> pe; altruct::graph::graph<altruct::graph::edge> gr; binary_heap<int> hp; fraction<int64_t> fr; std::unique_ptr<factorial_holder<zp>> fh;
    arand::mtrand rnd0; altruct::graph::graph<we> tree, net; std::unique_ptr<altruct::graph::heavy_light_decomposition_ex> hl; std::unique_ptr<palindrome_tree<26>> pal; prime_holder ph{300}; std::vector<zp> row;
    World(Lcg& r) : tr(std::less<int>(), []() { return (int)lcg_prio(); }), tr2(std::less<int>(), []() { return (int)lcg_prio(); }), tc(std::less<int>(), []() { return (int)lcg_prio(); }), ro([]() { return (int)lcg_prio(); }), ro2([]() { return (int)lcg_prio(); }), b1(100), b2(100), m1(3, 3, zp(1)), pe(std::vector<int>{1, 2, 0, 4, 3}), gr(6), fr(7, 3), rnd0(uint32_t(5)) {
        int n = r.in(1, 24); for (int i = 0; i < n; i++) data.push_back(r.in(0, 40)); for (int i = r.in(1, 30); i > 0; i--) text += (char)r.in('a', 'c');
        for (int x : data) { tr.insert(x); tc.insert(x); bs.insert(x); ro.push_back(x); } tr2.insert(3); ro2 = ro; if (r.in(0, 1)) ro2.push_back(9);
        sg.reset(new segment_tree<int>(data.begin(), data.end(), [](int a, int b) { return a > b ? a : b; }, -1)); fw.reset(new fenwick_tree<int>(n, [](int a, int b) { return a + b; })); for (int i = 0; i < n; i++) fw->add(i, data[i]);
        for (int x : data) { b1.set(x, 1); b2.set(x * 2, 1); } sm.reset(new sqrt_map<int, int>(10, 100)); lm.reset(new lohi_map<int, int>(10)); for (int x : data) { (*sm)[x] = x * 3; (*lm)[x] = x * 5; }
        rq.reset(new direct_rmq<int>()); rq->build(data.begin(), data.end()); sa.reset(new suffix_array<char>(text.begin(), text.end()));
        for (size_t i = 0; i + 2 < text.size(); i += 2) pt.add(text.substr(i, 3), pt.ordinal_lower_alpha); ch.assign(text.begin(), text.end());
        for (int i = 0; i < 9; i++) { p1[i] = zp(r.in(1, 99)); p2[i / 2] = zp(r.in(1, 99)); } for (int i = 0; i < 3; i++) m1[i][i] = zp(r.in(2, 9)); for (int i = 0; i < 8; i++) gr.add_edge2(r.in(0, 5), altruct::graph::edge(r.in(0, 5))); for (int x : data) hp.insert(x); fh.reset(new factorial_holder<zp>(30)); fh->fact(); fh->ifact(); fh->inv();
        int tn = r.in(1, 14); tree = t_graph(r, tn, 0, 3); hl.reset(new altruct::graph::heavy_light_decomposition_ex(tree)); int gn = r.in(2, 7); net = t_graph(r, gn, 2 * gn, r.in(0, 2));
        auto ord = [](char c) { return (uint8_t)(c - 'a'); }; pal.reset(new palindrome_tree<26>(text.begin(), text.end(), ord)); pal->propagate();
        ph.pi(); ph.phi(); ph.mu(); ph.pf(); for (int i = 0; i < 6; i++) row.push_back(zp(r.in(1, 99)));
    }
};
void q_treap(const World& w, Lcg& r, Out& o) { int k = r.in(0, 40); auto it = w.tr.find(k); o.i(it != w.tr.end()); o.i(w.tr.count(k)); o.i(w.tr.count_less(k)); o.i(w.tr.size()); auto l = w.tr.lower_bound(k); if (l != w.tr.end()) { o.i(*l); o.i(l.pos()); } auto e = w.tr.equal_range(k); for (auto i = e.first; i != e.second; ++i) o.i(*i); o.i(*w.tr.find_kth(r.next() % w.tr.size())); o.i(w.tr == w.tr2); o.i(w.tr < w.tr2); o.i(w.tc.count(k)); }
void q_treap_iter(const World& w, Lcg& r, Out& o) { for (auto it = w.tr.begin(); it != w.tr.end(); ++it) o.i(*it); for (auto it = w.tc.end(); it != w.tc.begin();) { --it; o.i(*it); o.i(it.count()); } auto c = w.tr2; c.insert(7); o.i(c.size()); }
void q_bst(const World& w, Lcg& r, Out& o) { int k = r.in(0, 40); o.i(w.bs.count_less_or_equal(k)); for (auto it = w.bs.upper_bound(k); it != w.bs.end(); ++it) o.i(*it); auto c = w.bs; o.i(c == w.bs); }
void q_rope(const World& w, Lcg& r, Out& o) { for (int i = 0; i < 3; i++) o.i(w.ro.at(r.next() % w.ro.size())); for (auto it = w.ro.begin(); it != w.ro.end(); ++it) o.i(*it); o.i(w.ro == w.ro2); o.i(w.ro.end() - w.ro.begin()); }
void q_segment(const World& w, Lcg& r, Out& o) { int n = (int)w.data.size(), b = r.in(0, n), e = r.in(b, n); o.i(w.sg->get(b, e)); o.i(w.sg->get(r.next() % n)); o.i((*w.sg)[r.next() % n]); o.i(const_cast<World&>(w).fw->get_sum(r.next() % n)); }
void q_bits(const World& w, Lcg& r, Out& o) { int b = r.in(0, 60), e = r.in(b, 100); o.s += w.b1.to_string(b, e); o.i(bit_vector<uint32_t>::hamming_distance(w.b1, b, w.b2, 100 - e, e - b)); o.i(bit_vector<uint32_t>::compare(w.b1, b, e, w.b2, b, e)); o.i(w.b1.bit_at(b)); o.i(w.b1 < w.b2); o.s += (w.b1 & w.b2).to_string(0, 50); o.s += (~w.b1).to_string(0, 10); o.s += (w.b1 << 3).to_string(0, 20); }
void q_maps(const World& w, Lcg& r, Out& o) { const auto& s = *w.sm; const auto& l = *w.lm; for (int i = 0; i < 3; i++) { int k = w.data[r.next() % w.data.size()]; o.i(s.count(k)); o.i(s.at(k)); o.i(s[k]); o.i(l.count(k + 1)); o.i(l.at(k)); } }
void q_rmq(const World& w, Lcg& r, Out& o) { int n = (int)w.data.size(), b = r.in(0, n - 1), e = r.in(b + 1, n); o.i(w.rq->get_value(b, e)); o.i(w.rq->get_index(b, e)); }
void q_suffix(const World& w, Lcg& r, Out& o) { int n = (int)w.text.size(); for (int i = 0; i < 3; i++) { int a = r.in(0, n), b = r.in(0, n), c = r.in(a, n), d = r.in(b, n); o.i(w.sa->get_lcp(a, b)); o.i(w.sa->compare_substrings(a, c, b, d)); o.i(w.sa->get_kth_suffix(a)); o.i(w.sa->get_suffix_order(b)); } }
void q_prefix(const World& w, Lcg& r, Out& o) { int n = (int)w.text.size(); int b = r.in(0, n); o.i(w.pt.find(w.text.substr(b, 3), prefix_tree<26>::ordinal_lower_alpha)); for (int i = 1; i <= w.pt.num_words(); i++) o.s += w.pt.get(i, prefix_tree<26>::letter_lower_alpha); w.pt.for_each([&](const std::string& s, int id) { o.i(id); o.s += s; }, prefix_tree<26>::letter_lower_alpha); o.i(w.pt.num_letters()); }
void q_hash(const World& w, Lcg& r, Out& o) { int n = (int)w.text.size(); for (int i = 0; i < 3; i++) { int b = r.in(0, n), e = r.in(b, n); ph2 h = w.ch.get(b, e); o.i(h.h[0]); o.i(h.h[1]); } }
void q_algebra(const World& w, Lcg& r, Out& o) { o.i(w.p1(zp(r.in(0, 99))).v); const auto& p = w.p1; o.i(p[20].v); o.i(p.deg()); auto m = w.p1 * w.p2; o.i(m[3].v); o.i((w.p1 % w.p2)[0].v); o.i(w.m1.det().v); auto m2 = w.m1 * w.m1; o.i(m2[1][2].v); o.i(w.m1.transpose() == w.m1); for (int x : w.pe.to_line()) o.i(x); o.i(w.pe.pow(3) == w.pe); auto f = w.fr * fraction<int64_t>(2, 5); o.i(f.p); o.i(f.q); }
void q_rest(const World& w, Lcg& r, Out& o) { o.i(w.hp.front()); o.i(w.hp.size()); o.i(w.gr.num_edges()); for (int u = 0; u < w.gr.size(); u++) for (const auto& e : w.gr[u]) o.i(e.v); uint32_t st[arand::mtrand::SAVE]; w.rnd0.save(st); uint32_t h = 0; for (uint32_t x : st) h = h * 31 + x; o.i(h); }
void q_lca(const World& w, Lcg& r, Out& o) { auto& h = *w.hl; int n = w.tree.size(); for (int i = 0; i < 3; i++) { int u = r.in(0, n - 1), v = r.in(0, n - 1); o.i(h.lca.ancestor(u, v)); o.i(h.lca.distance(u, v)); o.i(h.lca.depth(u)); o.i(h.parent(u, 1)); o.i(h.position(v)); o.i(h.subtree_size(u)); o.i(h.walk_nodes(u, v, [&](int a, int b, int, int, int, bool) { o.i(b - a); })); } }
void q_graph(const World& w, Lcg& r, Out& o) {
    const auto& g = w.net; int n = g.size();
    switch (r.in(0, 6)) {
        case 0: for (auto& e : ag::dijkstra(g, r.in(0, n - 1), 1000000)) { o.i(e.w); o.i(e.v); } break;
        case 1: for (auto& l : ag::floyd_warshall(g, 1000000)) for (auto& e : l) { o.i(e.w); o.i(e.v); } break;
        case 2: for (auto& c : ag::tarjan_scc(g)) { for (int x : c) o.i(x); o.s += "|"; } for (int x : ag::in_degrees(g)) o.i(x); break;
        case 3: ag::iterative_dfs(g, [&](int, int p, int u, int d) { o.i(p); o.i(u); o.i(d); return true; }); break;
        case 4: { auto c = ag::transitive_closure(g); for (int i = 0; i < n; i++) { for (auto& x : c[i]) o.i(x.v); o.s += "|"; } break; }
        case 5: { const auto& t = w.tree; for (auto& e : ag::prim_spanning_tree(t, 0, 1000000)) { o.i(e.w); o.i(e.v); } for (int x : ag::parents(t)) o.i(x); break; }
        default: { const auto& t = w.tree; auto d = ag::chain_decomposition(t); for (auto& e : ag::cut_edges(t, d)) { o.i(e.u); o.i(e.v); } auto c = g; o.i(c == g); }
    }
}
void q_words(const World& w, Lcg& r, Out& o) {
    size_t b = r.next() % w.text.size();
    switch (r.in(0, 1)) { case 0: o.i(w.pal->distinct()); o.i((long long)w.pal->total()); o.i(w.pal->longest_suffix()); o.i(w.pal->size()); for (auto& x : w.pal->_nodes) o.i(x.len); break;
        default: altruct::search::kmp_search(w.text.begin(), w.text.size(), w.text.begin() + b, std::min<size_t>(2, w.text.size() - b), [&](size_t at) { o.i((long long)at); return true; }); }
}
void q_numbers(const World& w, Lcg& r, Out& o) {
    auto& h = const_cast<World&>(w).ph; int k = r.in(2, 290);
    switch (r.in(0, 4)) { case 0: o.i(h.p(k % 60)); o.i(h.q(k)); o.i(h.pi(k)); o.i(h.phi(k)); o.i(h.mu(k)); o.i(h.pf(k)); break; case 1: for (auto& f : h.factor_integer(k)) { o.i(f.first); o.i(f.second); } break; case 2: for (int d : h.divisors(k)) o.i(d); break;
        case 3: { auto& f = *const_cast<World&>(w).fh; int n = r.in(1, 29); o.i(f.fact(n).v); o.i(f.ifact(n).v); o.i(f.inv(n).v); o.i(f.bin(n, n / 2).v); break; }
        default: o.i(linear_recurrence<zp, zp>(w.row, w.row, r.in(0, 90)).v); auto s = polynom_sum(w.p2); o.i(s[1].v); o.i(reduce_sum(w.row).v); }
}
void q_print(const World& w, Lcg& r, Out& o) { std::ostringstream s; switch (r.in(0, 2)) { case 0: s << w.p1 << w.fr; break; case 1: s << w.data << w.m1; break; default: s << w.row; } o.s += s.str(); }
struct Query { const char* name; void (*f)(const World&, Lcg&, Out&); };
const Query QS[] = {{"treap", q_treap}, {"treap iteration", q_treap_iter}, {"binary search tree", q_bst}, {"rope", q_rope}, {"segment and fenwick tree", q_segment}, {"bit vector", q_bits}, {"sqrt and lohi map", q_maps}, {"range minimum", q_rmq}, {"suffix array", q_suffix}, {"prefix tree", q_prefix}, {"cumulative hash", q_hash}, {"algebra", q_algebra}, {"heap, graph, generator", q_rest}, {"common ancestor and paths", q_lca}, {"graph computation", q_graph}, {"word search", q_words}, {"built number table", q_numbers}, {"printing", q_print}};
enum { NQ = sizeof QS / sizeof QS[0] };
}
static void shared(bool same) {
    Lcg r(sim::choose(100000)); World w(r); int nth = sim::range(2, 4); struct Item { int k; uint32_t seed; std::string want, got; }; std::vector<std::vector<Item>> plan(nth); int pick = (int)sim::choose(NQ);
    for (int t = 0; t < nth; t++) { int n = sim::range(1, 3); for (int i = 0; i < n; i++) { Item it; it.k = same ? pick : (int)sim::choose(NQ); it.seed = sim::choose(1000); Lcg q(it.seed); 
        pid_t p; int fd[2]; if (pipe(fd)) sim::fail("simulator-limit", "pipe failed");        // the answer of a process of its own
        if ((p = fork()) == 0) { Out o; QS[it.k].f(w, q, o); size_t at = 0; while (at < o.s.size()) { ssize_t k = ::write(fd[1], o.s.data() + at, o.s.size() - at); if (k <= 0) break; at += k; } _exit(0); }
        close(fd[1]); char b[4096]; ssize_t k; while ((k = ::read(fd[0], b, sizeof b)) > 0) it.want.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0);
        SIM_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "query-fails-alone", "%s query fails in a single-threaded process", QS[it.k].name);
        sim::log("T%d: %s(%u)", t + 1, QS[it.k].name, it.seed); plan[t].push_back(it); } }
    csim::start();
    { std::vector<std::thread> th;
      for (int t = 0; t < nth; t++) th.emplace_back([&plan, &w, t]() { for (auto& it : plan[t]) { Lcg q(it.seed); Out o; QS[it.k].f(w, q, o); it.got = o.s; } });
      for (auto& t : th) t.join(); }
    csim::stop();
    for (int t = 0; t < nth; t++) for (auto& it : plan[t]) { SIM_CHECK(it.got == it.want, "answer-differs", "%s query %u on T%d gives %s", QS[it.k].name, it.seed, t + 1, brief(it.want, it.got).c_str()); char b[48]; snprintf(b, sizeof b, "query-%s", QS[it.k].name); sim::probe(b); }
}
SIM_SCENARIO(C07, same_structure, 2) { shared(true); }
SIM_SCENARIO(C07, mixed_structures, 1) { shared(false); }
#endif
