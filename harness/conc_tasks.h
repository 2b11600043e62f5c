// More tasks for C06: the parts of the library that keep no tables, each as a function of its parameter alone.
#pragma once
#include <deque>
#include <functional>
#include <limits>
#include <unordered_set>
namespace altruct { namespace graph { using std::max; using std::min; } }   // hungarian.h expects them in scope
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
#include "altruct/algorithm/graph/hungarian.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/sat2.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/polynoms.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/io/iostream_overloads.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/container/link_cut_tree.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/galois_field_2.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/pga.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/symbolic.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/with_infinity.h"
namespace tasks {
namespace ag = altruct::graph;
typedef ag::weighted_edge<int> we;
ag::graph<we> t_graph(Lcg& r, int n, int m, int kind) {   // 0 directed, 1 acyclic, 2 simple undirected, 3 tree
    ag::graph<we> g(n); std::set<std::pair<int, int>> have; if (kind == 3) { for (int i = 1; i < n; i++) g.add_edge2(i, we(r.in(0, i - 1), r.in(1, 9))); return g; }
    for (int i = 0; i < m; i++) { int u = r.in(0, n - 1), v = r.in(0, n - 1), w = r.in(1, 20); if (u == v) continue; if (kind && u > v) std::swap(u, v); if (kind == 2) { if (have.insert({u, v}).second) g.add_edge2(u, we(v, w)); } else g.add_edge(u, we(v, w)); } return g;
}
void t_paths(Lcg& r, Out& o) {
    int n = r.in(2, 7); auto g = t_graph(r, n, 2 * n, 0), d = t_graph(r, n, 2 * n, 1), u = t_graph(r, n, 2 * n, 2);
    switch (r.in(0, 5)) {
        case 0: for (auto& e : ag::dijkstra(g, 0, 1000000)) { o.i(e.w); o.i(e.v); } break;
        case 1: for (auto& l : ag::floyd_warshall(g, 1000000)) for (auto& e : l) { o.i(e.w); o.i(e.v); } break;
        case 2: for (auto& e : ag::prim_spanning_tree(u, 0, 1000000)) { o.i(e.w); o.i(e.v); } break;
        case 3: for (int x : ag::topological_sort(d)) o.i(x); for (int x : ag::in_degrees(d)) o.i(x); for (int x : ag::parents(u)) o.i(x); break;
        case 4: for (auto& c : ag::tarjan_scc(g)) { for (int x : c) o.i(x); o.s += "|"; } break;
        default: { auto c = ag::transitive_closure(d); auto e = ag::transitive_reduction(d); for (int i = 0; i < n; i++) { for (auto& x : c[i]) o.i(x.v); o.s += "|"; for (auto& x : e[i]) o.i(x.v); } }
    }
}
void t_blocks(Lcg& r, Out& o) {
    int n = r.in(2, 7); auto u = t_graph(r, n, 2 * n, 2); ag::graph<ag::edge> e(n); for (int i = 0; i < n; i++) for (auto& x : u[i]) e.add_edge(i, ag::edge(x.v)); ag::biconnectivity<> b(e); for (auto& c : b.components) { for (int x : c) o.i(x); o.s += "|"; } for (int x : b.cut_vertices) o.i(x); o.i((long long)b.cut_edges.size());
    if (n < 6) { auto p = ag::chromatic_polynomial<long long>(e); for (int i = 0; i <= p.deg(); i++) o.i(p[i]); } auto q = ag::chromatic_polynomial_C<long long>(n + 2); o.i(q(3));
    std::vector<std::pair<int, int>> cl; for (int i = r.in(1, 9); i > 0; i--) cl.push_back({r.in(0, 2 * n - 1), r.in(0, 2 * n - 1)}); for (int x : ag::sat2(cl)) o.i(x);
}
void t_flow(Lcg& r, Out& o) {
    int n = r.in(2, 6); std::vector<std::vector<int>> c(n, std::vector<int>(n)); for (int i = 0; i < 2 * n; i++) c[r.in(0, n - 1)][r.in(0, n - 1)] = r.in(0, 9); for (int i = 0; i < n; i++) c[i][i] = 0;
    switch (r.in(0, 3)) {
        case 0: { ag::dinic_flow<int> f(c, 1000000); o.i(f.calc_max_flow(0, n - 1)); for (auto& l : f.flow) for (int x : l) o.i(x); break; }
        case 1: { ag::push_relabel_flow<int> f(c, 1000000); o.i(f.calc_max_flow(0, n - 1)); for (auto& l : f.flow) for (int x : l) o.i(x); break; }
        case 2: { ag::hungarian<int> h; h.resize(n); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) h.cost(x, y) = c[x][y]; o.i(h.calc_min_cost()); o.i(h.calc_max_cost()); for (int y : h.get_matches_for_x()) o.i(y); break; }
        default: { std::vector<ag::full_edge> es; for (int i = r.in(1, 9); i > 0; i--) es.push_back(ag::full_edge(r.in(0, n - 1), n + r.in(0, n - 1))); for (auto& e : ag::bipartite_matching(2 * n, es)) { o.i(e.u); o.i(e.v); } }
    }
}
void t_trees(Lcg& r, Out& o) {
    int n = r.in(1, 14); auto g = t_graph(r, n, 0, 3); { ag::lowest_common_ancestor l(g); for (int i = 0; i < 4; i++) { int u = r.in(0, n - 1), v = r.in(0, n - 1); o.i(l.ancestor(u, v)); o.i(l.distance(u, v)); } }
    ag::heavy_light_decomposition_ex h(g); for (int i = 0; i < 3; i++) { int u = r.in(0, n - 1), v = r.in(0, n - 1); o.i(h.parent(u, 2)); o.i(h.position(v)); o.i(h.walk_nodes(u, v, [&](int a, int b, int, int, int, bool) { o.i(b - a); })); }
    altruct::container::link_cut_tree<int> t([](int& p, int a, int b) { p = p + a * 3 + b; }); for (int i = 1; i <= n; i++) { t.add(i); if (i > 1) t.link(i, r.in(1, i - 1)); } for (int i = 0; i < 3; i++) { int u = r.in(1, n), v = r.in(1, n); o.i(t.find_lca(u, v)); o.i(t.depth(u)); o.i(t.find_root(v)); } if (n > 1) { t.cut(n); o.i(t.find_root(n)); }
    ag::disjoint_set ds(n); for (int i = 0; i < n; i++) ds.unite(r.in(0, n - 1), r.in(0, n - 1)); o.i(ds.distinct()); o.i(ds.count(0)); auto add = [](int a, int b) { return a + b; }; (void)add;
}
void t_modular(Lcg& r, Out& o) {
    static const int PR[] = {3, 5, 7, 13, 97, 101, 257, 1009, 10007}; int p = PR[r.in(0, 8)];
    switch (r.in(0, 6)) {
        case 0: { std::vector<std::pair<int, int>> f = {{3, 1}, {5, 1}, {7, 2}}; int y = r.in(1, 700); for (int x : sqrt_mod<int>(y * y % 735, f)) o.i(x); int q = r.in(1, p - 1); o.i(jacobi(q, p)); o.i(sqrt_cipolla<long long>((long long)q * q % p, p)); break; }
        case 1: { prime_holder h(std::max(p + 1, 120)); o.i(primitive_root(p, h)); o.i(primitive_root_of_unity(p, h)); for (int x : kth_roots_of_unity(r.in(2, 60), 2, h)) o.i(x); break; }
        case 2: { long long a = r.in(2, 96), x = r.in(1, 90); modulo<long long, 97> m(a); long long b = powT(m, x).v; o.i(discrete_log_brute_force<long long>(a, b, 97)); o.i(discrete_log_shanks<long long>(5, b, 97)); break; }
        case 3: { o.i(chinese_remainder<long long>(r.in(0, 96), 97, r.in(0, 100), 101)); std::vector<std::pair<int, int>> v = {{r.in(0, 2), 3}, {r.in(0, 4), 5}, {r.in(0, 6), 7}}; (void)v; break; }
        case 4: { long long n = (long long)r.in(2, 99999) * r.in(2, 999); for (auto& f : factor_integer<long long>(n)) { o.i(f.first); o.i(f.second); } for (auto& f : factor_integer_slow<long long>(n)) o.i(f.first); o.i(miller_rabin<long long>(n + 1)); break; }
        case 5: { auto t = factorials_mod_pp_skipped<int>(81, 3, 2); auto x = binomial_mod_pp_reduced<int, int>(r.in(30, 80), r.in(0, 30), 3, 2, t.data()); o.i(x.first); o.i(x.second); o.i(binomial_prime_exponent(r.in(50, 99), r.in(0, 50), 3)); break; }
        default: { int a = r.in(1, 999), b = r.in(1, 999), x, y; o.i(gcd_ex(a, b, &x, &y)); o.i(x); o.i(y); o.i(lcm(a, b)); o.i(modulo_inv(r.in(1, p - 1), p)); o.i(powT(zp(a), 77).v); std::hash<std::tuple<int, int>> h; o.i((long long)h(std::make_tuple(a, b))); }
    }
}
void t_sieve(Lcg& r, Out& o) {
    int n = r.in(20, 300); std::vector<int> p(n + 1), pi(n + 1), ph(n + 1), mu(n + 1), nu(n + 1), bpf(n + 1); std::vector<char> q(n + 1); int m = primes(p.data(), q.data(), n + 1);
    switch (r.in(0, 5)) {
        case 0: prime_pi(pi.data(), n + 1, p.data(), m); euler_phi(ph.data(), n + 1, p.data(), m); moebius_mu(mu.data(), n + 1, p.data(), m); prime_nu(nu.data(), n + 1, p.data(), m); factor(bpf.data(), n + 1, p.data(), m); o.i(m); for (int i = 0; i < 4; i++) { int k = r.in(2, n); o.i(pi[k]); o.i(ph[k]); o.i(mu[k]); o.i(nu[k]); o.i(bpf[k]); } break;
        case 1: o.i(prime_pi<int64_t>(r.in(2, 4000))); o.i(prime_sum<int64_t, int64_t>(r.in(2, 3000), 1)); break;
        case 2: { auto s = sum_phi<zp, int>(n, zp(1)); o.i(s.at(n).v); auto s2 = sum_phi<int64_t, int64_t>(n * 3, 1); o.i(s2.at(n * 3)); break; }
        case 3: { std::vector<int> h(n + 1); dirichlet_convolution(h, [](int k) { return k; }, [](int k) { return 1; }, n + 1); o.i(h[n]); o.i(h[n / 2]); std::vector<int> M(n + 1); moebius_transform(M, [](int k) { return k; }, n + 1); o.i(M[n]); break; }
        case 4: { std::vector<int> h(n + 1); divisor_sigma<int>(h, 1, n + 1, p.data(), m); o.i(h[n]); o.i((sequences::sum_sigma1<int64_t, int64_t>(n))); std::vector<int> M(n + 1); sieve_mertens<int>(M, n + 1, p.data(), m); o.i(M[n]); break; }
        default: { std::vector<int64_t> s(41), tmp(41); int64_t b = r.in(1000, 9000); std::vector<int> pp; for (int i = 0; i < m; i++) pp.push_back(p[i]); segmented_phi(s.data(), tmp.data(), b, b + 40, p.data(), m); o.i(s[0]); o.i(s[39]); segmented_mu(s.data(), b, b + 40, p.data(), m); o.i(s[5]); o.i(coprime_sum<int64_t, int64_t>(pp.begin(), pp.begin() + 3, 1000, [](int64_t a, int64_t b) { return a * (a + 1) / 2 * b; })); }
    }
}
void t_counting(Lcg& r, Out& o) {
    switch (r.in(0, 4)) {
        case 0: { auto s = stirling_s1_all<zp>(9, 9); o.i(s[8][r.in(0, 8)].v); auto t = stirling_s2_all<zp>(9, 9); o.i(t[8][r.in(0, 8)].v); auto k = stirling_s1_all_k_for_n<zp>(r.in(1, 9)); for (auto& x : k) o.i(x.v); break; }
        case 1: { int n = r.in(1, 40); auto a = partitions_p<zp>(n), b = partitions_p_slow<zp>(n), c = partitions_p_distinct<zp>(n); o.i(a[n - 1].v); o.i(b[n - 1].v); o.i(c[n - 1].v); o.i(multinomial<int>(std::vector<int>{2, 3, 1})); break; }
        case 2: { std::vector<int> v = {1, 2, 3, 4, 5, 6}; int k = r.in(1, 5); do { o.i(v[k - 1]); } while (next_combination(v.begin(), v.begin() + k, v.end())); break; }
        case 3: { std::vector<zp> v(12); factorials(v.begin(), v.end(), zp(1)); o.i(v[9].v); inverses(v.begin(), v.end(), zp(1)); o.i(v[7].v); powers(v.begin(), v.end(), zp(r.in(2, 9))); o.i(v[11].v); accumulate(v.begin(), v.end()); o.i(v[11].v); invert_field(v.begin(), v.end(), zp(1)); o.i(v[3].v); o.i(reduce_sum(v).v); break; }
        default: { std::vector<zp> c = {zp(1), zp(r.in(1, 9))}, i = {zp(r.in(0, 9)), zp(1)}; o.i(linear_recurrence<zp, zp>(c, i, r.in(0, 200)).v); o.i(linear_recurrence_next<zp, zp>(c, i).v); polynom<zp> q = {zp(1), zp(r.in(1, 9)), zp(3)}; auto s = polynom_sum(q); for (int k = 0; k <= s.deg(); k++) o.i(s[k].v); }
    }
}
void t_convolve(Lcg& r, Out& o) {
    int l = r.in(0, 4), n = 1 << l; std::vector<zn> a(n), b(n), c(n); for (auto& x : a) x = zn(r.in(0, 99)); for (auto& x : b) x = zn(r.in(0, 99));
    switch (r.in(0, 6)) { case 0: and_convolution(c.data(), a.data(), b.data(), l); break; case 1: or_convolution(c.data(), a.data(), b.data(), l); break; case 2: xor_convolution(c.data(), a.data(), b.data(), l); break; case 3: max_convolution(c.data(), a.data(), b.data(), n); break; case 4: fast_subset_convolution(c.data(), a.data(), b.data(), l); break; case 5: slow_subset_sum(c.data(), a.data(), l); break;
        default: { zn w = powT(zn(3), 998244352 / n); fft(a.data(), n, w); fft_rec(c.data(), b.data(), n, w); for (auto& x : a) o.i(x.v); } }
    for (auto& x : c) o.i(x.v);
}
void t_numbers(Lcg& r, Out& o) {
    switch (r.in(0, 6)) {
        case 0: for (auto& t : pythagorean_triples<int64_t>(r.in(5, 60), r.in(0, 1))) { o.i(t.a); o.i(t.c); } break;
        case 1: for (auto& t : eisenstein_triples120<int64_t>(r.in(5, 40), true)) { o.i(t.a); o.i(t.c); } for (auto& t : eisenstein_triples60<int64_t>(r.in(5, 30), true)) o.i(t.b); break;
        case 2: { std::vector<std::pair<long long, int>> f; pell<long long>(r.in(2, 3), 1, f, 5000LL, 0LL, 0, [&](const quadraticX<long long>& s) { o.i(s.a); o.i(s.b); }); break; }
        case 3: { auto f = continued_fraction<long long>(r.in(1, 999), r.in(1, 999)); for (auto& c : convergents(f)) { o.i(c.first); o.i(c.second); } break; }
        case 4: { auto d = repeating_decimal<long long>(10, 1, r.in(2, 97)); for (int x : d.first) o.i(x); o.i((long long)d.second); for (int x : rational_digits<long long>(3, 5, 7, 1, r.in(2, 97))) o.i(x); break; }
        case 5: { std::vector<std::pair<int, int>> f = {{2, r.in(1, 4)}, {3, 2}, {5, 1}}; auto d = divisors<int>(f); for (int x : d) o.i(x); o.i(euler_phi<int>(f)); o.i(carmichael_lambda<int>(f)); std::vector<std::pair<int, int>> g = {{5, 1}, {13, r.in(1, 2)}}; for (auto& x : squares_r_list<int>(g, true)) { o.i(x.first); o.i(x.second); } o.i(squares_r<int>(g, false)); break; }
        default: { long long n = (long long)r.next() * r.in(1, 99); o.s += integer_string(n, r.in(2, 16)); o.i(from_digits<long long>(integer_digits<long long, long long>(n, 7LL), 7LL)); o.i(altruct::search::binary_search_pred(0, 1000, [&](int x) { return x >= 377; })); }
    }
}
struct Sum { void operator()(int& p, const int& a, const int& b) const { p = a + b; } }; struct Nop { void operator()(int&, int&, int&) const {} };
void t_strings(Lcg& r, Out& o) {
    std::string t; for (int i = r.in(1, 24); i > 0; i--) t += (char)r.in('a', 'c'); int n = (int)t.size();
    switch (r.in(0, 5)) {
        case 0: { suffix_array<char> s(t.begin(), t.end()); for (int i = 0; i <= n; i++) o.i(s.get_kth_suffix(i)); o.i(s.get_lcp(0, n / 2)); break; }
        case 1: { aho_corasick_trie<26> a; auto ord = [](char c) { return (char)(c - 'a'); }; for (int i = 0; i < 3; i++) { std::string w = t.substr(r.next() % n, 3); a.insert(w.begin(), w.end(), ord); } a.build(); o.i((long long)a.count_matches(t.begin(), t.end(), ord)); break; }
        case 2: { palindrome_tree<26> p(t.begin(), t.end(), [](char c) { return (uint8_t)(c - 'a'); }); o.i(p.distinct()); o.i((long long)p.total()); break; }
        case 3: { std::string w = t.substr(r.next() % n, 2); altruct::search::kmp_search(t.begin(), t.size(), w.begin(), w.size(), [&](size_t at) { o.i((long long)at); return true; }); break; }
        case 4: { prefix_tree<26> p; for (int i = 0; i < 4; i++) o.i(p.add(t.substr(r.next() % n, 3), prefix_tree<26>::ordinal_lower_alpha)); p.erase(t.substr(0, 3), prefix_tree<26>::ordinal_lower_alpha); p.for_each([&](const std::string& s, int id) { o.s += s; o.i(id); }, prefix_tree<26>::letter_lower_alpha); break; }
        default: { std::vector<int> v; for (char c : t) v.push_back(c * 7 % 31); direct_rmq<int> q; q.build(v.begin(), v.end()); o.i(q.get_value(0, n)); o.i(q.get_index(n / 3, n)); lazy_segment_tree<int, Sum, Nop> z(v.begin(), v.end(), Sum(), Nop()); z.update(n / 3, n, [&](int& x) { x += 5; return true; }); o.i(z.get(0, n)); binary_heap<int> h; for (int x : v) h.insert(x); while (h.size()) { o.i(h.front()); h.pop_front(); } }
    }
}
void t_values(Lcg& r, Out& o) {
    int a = r.in(1, 9), b = r.in(1, 9), c = r.in(1, 9), d = r.in(1, 9); namespace am = altruct::math;
    switch (r.in(0, 6)) {
        case 0: { zp za(a), zb(b), zc(c), zd(d); am::complex<zp> x(za, zb), y(zc, zd); auto z = x * y / x; o.i(z.a.v); o.i(z.b.v); am::quadratic<zp, 5> q(za, zb); auto p = powT(q, 20); o.i(p.a.v); o.i(p.b.v); quadraticX<int> qx(a, b, 3); qx *= quadraticX<int>(c, d, 3); o.i(qx.a); break; }
        case 1: { zp za(a), zb(b), zc(c), zd(d); vector2d<zp> u(za, zb), v(zc, zd); o.i((u & v).v); o.i((u ^ v).v); u += v; u *= zp(3); o.i(u.x.v); vector3d<zp> p(za, zb, zc), q(zd, za, zb); o.i((p & q).v); p -= q; o.i(p.z.v); break; }
        case 2: { vectorNd<zp, 4> u, v; for (int i = 0; i < 4; i++) { u[i] = zp(a + i); v[i] = zp(b * i); } auto w = u * v + u; o.i(w[3].v); break; }
        case 3: { zp za(a), zb(b), zc(c), zd(d); am::cl3::rotor<zp> x(za, zb, zc, zd), y(zd, zb, zc, za); auto z = x * y; o.i(z.s.v); o.i(z.xy.v); auto i = x.inv() * x; o.i(i.s.v); break; }
        case 4: { zp za(a), zb(b), zc(c), zd(a * d + 11); moebius_tr<zp> m(za, zb, zc, zd); auto i = m * m; o.i(i.a.v); o.i(i.d.v); o.i(m(zp(5)).v); galois_field_2<uint32_t> g(a), h(b); o.i((g + h * g).v); break; }
        case 5: { std::ostringstream s; s << am::fraction<int>(a, b) << " " << zp(c) << " " << polynom<int>{a, b, c} << " " << std::vector<int>{a, b} << " " << std::make_pair(c, d) << " " << vector2d<int>(a, b); o.s += s.str(); break; }
        default: { zp za(a), zb(b), zc(c), zd(d); vector3d<zp> va(za, zb, zc), vb(zd, zc, zb); am::pga::blade1<zp> x(za, va), y(zd, vb); auto z = x * y; o.i(z.first().norm2().v); o.i(z.second().norm2().v); auto n = x.inv(); o.i(n.v.x.v); symbolic e("x"); auto f = e * e + e; o.s += f.v; }
    }
}
} // namespace tasks
