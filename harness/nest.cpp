// C08: the functions a computation calls back (coefficient operations, copies,
// comparisons, predicates, evaluators, visitors) carry out another library
// computation, often the same one on other data, in the middle of it. Both must
// give what they would give alone. The computations and their oracles are those
// of D10-D12; here a fault is a nested call instead of a failure.
#include "../sim/env.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "altruct/algorithm/math/base.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/polynoms.h"
#include "altruct/structure/math/matrix.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/structure/math/polynom.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/series.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/vectorNd.h"
#include <limits.h>
#include <deque>
#include <limits>
#include <map>
#include <queue>
#include <set>
#include <unordered_set>
namespace altruct { namespace graph { using std::max; using std::min; } }   // hungarian.h expects them in scope
#include "altruct/structure/graph/graph.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
#include "altruct/algorithm/graph/hungarian.h"
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/sat2.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include <iterator>
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/container/binary_heap.h"
#include "altruct/structure/container/bit_vector.h"
#include "altruct/structure/container/sqrt_map.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/math/fenwick_tree.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/structure/container/binary_search_tree.h"
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/algorithm/math/triples.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/search/kmp_search.h"
#define NESTED
namespace arith_ {
#include "arith.cpp"
}
namespace graphs_ {
#include "graphs.cpp"
}
namespace seqs_ {
#include "seqs.cpp"
}

#include <cstring>
#include <istream>
#include <ostream>
#include <sstream>
#include "altruct/io/fast_io.h"
#include "altruct/io/iostream_overloads.h"
#include "altruct/io/reader.h"
#include "altruct/io/stream_tokenizer.h"
#include "altruct/io/writer.h"
namespace io_ {
#include "io.cpp"
}
namespace index_ {
#include "index.cpp"
}
namespace trees_ {
#include "trees.cpp"
}

#ifdef P_C08
using namespace sim;
// The outer computation is one of these; a nested one is mostly of the same kind.
typedef void (*Fn)();
static Fn g_fn; static int g_depth, g_left;
static const Fn ARITH[] = { arith_::scn_D10_polynomials, arith_::scn_D10_polynomials, arith_::scn_D10_series, arith_::scn_D10_series, arith_::scn_D10_series_of_a_fixed_order, arith_::scn_D10_matrices, arith_::scn_D10_permutations, arith_::scn_D10_vectors, arith_::scn_D10_quadratic_extensions, arith_::scn_D10_factorisations };
static const Fn GRAPH[] = { graphs_::scn_D11_shortest_paths, graphs_::scn_D11_spanning_tree, graphs_::scn_D11_traversal, graphs_::scn_D11_blocks, graphs_::scn_D11_colours, graphs_::scn_D11_satisfiability, graphs_::scn_D11_matching, graphs_::scn_D11_flow, graphs_::scn_D11_assignment, graphs_::scn_D11_trees };
static void seq_collections() { seqs_::one(seqs_::collections); }
static void seq_searches() { seqs_::one(seqs_::searches); }
static void seq_tables() { seqs_::one(seqs_::tables); }
static void seq_convolutions() { seqs_::one(seqs_::convolutions); }
static void seq_transforms() { seqs_::one(seqs_::transforms); }
static void seq_expressions() { seqs_::one(seqs_::expressions); }
static void seq_numbers() { seqs_::one(seqs_::numbers); }
static const Fn SEQ[] = { seq_collections, seq_searches, seq_tables, seq_convolutions, seq_transforms, seq_expressions, seq_numbers };
static const Fn INDEX[] = { index_::scn_D07_segment_tree, index_::scn_D07_segment_tree_function, index_::scn_D07_lazy_segment_tree, index_::scn_D07_fenwick, index_::scn_D07_heap, index_::scn_D07_bits8, index_::scn_D07_disjoint_set, index_::scn_D07_graph, index_::scn_D07_sqrt_map, index_::scn_D07_lohi_map, index_::scn_D07_prefix_tree, index_::scn_D07_automaton, index_::scn_D07_suffix_array, index_::scn_D07_range_minimum, index_::scn_D07_palindromes };
static const Fn TREES[] = { trees_::scn_D03_bst, trees_::scn_D03_treap, trees_::scn_D03_rope };
static void io_bytes() { io_::read_history(choose(2)); }
static void io_items() { io_::read_items(choose(2)); }
static void io_writes() { io_::write_history(); }
static void io_failing() { io_::failing_sink(); }
static void io_round() { io_::round_trip(); }
static void io_tokens() { io_::tokens(choose(2)); }
static const Fn IO[] = { io_bytes, io_items, io_writes, io_failing, io_round, io_tokens };   // the printing modes of the manipulators belong to the process
template<size_t N> static Fn any(const Fn (&a)[N]) { return a[choose(N)]; }
static Fn any_of_all() { switch (choose(6)) { case 0: return any(ARITH); case 1: return any(GRAPH); case 2: return any(SEQ); case 3: return any(INDEX); case 4: return any(TREES); default: return any(IO); } }
static void nested() {
    if (g_depth >= 2 || g_left == 0) return;
    g_left--;
    Fn f = g_fn, outer = g_fn; if (choose(4) == 0) f = any_of_all();
    arith_::IV out; bool armed = index_::g_armed; { NoFault nf; out.swap(arith_::g_out); log("nested"); probe(f == outer ? "same-kind" : "other-kind"); }
    uint64_t blocks = live_blocks(); g_depth++; g_fn = f; f(); g_fn = outer; g_depth--;
    for (Fn io : IO) if (f == io) { forget_blocks(live_blocks() - blocks); break; }   // the texts of exceptions and buffers of the runtime
    { NoFault nf; out.swap(arith_::g_out); index_::g_armed = armed; log("back"); }
    set_crash_class("outer");
}
static void start(Fn f) { g_fn = f; g_depth = 0; g_left = 1 << choose(10); fp_nest(nested); f(); }
SIM_SCENARIO(C08, arithmetic, 4) { start(any(ARITH)); }
SIM_SCENARIO(C08, graphs, 4) { start(any(GRAPH)); }
SIM_SCENARIO(C08, sequences_and_numbers, 3) { start(any(SEQ)); }
SIM_SCENARIO(C08, indexes, 3) { start(any(INDEX)); }
SIM_SCENARIO(C08, input_and_output, 2) { start(any(IO)); }
SIM_SCENARIO(C08, containers, 2) { start(any(TREES)); }
#endif
