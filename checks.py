"""What each check builds and runs."""
ASAN = ["-O1", "-gline-tables-only", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"]
FLAVOURS = {
    # single-threaded simulation: AddressSanitizer, step counting, faults from sim/env.cpp
    "env": {"code": ASAN, "runtime": [("sim/core.cpp", ["-O2"]), ("sim/env.cpp", ["-O1", "-fsanitize=address"])],
            "link": ["-fsanitize=address"]},
    # simulated threads: the compiler's memory-access hooks end in sim/csim.cpp, which decides every interleaving
    "conc": {"code": ["-O1", "-gline-tables-only", "-fsanitize=thread"], "runtime": [("sim/core.cpp", ["-O2"]), ("sim/csim.cpp", ["-O2"])],
             "link": ["-rdynamic"], "libs": ["-ldl"]},
}
ENV_STUB = ["global operator new/delete (counting, failing on demand)", "element type with tracked lifetime, throwing copy and comparison"]
CHECKS = {}
def check(id, harness, quick_runs, rule, states, real, stub, flavour="env", level="exploration", **kw):
    CHECKS[id] = dict(harness=harness, quick_runs=quick_runs, rule=rule, states=states, real=real, stub=stub, flavour=flavour, level=level, **kw)

check("D01", "trees.cpp", 24000,
      "One run = one seeded history of up to 120 operations on one to three containers with one of nine priority sources (ordinary, stuck, extreme, signed, rising, falling, zigzag, tiny) against a sorted-vector model; a run is non-trivial when it logged at least two events, distinct by the hash of its event log.",
      "hash of the model contents of the container touched by each operation",
      ["treap", "binary_search_tree", "their iterators"], ["the priority source of the treap"] + ENV_STUB[:1])
check("D02", "trees.cpp", 24000,
      "One run = one seeded history of up to 150 operations on one or two ropes with one of nine priority sources against a plain vector; non-trivial when it logged at least two events, distinct by the hash of its event log.",
      "hash of the model contents of the rope touched by each operation",
      ["rope", "treap", "binary_search_tree"], ["the priority source of the rope"] + ENV_STUB[:1])
check("D03", "trees.cpp", 24000,
      "One run = one seeded history of up to 60 operations in which two thirds of the operations have one fault armed at the n-th allocation, element copy or comparison inside them; non-trivial when it logged at least two events, distinct by the hash of its event log.",
      "hash of the model contents after each operation together with whether a fault fired",
      ["binary_search_tree", "treap", "rope"], ENV_STUB)
check("D04", "trees.cpp", 24000,
      "One run = one seeded history of up to 60 operations (also clear, copy, move, swap, assign) over two or three containers of tracked elements; live elements are compared with the model after every operation and allocations at the end; distinct by the hash of its event log.",
      "hash of the model contents of the container touched by each operation",
      ["binary_search_tree", "treap", "rope"], ENV_STUB)

CONC_STUB = ["thread scheduler (pthread_create/join, mutexes, condition variables, once, static-initialisation guards replaced by simulated ones)", "clock and sleeps", "global operator new/delete (failing on demand)"]
CONC_STATES = "hash of the complete schedule: the sequence of (next thread, steps made by the previous one) together with the number of steps"
CR = "One run = one seeded schedule; pre-emption is possible at every memory access of the code and at every synchronisation call. "
check("C01", "conc.cpp", 20000,
      CR + "Draws threads (0-12), jobs (0-36), job delays, or a range and a chunk length of one of eight integer types; non-trivial when it logged at least two events, distinct by the hash of its event log.",
      CONC_STATES, ["parallel_execute", "range_job_provider", "add_result_collector", "std::thread/mutex wrappers"], ["job provider, worker provider, collector that count"] + CONC_STUB[:2], flavour="conc")
check("C02", "conc.cpp", 20000,
      CR + "Providers and collectors keep plain unsynchronised state on which every pair of unordered accesses is a violation; distinct by the hash of its event log.",
      CONC_STATES, ["parallel_execute", "range_job_provider", "add_result_collector"], ["job provider, worker provider, collector with plain state"] + CONC_STUB[:2], flavour="conc")
check("C03", "conc.cpp", 20000,
      CR + "Jobs stall until everything else is finished, meet at a barrier of all threads, or sleep for hours of simulated time; distinct by the hash of its event log.",
      CONC_STATES, ["parallel_execute"], ["job provider, worker provider, collector that count and stall"] + CONC_STUB[:2], flavour="conc")
check("C04", "conc.cpp", 20000,
      CR + "One to three failures are planned per run: worker, provider, collector or worker provider throws, a thread cannot be started, the n-th allocation fails; distinct by the hash of its event log.",
      "outcome, executed and collected jobs, threads; and " + CONC_STATES, ["parallel_execute"], ["throwing job provider, worker provider, collector"] + CONC_STUB, flavour="conc")
check("C05", "conc.cpp", 20000,
      CR + "Two to five threads enter guarded blocks on two mutexes and leave them in ten ways; distinct by the hash of its event log.",
      CONC_STATES, ["LOCK", "std::mutex wrappers"], CONC_STUB[:2], flavour="conc")

SRC_MATH = ["src/algorithm/math/bits.cpp", "src/algorithm/math/modulos.cpp", "src/algorithm/math/primes.cpp", "src/algorithm/math/base.cpp"]
SRC_IO = SRC_MATH + ["src/io/iostream_overloads.cpp"]
check("C06", "conc2.cpp", 30000,
      CR + "Two to four threads each carry out one to three tasks drawn from 32 parts of the library on objects of their own; every result is compared with the one the same task gives in a forked single-threaded process; distinct by the hash of its event log.",
      CONC_STATES, ["writers and readers", "hashes", "roots of unity, fft, polynomial products", "power sums", "nimbers", "prime counts", "expression parsers", "seeded generators", "number theory", "containers", "graph algorithms", "sieves, divisor sums, counting", "transforms and convolutions", "number lists and digits", "string indexes", "value types and printing"], CONC_STUB[:2] + ["FILE* byte source and sink (fopencookie)"], flavour="conc", src=SRC_IO)
check("C07", "conc2.cpp", 30000,
      CR + "Two to four threads each make one to three groups of read-only queries on objects built beforehand; answers are compared with those of a forked single-threaded process; distinct by the hash of its event log.",
      CONC_STATES, ["ordered containers, ropes", "segment tree, binary indexed tree, bit vector, maps", "range minimum, suffix array, prefix tree", "cumulative hash", "polynomials, matrices, permutations, fractions", "heap, graph, generator state", "ancestors and paths", "graph algorithms on a shared graph", "word search", "built number tables", "printing"], CONC_STUB[:2], flavour="conc", src=SRC_IO)

IO_STUB = ["files (fopencookie: short reads, EINTR/EIO, dead device, ENOSPC, torn writes)", "stream buffers (short, failing, throwing)"] + ENV_STUB[:1]
IO_STATES = "hash of the event log: every operation with its result"
check("I01", "io.cpp", 30000,
      "One run = one seeded history of up to 40 mixed calls (characters, blocks, skip, unread, reserve, data, refill, advance) on a stack of readers over a simulated file, stream or string, then the rest is drained; every byte is compared with the source; non-trivial when it logged at least two events, distinct by the hash of its event log.",
      IO_STATES, ["file_reader", "stream_reader", "string_reader", "buffered_reader", "simple_reader", "fast_read"], IO_STUB, src=SRC_IO)
check("I02", "io.cpp", 30000,
      "One run = the history of I01 in which the success indicator is compared with a model after every call; distinct by the hash of its event log.",
      IO_STATES, ["file_reader", "stream_reader", "string_reader", "buffered_reader", "simple_reader", "fast_read (counts only)"], IO_STUB, src=SRC_IO)
check("I03", "io.cpp", 30000,
      "One run = a seeded text of up to nine items (integers, doubles, words, lines, characters, formatted fields) read through a seeded stack of readers whose source splits it at random and fails between items; distinct by the hash of its event log.",
      IO_STATES, ["simple_reader", "simple_reader_stream", "fast_read", "buffered_reader and what lies below"], IO_STUB, src=SRC_IO)
check("I04", "io.cpp", 30000,
      "One run = one seeded history of up to 24 writes and flushes on a stack of writers over a simulated file, stream or character array; the bytes that arrived are compared after every call, every flush and at the end; distinct by the hash of its event log.",
      IO_STATES, ["file_writer", "stream_writer", "string_writer", "buffered_writer", "simple_writer", "simple_writer_stream", "fast_write"], IO_STUB, src=SRC_IO)
check("I05", "io.cpp", 30000,
      "One run = one seeded history of up to 30 writes whose bytes identify their position, onto a sink that fails (ENOSPC, EIO, EINTR, torn, exceptions) and may recover; distinct by the hash of its event log.",
      IO_STATES, ["file_writer", "stream_writer", "buffered_writer", "simple_writer", "fast_write"], IO_STUB, src=SRC_IO)
check("I06", "io.cpp", 30000,
      "One run = up to eleven seeded values written through one stack of writers and read back through another stack of readers with other buffers and fragmentation; distinct by the hash of its event log.",
      IO_STATES, ["simple_writer", "fast_write", "simple_reader", "fast_read", "the layers below"], IO_STUB, src=SRC_IO)
check("I07", "io.cpp", 30000,
      "One run = one seeded text split by a simulated stream buffer that may fail or throw at any offset; tokens are compared with a direct split of the text; distinct by the hash of its event log.",
      IO_STATES, ["stream_tokenizer token and tokens extraction"], ["stream buffer (short, failing, throwing)"] + ENV_STUB[:1], src=SRC_IO)
check("I08", "io.cpp", 30000,
      "One run = one seeded nesting of printing-mode scopes up to five deep with values printed in between, left normally or by exceptions of a failing stream or the user; distinct by the hash of its event log.",
      IO_STATES, ["manipulators and printing of fractions, modular numbers, polynomials, vectors"], ["stream buffer (failing, throwing)"] + ENV_STUB[:1], src=SRC_IO)

W3 = ["-Wl,--wrap=fopen", "-Wl,--wrap=time", "-Wl,--wrap=clock"]
RND_STUB = ["entropy source (cannot be opened, short, ends, fails)", "time() and clock() (frozen, jumping, failing)"] + ENV_STUB[:1]
check("R01", "random.cpp", 12000,
      "One run = one seeded history of up to 46 steps (draws in twelve ways, seeding, saving, restoring, copying, assigning, moving, destroying, crash and restart from saved states) over up to six generators against an independent implementation of the same generators; distinct by the hash of its event log.",
      "generator position, first state words and number of generators after each step", ["mtrand", "xorshift_64star", "xorshift_1024star"], ["streams the states are saved to and restored from (short reads)", "process restart"], link=W3)
check("R02", "random.cpp", 16000,
      "One run = one saved state damaged up to three times (truncated, bytes, position word, lost and inserted tokens, oversized words) and restored from a stream that may fail or throw anywhere, or from an array, then used for up to 1300 draws; distinct by the hash of its event log.",
      "validity, stream verdict, length of the damaged text, previous position", ["mtrand"], ["the stream the state is restored from (short, failing, throwing)"], link=W3)
check("R03", "random.cpp", 12000,
      "One run = a series of up to six self-seeded generators, each with its own fate of the entropy source, under one of six clock behaviours; the series is repeated in a process whose uninitialised memory differs; distinct by the hash of its event log.",
      "fate of the entropy source and clock behaviour per generator", ["mtrand"], RND_STUB, link=W3)
check("R04", "random.cpp", 40000,
      "One run = a seeded range of one of four widths and a bit source of one of six behaviours, or generators in hostile states; 8-bit ranges are tried with all 256 source values; distinct by the hash of its event log.",
      "range, source behaviour and first source value", ["uniform_next, integer_to_range, integer_to_double_0_1", "mtrand", "xorshift generators"], ["bit source (stuck, adversarial, alternating)"], link=W3)
check("K01", "random.cpp", 40000,
      "One run = a series of readings of one of five simulated clocks or of the trapped cycle counter (frozen, slow, fast, jumping, passing 32 and 53 bits) against exact differences; distinct by the hash of its event log.",
      "start reading and current reading", ["since", "rdtsc_clock"], ["clocks of five resolutions", "the processor's cycle counter (instruction trapped and emulated)"], link=W3)

WM = ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
check("D05", "structs.cpp", 30000,
      "One run = one seeded history of up to 65 steps (allocate, release, copy, convert, move, assign, swap, destroy) over up to six allocators, or up to 45 operations on up to six trees and ropes that use one, while malloc, element copies and comparisons may fail; distinct by the hash of its event log.",
      "number of allocators and live elements after each step", ["bounded_contiguous_allocator", "binary_search_tree, treap, rope on top of it"], ["malloc and free (failing, accounted)", "elements that fail to copy or compare"] + ENV_STUB[:1], link=WM)
check("D06", "structs.cpp", 20000,
      "One run = one seeded history of up to 130 steps (add, link, cut, update, six kinds of queries, copy, assign, swap, destroy) over up to four forests against parent arrays, with allocations and element copies failing; distinct by the hash of its event log.",
      "shape of all forests after each step", ["link_cut_tree"], ["elements that fail to copy"] + ENV_STUB[:1])
check("D07", "index.cpp", 30000,
      "One run = one seeded history of up to 54 steps (operations, queries, rebuilding, copy, move, assign, swap, destroy) on up to four objects of one of fourteen structures against a plain model, where two fifths of the operations have a fault armed at the n-th allocation, element copy, comparison or user function inside them; distinct by the hash of its event log.",
      "model contents of all objects after each step", ["segment_tree, lazy_segment_tree, fenwick_tree", "binary_heap, bit_vector, disjoint_set, graph", "sqrt_map, lohi_map, prefix_tree", "aho_corasick_trie, suffix_array, direct_rmq, palindrome_tree"], ["element type with failing copies and comparisons", "user functions that fail"] + ENV_STUB[:1], src=SRC_MATH)
check("D08", "tables.cpp", 12000,
      "One run = one seeded history of 2-14 calls of helpers that keep hidden or caller-owned tables, each compared with the same call made first in a forked fresh process, then some calls repeated at the end; results held by the caller are re-examined after every call; distinct by the hash of its event log.",
      "prefixes of the sequence of calls", ["prime_holder, factorial_holder", "complex_root_wrapper, fft, polynom_mul", "sum_pow, bernoulli_b, nimber, prime_pi_deprecated", "polynomial_hash, polynomial_hash1, cumulative_hash", "sum_m, mertens, sqfree_count, squares_r_list, shunting_yard, series"], ["a fresh process for the reference: fork before any call"], src=SRC_MATH)
check("D09", "tables.cpp", 12000,
      "One run = one seeded history of 2-14 calls of helpers that keep hidden or caller-owned tables, two thirds of them with a fault armed at the n-th allocation, coefficient copy or user function inside; failed calls are made again or given up; every completed call is compared with the same call in a forked fresh process; distinct by the hash of its event log.",
      "prefixes of the sequence of calls and failures", ["prime_holder, factorial_holder", "complex_root_wrapper, fft, polynom_mul", "sum_pow, bernoulli_b, nimber, prime_pi_deprecated", "polynomial_hash, polynomial_hash1, cumulative_hash", "sum_m, mertens, sqfree_count, squares_r_list, shunting_yard, series"], ["coefficient type with failing copies", "a fresh process for the reference: fork before any call"] + ENV_STUB[:1], src=SRC_MATH)
check("D10", "arith.cpp", 24000,
      "One run = one seeded history of up to 40 operations on two to four values of one kind (or of factorisations), three quarters of them with a fault armed at the n-th allocation, coefficient copy, coefficient operation or comparison inside; a failed operation is followed by using, reassigning or replacing its target or by making it again; distinct by the hash of its event log.",
      "hash of the operation and of the models of all values after it", ["polynom", "series (instance, fixed and shared order)", "matrix", "permutation", "vectorNd", "quadratic", "factor_integer, factor_integer_slow, from_factorization, from_primes"],
      ["coefficient field whose copies, operations and comparisons can fail"] + ENV_STUB[:1], src=SRC_MATH)
check("D11", "graphs.cpp", 30000,
      "One run = one seeded graph (directed, acyclic, undirected, simple, forest, weighted), formula, cost matrix or network and one computation on it, or up to nine steps on one solver object, each step made up to four times with a fault armed at the n-th allocation, weight operation or visitor call inside before it is made without; answers are compared with exhaustive computation on a plain model; distinct by the hash of its event log.",
      "hash of the input and kind of computation", ["iterative_dfs, parents, topological_sort, tarjan_scc, transitive_closure, transitive_reduction", "dijkstra, floyd_warshall, prim_spanning_tree", "chain_decomposition, cut_edges, cut_vertices, biconnected_components, block_cut_tree, chromatic_polynomial", "dinic_flow, push_relabel_flow, bipartite_matching, hungarian", "lowest_common_ancestor, heavy_light_decomposition, heavy_light_decomposition_ex", "sat2"],
      ["weights whose copies, operations and comparisons can fail", "visitors that fail"] + ENV_STUB[:1], src=SRC_MATH)
check("D12", "seqs.cpp", 30000,
      "One run = one seeded input (sequence, table, expression, recurrence, transform, number) and one algorithm over it, made up to four times with a fault armed at the n-th allocation, element copy or operation, comparison, predicate or visitor call inside before it is made without; answers are compared with direct computation and the calls of visitors with the expected ones; distinct by the hash of its event log.",
      "hash of the algorithm and its input", ["collections.h, reduce.h", "binary_search.h, kmp_search.h", "ranges.h, convolutions.h, fft.h", "recurrence.h, counting.h", "shunting_yard.h", "triples.h, pell.h, fractions.h, convergents.h, primes.h (divisors, digits), combinatorics.h (next_combination)"],
      ["element types whose copies, operations and comparisons can fail", "predicates, evaluators and visitors that fail or stop"] + ENV_STUB[:1], src=SRC_MATH)
check("D13", "algebra.cpp", 24000,
      "One run = one seeded history of up to 40 operations on two to four values of one composite number type, three quarters of them with a fault armed at the n-th allocation, component copy, component operation or comparison inside; a failed operation is followed by using, reassigning or replacing its target or by making it again; every component carries its ring and refuses to meet one without; distinct by the hash of its event log.",
      "hash of the operation and of the models of all values after it", ["fraction", "complex, quadratic (instance, fixed and shared)", "with_infinity", "moebius_tr", "vector2d, vector3d", "cl3 (rotor, vector, multivector)", "pga (all parts and composites)"],
      ["component ring whose copies, operations and comparisons can fail and whose elements know their modulus"] + ENV_STUB[:1], src=SRC_MATH)
check("C08", "nest.cpp", 30000,
      "One run = one history of I01-I08, D03, D07 or D10, or one computation of D11 or D12, with steps of it that have a nested call armed at the n-th element operation, copy, comparison, predicate, visitor, read or write call inside: there another such computation, mostly of the same kind, is carried out and checked (and may itself be interrupted once), and then the outer one goes on; both are compared with the models of those properties; distinct by the hash of its event log.",
      "hash of the operation or algorithm and its input, as in those properties", ["polynom, series, matrix, permutation, vectorNd, quadratic, factor_integer", "the graph algorithms of D11", "the algorithms over sequences and numbers of D12", "the index structures of D07, the ordered containers of D03", "the readers, writers, tokenizers and manipulators of I01-I08"],
      ["element, coefficient and weight types whose operations call the library", "predicates, evaluators and visitors that call the library", "sources and sinks that call the library"], src=SRC_IO)
