#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here because it is easier to edit)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INC = "include/altruct/"
CONC = INC + "concurrency/concurrency.h"

# ------------------------------------------------------------------ concurrency
prop("C01", "Parallel execution runs every job once and collects each result once",
     "For any number of threads and any interleaving, parallel execution takes every job its provider offers, has exactly one worker execute each of them exactly once, and hands each result to the collector exactly once together with the job it belongs to. The call returns only after all of that has happened, so everything the collector gathered is complete and visible to the caller. The supplied range provider's jobs tile the requested range exactly, in order, without gap or overlap, and the supplied adding collector ends with the exact total.",
     ["schedules", "inputs"], "every schedule of the worker threads, every thread count, job count and range (also ranges that touch the limits of the number type)",
     "The parallel execution header is not run by any stable test: its test file is not part of the suite and would see one OS schedule per run.",
     [CONC], [("parallel_execute", CONC), ("range_job_provider", CONC), ("add_result_collector", CONC)], ["calls on the job provider, workers and result collector", "return of parallel_execute"])
prop("C02", "Objects supplied to parallel execution are never used concurrently",
     "The job provider, the worker provider and the result collector handed to parallel execution need no locking of their own: whatever the schedule, no two threads are inside one of them at the same time and every use is ordered after the previous one, so unsynchronised state in them is never raced on. Each thread obtains exactly one worker, and a worker is only ever used by the thread that obtained it.",
     ["schedules"], "every interleaving of 1 to 8 threads inside the supplied objects, at the granularity of single memory accesses",
     "A data race or an overlap needs a particular interleaving; no stable test runs this code at all.",
     [CONC], [("job_provider_mutex", CONC), ("result_collector_mutex", CONC), ("one worker per thread", CONC)], ["every instrumented memory access of the supplied objects"])
prop("C03", "A slow job never holds up the other jobs of a parallel execution",
     "Jobs really run in parallel: with n threads, n jobs (when there are that many) can all be in progress at the same moment, and a job that takes arbitrarily long delays neither the execution nor the collection of the jobs that other threads can run. As soon as the slow jobs finish, the call finishes; it never deadlocks, whatever the schedule and even when threads are woken spuriously or start late.",
     ["schedules", "fault_sequences"], "every choice of stalled jobs (up to one fewer than the threads), thread start delays and interleavings",
     "Whether the execution step is serialised, or a lock is held across it, does not change any result a test can compare; it shows only when a job is stalled deliberately.",
     [CONC], [("the provider lock is released before execute_job, the collector lock taken after it", CONC)], ["progress of unstalled jobs while chosen jobs are parked"])
prop("C04", "Failures inside a parallel execution reach the caller after a clean stop",
     "When a worker, the job provider, the worker provider or the result collector throws, or memory or threads cannot be obtained, parallel execution still stops all its threads before it returns, never terminates the process and never hangs, and the caller gets that failure as an exception. If the only failure is that not all requested threads could be started, the work is either completed by the threads that exist or refused with an exception. Jobs are never executed twice or collected twice because of a failure, and no result is delivered for a job that failed.",
     ["fault_sequences", "schedules"], "every place and moment at which a supplied object throws, an allocation fails or a thread cannot be started, under every schedule",
     "No test makes a job, a provider, a collector, an allocation or a thread start fail.",
     [CONC], [("parallel_execute", CONC)], ["exception seen by the caller", "threads alive at return", "process survival"])
prop("C05", "The lock helper runs its body exactly once under mutual exclusion",
     "A block guarded by the lock helper is executed exactly once per entry, with the mutex held for the whole block and by one thread at a time. The mutex is released exactly once on every way out of the block: falling off its end, break, continue, return or an exception.",
     ["schedules", "programs"], "every interleaving of several threads contending for several guards, with every kind of exit from the guarded block, also nested guards",
     "No stable test uses the helper, and a test could not observe mutual exclusion under all schedules.",
     [CONC], [("LOCK", CONC)], ["entries and exits of guarded blocks, mutex state"])
prop("C06", "Threads that use separate objects get the results they would get alone",
     "Threads that each work on their own objects - number writers and readers, hashes, roots of unity, polynomial products, power sums, nimbers, prime counts, expression parsers, random generators with explicit seeds, bit and modular helpers, sieves, divisor sums and counting functions, transforms and convolutions, graph computations, tree, string and range indexes, value types and their printing - and share nothing of their own obtain exactly the results the same calls give in a single-threaded run. No library call races on hidden shared state, whatever the interleaving, including the very first calls that build hidden tables.",
     ["schedules", "histories"], "every interleaving, at memory access granularity, of 2 to 4 threads calling the listed parts of the library on their own objects",
     "All tests are single-threaded; hidden static buffers and lazily built tables are only wrong when two threads interleave inside them.",
     [INC + "io/writer.h", INC + "io/fast_io.h", INC + "algorithm/hash/polynomial_hash.h", INC + "structure/math/root_wrapper.h", INC + "algorithm/math/sums.h", INC + "structure/math/nimber.h", INC + "algorithm/math/prime_pi.h", "experimental/include/altruct/algorithm/graph/hungarian.h", INC + "algorithm/search/kmp_search.h"],
     [("no mutable state shared between calls, or state that is per thread or guarded", INC)], ["results per thread, instrumented memory accesses"])
prop("C07", "Concurrent read-only use of one object is safe and consistent",
     "Several threads may query one shared object at the same time through its read-only operations (searching and iterating ordered containers and ropes, segment tree and binary indexed tree queries, bit vector queries, range minimum, suffix array and prefix tree lookups, hash queries, polynomial, matrix and permutation reads, ancestor and path queries, graph computations on a shared graph, number tables that have already been built, printing) without any synchronisation. Every thread gets the same answers a single thread would get, and no such query modifies memory another query uses.",
     ["schedules"], "every interleaving, at memory access granularity, of 2 to 4 threads that query one object built beforehand",
     "All tests are single-threaded; a hidden write in a query (splaying, caching, path compression) does not change any single-threaded answer.",
     [INC + "structure/container/binary_search_tree.h", INC + "structure/container/treap.h", INC + "structure/container/rope.h", INC + "structure/container/segment_tree.h", INC + "structure/container/bit_vector.h", INC + "structure/math/fenwick_tree.h"],
     [("const member functions that do not write", INC)], ["results per thread, instrumented memory accesses"])

X = "experimental/include/altruct/"
prop("C08", "Callbacks may call the library",
     "The functions a computation calls back - arithmetic, copies and comparisons of the elements it works on, orders, predicates, evaluators, visitors, segment combiners, and the streams and files read and written - may use the library themselves, including the very computation that is calling them, on other data, before they return, to any depth. Both computations then give exactly what each would give alone: the outer one continues as if the call had not happened, the inner one is complete when it returns, and neither changes, repeats, loses or keeps anything of the other. (The printing modes set by manipulators belong to the whole process and are excepted.)",
     ["schedules", "inputs", "histories"], "every point at which a computation calls back, every computation made there, and nestings of these",
     "Tests use numbers and stateless lambdas; nothing they pass in calls the library again.",
     [X + "algorithm/graph/iterative_dfs.h", INC + "algorithm/parser/shunting_yard.h", INC + "structure/math/polynom.h", INC + "structure/math/series.h", INC + "structure/container/segment_tree.h", INC + "structure/container/binary_search_tree.h", INC + "algorithm/search/kmp_search.h", INC + "io/reader.h"],
     [("working storage is local to the call", INC + "structure/math/polynom.h")], ["results of the inner and the outer computation, elements and blocks alive"])

# ------------------------------------------------------------------ input and output
RD = INC + "io/reader.h"; WR = INC + "io/writer.h"; FI = INC + "io/fast_io.h"
prop("I01", "Readers deliver exactly the bytes of their source",
     "Whatever the byte values, the way the source splits its data into pieces, the buffer size and the mix of calls (single characters, blocks, skipping, unreading, reserving, looking at buffered data), a reader hands out exactly the bytes of the source, each once and in order. Short reads, interrupted reads and transient read errors never lose, repeat, reorder or invent a byte: reading again continues exactly where the data stopped. This holds for readers over files, streams, strings and other readers, and nothing outside the caller's buffers is touched.",
     ["inputs", "fault_sequences", "histories"], "all byte contents, chunkings, buffer sizes, call sequences and placements of short reads, interruptions and transient errors",
     "Tests read short ASCII texts from sources that always deliver everything at once, through a handful of calls.",
     [RD, FI], [("refill moves the unread bytes to the front and appends what the source gives", RD), ("fast_read::refill", FI)], ["bytes returned to the caller"])
prop("I02", "Readers report end of input and failure exactly when it happens",
     "A reader's success indicator turns false exactly when an operation could not deliver everything that was asked of it because the source ended or failed, and not before: reading the last available byte or a block that ends exactly at the end of the source still succeeds. The end-of-input value is returned only when no byte is available, never for a data byte, and the number of bytes reported as read or skipped is exactly the number consumed.",
     ["inputs", "fault_sequences", "histories"], "all contents (every byte value), call sequences and positions of the end or failure of the source",
     "Tests check the flag at a few fixed positions of one short text.",
     [RD, FI], [("read_failed", RD), ("read_char returns -1", RD)], ["operator bool, return values"])
prop("I03", "Parsed values do not depend on how the input arrives",
     "Numbers, words, lines and formatted fields read through the buffered readers are those written in the input text, independent of how the source fragments it, of the buffer size (as long as a formatted field fits in it) and of transient read errors that happen between two items. After each item the reader stands exactly behind it, so the following items are read correctly too; characters that end an item are not lost.",
     ["inputs", "fault_sequences", "histories"], "all texts made of integers, floating point numbers, words and lines with all separators, all fragmentations, buffer sizes and mixes of reading calls",
     "Tests parse a few texts that fit in the buffer and arrive in one piece.",
     [RD, FI], [("simple_reader", RD), ("fast_read", FI), ("unread_char", RD), ("data/counter/advance", RD)], ["parsed values and position"])
prop("I04", "Buffered output reaches the sink exactly once and in order",
     "Everything written through a writer - characters, blocks, strings (also with zero bytes in them), numbers, formatted data placed directly in the buffer - arrives at the sink exactly once, in order and unmodified, whatever the buffer size, the pattern of explicit flushes and the way writers are stacked. After a flush, and after the writer is destroyed, nothing is left behind. A writer onto a caller's character array never writes past the given capacity and keeps the longest prefix that fits.",
     ["inputs", "histories", "fault_sequences"], "all sequences of writing calls, contents, buffer sizes, flush points and sinks that take data in small pieces",
     "Tests write a few short items into buffers that are large enough or flushed at the end.",
     [WR, FI], [("buffered_writer::flush", WR), ("string_writer capacity check", WR), ("fast_write::flush", FI)], ["bytes arriving at the sink"])
prop("I05", "A failing sink never corrupts output or brings down the process",
     "When the file or stream behind a writer fails (full disk, I/O error, torn write, exception) at any moment and for any length of time, what has arrived at the sink is always made of pieces of the written data in their original order, none of them twice. Missing data is never silent: the file's or stream's own error indicator is set. Later writes reach the sink again once it recovers, and neither writing, flushing nor destroying the writer crashes, hangs, leaks or terminates the process.",
     ["fault_sequences", "histories"], "all placements and durations of sink failures inside all sequences of writing calls",
     "No test uses a sink that fails.",
     [WR, FI], [("flush resets the buffer after handing it over", WR)], ["bytes at the sink, ferror/badbit, process survival"])
prop("I06", "Values written are read back unchanged",
     "Every integer of every supported type (including the smallest and largest), every word and line, and every double within the printed precision that is written by a writer is read back as the same value by the matching reader, whatever the buffer sizes on either side and however the transport between them fragments and delays the bytes. Printed numbers consist only of well-formed decimal digits, sign, point and exponent.",
     ["inputs", "fault_sequences"], "all sequences of values, separators, buffer sizes and fragmentations of the transport",
     "Tests check a few values against fixed strings and never couple a writer with a reader.",
     [WR, RD, FI], [("write_integral_number/write_floating_point_number", WR), ("read_integral_number/read_floating_point_number", RD)], ["values read back"])
prop("I07", "Stream tokens are split the same way however the stream delivers its bytes",
     "Extracting tokens and delimited token lists from an input stream yields the pieces the text contains, independent of how the underlying stream buffer delivers the characters. When the stream ends or fails, in the middle of a token or between tokens, extraction ends after finitely many steps with the stream in a failed state and the tokens found so far, and the stream's formatting flags are what they were before, also when the stream reports failures by exceptions.",
     ["inputs", "fault_sequences"], "all texts, chunkings of the stream buffer, and failure positions, with and without stream exceptions",
     "Tests tokenize a few string streams that deliver everything at once.",
     [INC + "io/stream_tokenizer.h"], [("operator>>", INC + "io/stream_tokenizer.h")], ["tokens, stream state and flags"])
prop("I08", "Output mode switches last exactly as long as their scope",
     "The manipulators that change how fractions, modular numbers and polynomials are printed take effect for exactly the lifetime of the manipulator object and restore the previous mode when it ends, in every nesting and also when the scope is left by an exception from a failing stream. Output produced inside and outside such scopes is the documented text for the mode in force.",
     ["fault_sequences", "histories"], "all nestings of mode switches, values and failure positions of the stream",
     "Tests use one manipulator at a time on streams that never fail.",
     [INC + "io/iostream_overloads.h", "src/io/iostream_overloads.cpp"], [("ALTRUCT_IO_MANIPULATOR", INC + "io/iostream_overloads.h")], ["printed text, mode after the scope"])

# ------------------------------------------------------------------ clock and randomness
prop("K01", "Elapsed time follows the clock it was started with",
     "The elapsed-time helper returns, in seconds, exactly the difference between the start point and the current reading of the very clock the start point came from, for every clock and every resolution, and so is never negative for a steady clock. The cycle-counter clock reports the processor's counter, at the configured frequency, without losing or reordering readings, also around overflow of narrower counters and under frozen or jumping counters.",
     ["inputs", "fault_sequences"], "all readings of a simulated clock and cycle counter: frozen, slow, fast and jumping ones",
     "The existing chrono test only prints numbers; a real clock can neither be frozen nor made to jump.",
     [INC + "chrono/chrono.h"], [("since", INC + "chrono/chrono.h"), ("rdtsc_clock::now", INC + "chrono/chrono.h")], ["value returned by since and now"])
MT = INC + "algorithm/random/mersenne_twister.h"
prop("R01", "A saved, restored or copied random generator continues the same sequence",
     "At any point of its life the state of a random generator can be saved to an array or written to a stream, and restoring it into any other generator makes that one continue with exactly the sequence the original continues with. Copies and assignments of a generator continue the same sequence too and are independent of the original: drawing from, re-seeding or destroying one never affects the other. Equal seeds give equal sequences, and they are the sequences of the generator named (Mersenne Twister, xorshift).",
     ["histories", "crash_points"], "all interleavings of drawing, seeding, saving, restoring, copying, assigning and destroying several generators, with the process stopping and resuming from the saved state at any draw",
     "There is no test of this generator at all, and copies differ only at particular points of the 624-word cycle.",
     [MT, INC + "algorithm/random/xorshift.h"], [("save/load, operator<< and operator>>", MT), ("pNext into state", MT)], ["drawn values"])
prop("R02", "A damaged saved generator state is never dangerous",
     "Restoring a random generator from a truncated, torn, corrupted or unreadable saved state never makes it read or write outside its own memory or hang, now or in any later draw. A stream that could not supply a complete valid state is left in a failed state (or throws), and the generator then goes on with the sequence it had before.",
     ["fault_sequences", "inputs"], "all truncation points, corrupted bytes and read failures of the saved text and of the saved array's position word",
     "No test restores anything.",
     [MT], [("load, operator>>", MT)], ["memory accesses after the restore, stream state"])
prop("R03", "Self-seeded generators get distinct, usable seeds even when entropy fails",
     "A generator constructed without a seed always ends up properly seeded, whether the system's entropy source is present, missing, short, failing or failing half way. Two such generators never get the same sequence, even when the entropy source is unavailable and the clocks stand still, jump back or repeat; the entropy source is closed again in every case.",
     ["fault_sequences", "histories"], "all outcomes of opening and reading the entropy source and all readings of the clocks, for series of generators",
     "No test constructs a self-seeded generator, and a test cannot make the entropy source fail.",
     [MT], [("seed(), hash()", MT)], ["drawn values, open files"])
prop("R04", "Bounded random draws stay in range and terminate for every bit source",
     "A bounded draw always returns a value in the requested inclusive range, ends after at most twenty values from its source even when the source is stuck or adversarial, and accepts exactly the values that keep the draw unbiased. This holds for every range, including the full range of the type and a range of one value, and real-valued draws stay inside their documented interval.",
     ["inputs", "fault_sequences"], "all ranges and all behaviours of the underlying bit source: stuck, alternating, adversarial and ordinary ones",
     "Tests use one small range and a perfectly shuffled source.",
     [INC + "algorithm/random/random.h", INC + "algorithm/random/xorshift.h", MT], [("uniform_next", INC + "algorithm/random/random.h"), ("randInt(n)", MT)], ["values returned, values consumed"])

# ------------------------------------------------------------------ containers
CT = INC + "structure/container/"
prop("D01", "Randomised trees are correct whatever priorities they draw",
     "Treaps behave as ordered multisets or sets with the chosen duplicate handling - contents, order, positions, counts, searches, erasures, iteration, comparison, copying and swapping - for every sequence of operations and for every sequence of priorities the random source delivers: ordinary, constant, extreme, negative or adversarial ones. Priorities influence speed only.",
     ["inputs", "fault_sequences", "histories"], "all operation sequences combined with all outputs of the priority source, including stuck and adversarial ones",
     "Tests run fixed operation sequences with the C library's default random sequence.",
     [CT + "treap.h", CT + "binary_search_tree.h"], [("retrace_up restores the heap order by rotations", CT + "treap.h")], ["contents, order, positions and counts"])
prop("D02", "Ropes are correct whatever priorities they draw",
     "A rope behaves as a sequence with insertion, erasure and access at arbitrary positions, range erasure, appending, comparison, random-access iteration in both directions, copying and swapping, for every sequence of operations and every sequence of priorities the random source delivers, including constant, negative and adversarial ones.",
     ["inputs", "fault_sequences", "histories"], "all operation sequences combined with all outputs of the priority source",
     "Tests run fixed operation sequences with the C library's default random sequence.",
     [CT + "rope.h", CT + "treap.h"], [("find_kth and insert_before by subtree sizes", CT + "rope.h")], ["sequence contents"])
prop("D03", "A failed container operation leaves ordered containers intact",
     "When an allocation, an element copy or a comparison fails inside an operation of an ordered container or rope, the failure reaches the caller, the container remains valid with the contents it had before or with a prefix of a bulk operation applied, and it stays fully usable. Nothing leaks and nothing is destroyed twice.",
     ["fault_sequences", "histories"], "every point of failure inside every operation (insert, bulk insert, copy, assign, erase, build) of every history",
     "No test makes an allocation, a copy or a comparison fail.",
     [CT + "binary_search_tree.h", CT + "treap.h", CT + "rope.h"], [("node allocation before linking", CT + "binary_search_tree.h")], ["contents after the failure, live elements and allocations"])
prop("D04", "Containers destroy each element exactly once and release all memory",
     "Over any history of insertions, erasures, clearing, copying, moving, swapping and assignment, ordered containers and ropes destroy every element they created exactly once and give back every allocation, and after clearing they are empty and usable. Copies are independent of their originals; moved-from and swapped containers remain valid.",
     ["histories"], "all histories of operations over several containers of the same type, also empty ones",
     "Tests compare contents only; leaks and double destruction are invisible to them.",
     [CT + "binary_search_tree.h", CT + "treap.h", CT + "rope.h"], [("_free_all, clear, swap", CT + "binary_search_tree.h")], ["live elements and allocations at the end"])

prop("D05", "The bounded allocator respects its capacity and never mixes up memory",
     "Allocations from a bounded contiguous allocator are properly aligned, inside its block, disjoint from every other live allocation, and keep their contents until released; what does not fit, or cannot be obtained from the system, is refused with the standard allocation failure and leaves everything already allocated intact. A copy is an independent allocator of the same capacity. Copying, moving and swapping allocators, used or unused, or assigning to one from which nothing is in use, never releases memory twice, leaks it, or releases memory that is still in use, and each tree or rope using one can be copied, moved, swapped and destroyed independently.",
     ["histories", "fault_sequences"], "all sequences of allocation, release, exhaustion, copying, moving and swapping of allocators and of containers that use them, with system allocation failures at any point",
     "No test uses this allocator.",
     [CT + "bounded_contiguous_allocator.h"], [("capacity check and block ownership", CT + "bounded_contiguous_allocator.h")], ["addresses, contents, live allocations"])
prop("D06", "Dynamic forests answer correctly and survive failures",
     "A link-cut tree answers root, parent, depth, lowest common ancestor, path aggregate (also for aggregates that do not commute) and path traversal queries like a plain forest would, after any history of adding, linking, cutting and updating; queries and cutting a root change nothing. Copies are independent of their originals. When an allocation or an element copy fails in the middle of building, copying or extending one, everything allocated is released and the structure that existed before is still intact and usable.",
     ["histories", "fault_sequences"], "all histories of link, cut, update and query operations, with a failure at any allocation or copy",
     "The structure has no stable test at all.",
     [CT + "link_cut_tree.h"], [("access/splay", CT + "link_cut_tree.h")], ["query results, live elements and allocations"])
prop("D07", "Index structures stay usable after a failed operation",
     "When an allocation, an element copy or a user-supplied function fails inside an operation of a segment tree, binary indexed tree, heap, bit vector, disjoint set, graph, low/high or square-root map, prefix tree, Aho-Corasick automaton, palindrome tree, suffix array or range-minimum table, the failure reaches the caller, nothing leaks, and no later operation touches memory outside the structure. The structure can still be queried, rebuilt, reassigned and destroyed, and after a rebuild or reassignment it answers correctly; a structure whose building or assignment itself failed is rebuilt or reassigned before it is queried. Copies are independent of the original. Without failures every operation and query agrees with a plain reference.",
     ["fault_sequences", "histories"], "every point of failure inside every operation, followed by every history of further operations",
     "No test makes anything fail inside these structures.",
     [CT + "segment_tree.h", CT + "lazy_segment_tree.h", CT + "binary_heap.h", CT + "bit_vector.h", CT + "sqrt_map.h", CT + "lohi_map.h", INC + "structure/graph/graph.h", INC + "structure/graph/disjoint_set.h", INC + "structure/math/fenwick_tree.h", "experimental/include/altruct/structure/container/prefix_tree.h", "experimental/include/altruct/structure/container/aho_corasick_trie.h", "experimental/include/altruct/structure/container/palindrome_tree.h", "experimental/include/altruct/structure/container/suffix_array.h", "experimental/include/altruct/structure/container/range_minimum_query.h"],
     [("sizes are updated only after storage has been obtained", CT)], ["results after the failure, memory accesses"])
prop("D08", "Results never depend on which calls were made before",
     "Helpers that keep hidden tables or fill tables their caller keeps - prime and factorial tables, hash powers, roots of unity behind transforms and polynomial products, Bernoulli numbers behind power sums, nimber products, prime counts, summatory functions - return for every call what they would return as the first call of a fresh process (floating-point results up to rounding). The order, sizes and types of earlier calls, and pointers or objects obtained from them that are still in use, make no difference.",
     ["histories"], "all sequences of calls with growing, shrinking and repeated sizes, moduli and types, with earlier results still held",
     "Tests call each helper in one fixed order in one process.",
     [INC + "structure/math/prime_holder.h", INC + "structure/math/root_wrapper.h", INC + "algorithm/math/sums.h", INC + "structure/math/nimber.h", INC + "algorithm/math/prime_pi.h", INC + "algorithm/hash/polynomial_hash.h", INC + "structure/math/factorial_holder.h"],
     [("lazily grown tables", INC + "structure/math/prime_holder.h")], ["results compared with a fresh process"])
prop("D09", "A failed computation never poisons later results",
     "When an allocation, a coefficient operation or a user-supplied function fails while a hidden table, a table holder (primes, factorials) or a table the caller hands in is being built or extended, the failure reaches the caller and the table is left usable: the same call made again later, and every other call that uses the table, returns the correct result as if the failed call had never been made.",
     ["fault_sequences", "histories"], "every allocation failure inside every table-building call, followed by every history of further calls",
     "No test makes an allocation fail.",
     [INC + "structure/math/prime_holder.h", INC + "structure/math/root_wrapper.h", INC + "algorithm/math/sums.h", INC + "algorithm/hash/polynomial_hash.h", INC + "structure/math/nimber.h", INC + "structure/math/factorial_holder.h"],
     [("ensure() grows a table before recording its new size", INC + "algorithm/hash/polynomial_hash.h")], ["results after the failure"])
prop("D10", "Mathematical values survive failed arithmetic",
     "When an allocation or a coefficient operation fails inside arithmetic on polynomials, series, matrices, permutations, vectors, quadratic extensions or factorisations, the failure reaches the caller, the operands that were not being assigned to keep their values, and nothing leaks. An object that was being assigned to may have any value, but a valid one - a series has the coefficients its order promises, a matrix equally long rows, a permutation disjoint cycles of its own elements - so that it can be used, reassigned and destroyed. Repeating the operation on the original operands gives the correct result.",
     ["fault_sequences", "inputs"], "every point of failure inside every arithmetic operation on random operands",
     "No test makes an allocation or a coefficient operation fail.",
     [INC + "structure/math/polynom.h", INC + "structure/math/series.h", INC + "structure/math/matrix.h", INC + "structure/math/permutation.h", INC + "structure/math/vectorNd.h", INC + "structure/math/quadratic.h", INC + "algorithm/math/factorization.h"],
     [("results are built in separate objects", INC + "structure/math/polynom.h")], ["operands and results after the failure"])
prop("D11", "Graph computations survive failures",
     "When an allocation, an operation on weights or a visitor fails inside a graph computation - traversal, topological order, strong components, closure and reduction, shortest paths, spanning tree, chain decomposition with cut points and biconnected components, chromatic polynomial, flows, matching, assignment, common ancestors, heavy-light decomposition, 2-satisfiability - the failure reaches the caller, the graph, clauses, costs and capacities it was given are as before (heavy-light decomposition may reorder neighbours but every edge keeps its weight), a visitor has been called exactly as far as the failure and not again, and nothing leaks. Making the computation again, also on the same solver object, gives the correct result. Chain decomposition and chromatic polynomial: simple undirected graphs; topological order and reduction: acyclic graphs; dijkstra: non-negative weights; floyd_warshall: no negative cycles; common ancestors and heavy-light: forests; matching: edges from left to right nodes; flow: infinity above the total capacity.",
     ["fault_sequences", "inputs"], "every point of failure inside every computation on random graphs",
     "No test makes an allocation, a weight or a visitor fail, and none reuses a solver after a failure.",
     ["experimental/include/altruct/algorithm/graph/dijkstra.h", "experimental/include/altruct/algorithm/graph/dinic_flow.h", "experimental/include/altruct/algorithm/graph/push_relabel_flow.h", "experimental/include/altruct/algorithm/graph/hungarian.h", "experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h", "experimental/include/altruct/algorithm/graph/iterative_dfs.h", "experimental/include/altruct/algorithm/graph/sat2.h"],
     [("solvers keep their input apart from their working state", "experimental/include/altruct/algorithm/graph/hungarian.h")], ["inputs and answers after the failure"])
prop("D12", "Sequence algorithms, tables and visitors survive failures",
     "When an allocation, an element operation, a comparison, a predicate, an evaluator or a visitor fails inside an algorithm over sequences or caller-owned tables - collection helpers and reductions, binary and pattern search, tables of powers, factorials and inverses, convolutions, subset sums and Fourier transforms, recurrences, Stirling and partition tables, expression parsing and evaluation, divisors, digits, fractions, triples and Pell equations - the failure reaches the caller and nothing leaks; arguments that are only read keep their values; a table computed in place holds valid values and nothing outside of it is touched; elements already in a list that is appended to stay. Callbacks are called in order, once for each element or result, exactly as far as the failure, or as far as they asked to go on, and a binary search asks only inside its range and at most logarithmically often. Computing again from the original arguments gives the correct result. Domain: next_combination on distinct elements, inverse factorials of k! with k below the table's size (at least two entries), transforms of power-of-two sizes with a suitable root, recurrences of length at least one, postfix functions with at least one argument and unary operators of highest precedence, partition and Stirling tables with at least one row, fields for inverses and recurrences.",
     ["fault_sequences", "inputs"], "every point of failure and every place to stop inside every algorithm on random inputs",
     "No test makes an element operation, a predicate or a visitor fail; few stop a search early.",
     [INC + "algorithm/collections/collections.h", INC + "algorithm/search/kmp_search.h", INC + "algorithm/search/binary_search.h", INC + "algorithm/math/ranges.h", INC + "algorithm/math/convolutions.h", INC + "algorithm/math/fft.h", INC + "algorithm/math/recurrence.h", INC + "algorithm/parser/shunting_yard.h", INC + "algorithm/math/triples.h", INC + "algorithm/math/pell.h"],
     [("callbacks are the last thing done for an element", INC + "algorithm/search/kmp_search.h")], ["inputs, tables, calls and answers after the failure"])

prop("D13", "Composite numbers keep their components' context and survive failures",
     "Numbers built from other numbers - fractions, complex numbers and quadratic extensions, numbers with a point at infinity, Moebius maps, vectors of the plane and of space, elements of the Clifford algebra of space and of plane-based geometric algebra - may have any ring as components, also one whose elements carry a context such as their modulus and may be expensive or impossible to use once moved from. No operation uses a component after moving from it, no result has a component that lost the operands' context, and results agree with the algebra's definition. When an allocation, a copy, a comparison or an operation of a component fails, the failure reaches the caller, the operands that were not being assigned to keep their values, nothing leaks, the object that was being assigned to has valid components and can be used, reassigned and destroyed, and repeating the operation on the original operands gives the correct result. Domain: results that the tables of with_infinity leave open, division by zero, by elements without inverse and by an alias of a part of the divided object are excluded; a fraction whose arithmetic failed may be unreduced.",
     ["fault_sequences", "inputs"], "every point of failure inside every operation on random operands of every type, with components of a ring with context",
     "The tests use int, double and modular or symbolic components that never fail, cannot be moved from and have no context of their own.",
     [INC + "structure/math/fraction.h", INC + "structure/math/quadratic.h", INC + "structure/math/complex.h", INC + "structure/math/with_infinity.h", INC + "structure/math/moebius_tr.h", INC + "structure/math/vector2d.h", INC + "structure/math/vector3d.h", INC + "structure/math/clifford3.h", INC + "structure/math/pga.h"],
     [("components are made with zeroOf, identityOf and castOf of the operands' components", INC + "structure/math/pga.h")], ["components of operands and results"])

# ------------------------------------------------------------------ pure functions of their input: no schedule, clock, fault or I/O to simulate
AM = INC + "algorithm/math/"; SM = INC + "structure/math/"; X = "experimental/include/altruct/"
def pure(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text, "Tests sample a handful of inputs; the property must hold for all of them.", files, mech)
pure("N01", "Number theoretic functions agree with their definitions",
     "Primality, sieves, factorisations, divisor, totient and Moebius functions, gcd and extended gcd, Chinese remaindering, modular roots, discrete logarithms, primitive roots and Jacobi symbols return what their mathematical definitions say for every admissible argument.",
     "all integers in the supported ranges", [AM + "primes.h", AM + "factorization.h", AM + "modulos.h", AM + "base.h", "src/algorithm/math/primes.cpp", "src/algorithm/math/base.cpp"], [("the algorithms themselves", AM + "primes.h")])
pure("N02", "Sums over divisors and primes equal their brute-force values",
     "Mertens, divisor summatory, totient sums, prime counting, power sums, lattice and range sums computed by the sublinear algorithms equal the sums written out term by term.",
     "all arguments and moduli", [AM + "divisor_sums.h", AM + "mertens.h", AM + "prime_counting.h", AM + "sums.h", AM + "counting.h"], [("sieving and Dirichlet hyperbola sums", AM + "divisor_sums.h")])
pure("N03", "Algebraic types satisfy the laws of their rings and fields",
     "Modular numbers, polynomials, power and Dirichlet series, matrices, fractions, quadratic extensions, nimbers, binary fields, permutations and wide integers satisfy the axioms of their structures, and division, inversion, composition and powers invert or iterate multiplication.",
     "all elements of the structures", [SM + "modulo.h", SM + "polynom.h", SM + "series.h", SM + "matrix.h", SM + "fraction.h", SM + "quadratic.h", SM + "nimber.h", SM + "permutation.h", X + "structure/math/double_int.h"], [("operators", SM + "polynom.h")])
pure("N04", "Transforms and convolutions equal their definitions",
     "Fast Fourier, number theoretic, Walsh, Karatsuba and subset convolutions equal the schoolbook convolution of the same operands, exactly for exact coefficient types and within rounding for floating point ones.",
     "all operands and sizes", [AM + "fft.h", AM + "convolutions.h", SM + "polynom.h"], [("transform and inverse", AM + "fft.h")])
pure("N05", "Graph algorithms return what their definitions require",
     "Shortest paths, spanning trees, flows, matchings, components, lowest common ancestors, heavy paths, 2-satisfiability, closures, topological orders and chromatic polynomials are correct and optimal for every graph.",
     "all graphs", [X + "algorithm/graph/dijkstra.h", X + "algorithm/graph/dinic_flow.h", X + "algorithm/graph/push_relabel_flow.h", X + "algorithm/graph/hungarian.h", X + "algorithm/graph/tarjan_scc.h", X + "algorithm/graph/chain_decomposition.h"], [("the algorithms themselves", X + "algorithm/graph/dinic_flow.h")])
pure("N06", "String indexes answer like a scan of the text",
     "Suffix arrays, prefix trees, pattern automata, palindrome trees, string hashes and pattern search give the same answers as comparing substrings character by character (hashes up to their collision probability).",
     "all texts and patterns", [X + "structure/container/suffix_array.h", X + "structure/container/aho_corasick_trie.h", X + "structure/container/palindrome_tree.h", INC + "algorithm/search/kmp_search.h", INC + "algorithm/hash/polynomial_hash.h"], [("the algorithms themselves", X + "structure/container/suffix_array.h")])
pure("N07", "Expressions evaluate as grammar and precedence say",
     "The expression parser accepts exactly the expressions of the configured grammar and evaluates operators with the configured precedence, associativity and arity.",
     "all expressions and operator tables", [INC + "algorithm/parser/shunting_yard.h"], [("operator stack", INC + "algorithm/parser/shunting_yard.h")])
pure("N08", "Searches and sequence utilities satisfy their postconditions",
     "Binary searches, grouping, filtering, run-length, sorting helpers and range enumerations return what their descriptions say for every sequence.",
     "all sequences", [INC + "algorithm/search/binary_search.h", INC + "algorithm/collections/collections.h", AM + "ranges.h", AM + "sequences.h"], [("the functions themselves", INC + "algorithm/collections/collections.h")])
pure("N09", "Geometric algebra products follow their multiplication tables",
     "Products, reversals, duals, joins, meets, exponentials and normalisations of geometric algebra elements agree with the full multivector product.",
     "all elements", [SM + "clifford3.h", SM + "pga.h", SM + "vector2d.h", SM + "vector3d.h"], [("operators", SM + "pga.h")])
pure("N10", "Enumerations of integer solutions are complete and free of repetition",
     "Solutions of Pell equations, Pythagorean and Eisenstein triples, representations as sums of squares, convergents and fractions in a range are all found, once each, in the documented order.",
     "all equations and bounds", [AM + "pell.h", AM + "triples.h", AM + "squares_r.h", AM + "convergents.h", AM + "fractions.h"], [("the enumerators", AM + "triples.h")])
pure("N11", "Combinatorial generators and counts are exact",
     "Binomials, multinomials, partitions, permutations and combinations in order, and counts modulo prime powers, equal their combinatorial definitions.",
     "all arguments", [AM + "combinatorics.h", AM + "comb_mod_pp.h", AM + "comb_primes.h", AM + "counting.h"], [("the functions themselves", AM + "combinatorics.h")])
pure("N12", "Bit manipulation helpers agree with bit-by-bit definitions",
     "Population counts, bit positions, reversal, interleaving, logarithms and power-of-two helpers agree with the definition written bit by bit for every value of every width.",
     "all values", [AM + "bits.h", AM + "intrinsic.h", "src/algorithm/math/bits.cpp"], [("the functions themselves", AM + "bits.h")])

def dump():
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
if __name__ == "__main__":
    dump()
