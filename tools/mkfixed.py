#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json: one line per fix commit in /repo (property ids by commit subject)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # subject fragment, property, what failed
("link-cut tree releases everything", "D06", "a node leaked when its allocation, construction or registration failed"),
("copies of a link-cut tree", "D06", "a copied tree shared its nodes with the original: changes showed through, use after free and double free"),
("copies of a bounded allocator", "D05", "a copied, moved or swapped allocator shared the block of the original: use after free and double free"),
("refuses a capacity whose size overflows", "D05", "a huge capacity overflowed the size computation and the small block was overrun"),
 ("binary_search_tree::clear releases", "D04", "clear() released only part of the tree and left nodes behind"),
 ("releases nodes when copying an element fails", "D03", "a node leaked when the element copy inside an insertion threw"),
 ("treap does not rotate above the root", "D01", "negative priorities rotated a node above the root sentinel: entries lost (also D02)"),
 ("LOCK does not run its body again", "C05", "break inside a LOCK block executed the block a second time"),
 ("range_job_provider does not overflow", "C01", "ranges near the limits of the type overflowed: jobs outside the range, or endless"),
 ("parallel_execute creates its workers one at a time", "C02", "the worker provider was called by several threads at once"),
 ("parallel_execute joins its threads", "C04", "a throwing job, provider, collector or thread start terminated the process"),
 ("number writers do not share a static", "C06", "two writers in two threads mixed the digits of their numbers"),
 ("sum_pow does not reuse Bernoulli", "D08", "sum_pow returned results computed with the Bernoulli numbers of an earlier call's ring"),
 ("nimber multiplication does not race", "C06", "first nimber products in two threads read a half-built table"),
 ("prime_pi_deprecated does not race", "C06", "first calls in two threads raced on the table"),
 ("polynomial hash power tables are kept per thread", "C06", "hashing in two threads raced on growing power tables"),
 ("polynomial hash tables stay consistent", "D09", "a failed extension of the power tables left one modulus shorter: later hashes wrong or out of bounds"),
 ("complex_root_wrapper keeps the tables", "D08", "growing the shared table of complex roots freed the one still in use (also C06)"),
 ("complex_root_wrapper(1) does not refer", "D08", "size 1 read past its only root"),
 ("copying constant series", "C06", "copies of constant series raced on a hidden static"),
 ("readers return bytes above 127", "I01", "byte 255 was taken for the end of the input, bytes above 127 came back negative (also I02, I03)"),
 ("raw data of buffered readers", "I01", "data() was not zero-terminated: formatted reads ran past the buffer"),
 ("fast_read does not skip past", "I01", "skip moved past the end of the buffer"),
 ("fast_write writes strings with zero", "I04", "strings with zero characters were cut short"),
 ("writers write the smallest integers", "I06", "the smallest integer of a type was written as garbage (also I04)"),
 ("writers carry when rounding", "I06", "rounding 0.9999999 wrote ten as one digit"),
 ("buffered_writer does not write its buffer twice", "I05", "after an exception of the sink the buffer was written again"),
 ("destroying a writer onto a throwing stream", "I05", "the destructor let the exception out: terminate"),
 ("token lists restore the skipws", "I07", "the skipws flag stayed cleared when the stream threw"),
 ("token lists do not contain stale", "I07", "a list of numbers ended with a stale or uninitialised value"),
 ("copies of mtrand are independent", "R01", "a copy of the generator kept drawing from the original's state"),
 ("mtrand rejects", "R02", "restoring a damaged state read and wrote outside the state array"),
 ("lazy_treap does not rotate", "D01", "negative priorities rotated a node above the root"),
("suffix array does not read past", "D07", "building a suffix array read past the end of the string"),
("copies of range-minimum tables", "D07", "a copied table read the array of the original: use after free"),
("bit vector that fails to grow", "D07", "the size grew although the storage did not: memory past the end"),
("sqrt_map that fails to grow", "D07", "the range grew although the table did not: memory past the end"),
("adding a letter to a palindrome tree", "D07", "a failed addition left half-linked nodes: wrong palindromes, endless loop"),
("failed build of an Aho-Corasick", "D07", "building again after a failed build gave wrong links"),
("copies of a prefix tree", "D07", "a copied tree shared its nodes with the original"),
("prefix trees stay consistent", "D07", "a failed insertion left nodes without their parents' links"),
("prime_pi_deprecated does not mix up keys", "D08", "32-bit arguments above 65536 collided in the hidden table: wrong counts, depending on earlier calls"),
("prime_holder table whose calculation failed", "D09", "a table whose calculation failed stayed all zero for ever"),
("prime_pi does not read past", "D08", "prime counts of a copied prime_holder read past the end of the list of primes"),
("leaves no entry in the caller's table", "D09", "a failed sum_m or sqfree_count left a default value in the caller's table: later results wrong"),
("keeps its order and coefficients in step", "D10", "after a failed assignment, sum or scaling a series had fewer coefficients than its order: shift, exp and reversion then read past its end"),
("rows of different lengths", "D10", "a failed assignment left a matrix with rows of different lengths: later operations read and wrote past them"),
("mix cycles of two permutations", "D10", "a failed assignment left a permutation with foreign or empty cycles: inverse and line then accessed memory out of bounds"),
("select duplicate edges twice", "D11", "bipartite_matching returned every copy of a duplicate edge that carries flow, so a node was matched twice"),
("moves the weight of a neighbour", "D11", "heavy_light_decomposition swapped only the nodes of two neighbours of the caller's graph, not the weights of their edges"),
("re-parent nodes already in the tree", "D11", "prim_spanning_tree re-parented nodes already in the tree: a circle of parents instead of a tree, with negative weights also for the root"),
("leave the costs negated", "D11", "a weight operation failed inside hungarian::calc_min_cost: the costs stayed negated, repeating it gave the wrong assignment"),
 ("pga subtraction from zero", "D13", "0 - x in plane-based geometric algebra returned a reference to a temporary: use after scope"),
 ("cl3 rotor and vector do not read", "D13", "a rotor from a scalar and a vector from three coordinates made their zeros from components they had moved from"),
 ("cl3 multivector of a rotor", "D13", "the odd part of a multivector made from a rotor lost the context (modulus) of its components"),
 ("negative of an infinite with_infinity", "D13", "minus infinity was a finite number"),
 ("zero parts of pga composites", "D13", "the zero bivectors of composite blades lost the context (modulus) of their components"),
 ("infinityT of floating point types", "D13", "Moebius maps over float, double and long double could not be applied: infinityT::is was not static"),
]
def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    kf = json.load(open(H + "/known_findings.json")); fixed = []
    extra = json.load(open(H + "/tools/fixed_extra.json")) if os.path.exists(H + "/tools/fixed_extra.json") else []
    for l in log:
        h, s = l.split(" ", 1)
        m = [x for x in MAP + extra if x[0] in s]
        if len(m) != 1: print("UNMAPPED", len(m), l); continue
        fixed.append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
    kf["fixed"] = fixed
    json.dump(kf, open(H + "/known_findings.json", "w"), indent=1); print(len(fixed), "fixed")
main()
