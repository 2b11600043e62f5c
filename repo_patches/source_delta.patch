From a93939226a958ec3201425809c371c6ac48dc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 01/57] fix: binary_search_tree::clear releases the whole tree

clear() freed only the root node: every other node leaked, and on an
empty tree the sentinel itself was destroyed and released.
---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From 75c9d756bb20fe8fd2b9156a1e4e5c8607e53355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 02/57] fix: binary_search_tree releases nodes when copying an
 element fails

A throwing element copy leaked the node being built, and a failure in
the middle of cloning a tree leaked everything cloned so far.
---
 .../structure/container/binary_search_tree.h   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index e5af415..22fe155 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -608,8 +608,15 @@ protected: // insert & erase
         if (src->is_nil()) return nil;
         auto ptr = _buy(src->val);
         ptr->parent = nil;
-        make_link(ptr, clone_subtree(src->left), true);
-        make_link(ptr, clone_subtree(src->right), false);
+        ptr->left = nil;
+        ptr->right = nil;
+        try {
+            make_link(ptr, clone_subtree(src->left), true);
+            make_link(ptr, clone_subtree(src->right), false);
+        } catch (...) {
+            _free_all(ptr);
+            throw;
+        }
         ptr->balance = src->balance;
         ptr->size = src->size;
         return ptr;
@@ -700,7 +707,12 @@ private: // allocation logic
 
     node_ptr _buy(const T& val) {
         node_ptr t = alloc.allocate(1);
-        alloc.construct(t, val);
+        try {
+            alloc.construct(t, val);
+        } catch (...) {
+            alloc.deallocate(t, 1);
+            throw;
+        }
         return t;
     }
 
-- 
2.43.0


From da43316267948058a0d4a2f76f94b5e6b2bd682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 03/57] fix: treap does not rotate above the root for negative
 priorities

The sentinel's balance is 0, so a node with a negative priority was
rotated around the sentinel, which corrupted the tree.
---
 include/altruct/structure/container/treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..fdffe8f 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -266,7 +266,7 @@ protected:
     typename bst_t::iterator retrace_up(typename bst_t::iterator it) {
         if (it == tree.end()) return it;
         it.balance() = rnd();
-        while (it.balance() < it.parent().balance()) {
+        while (it.parent() != tree.end() && it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
             } else {
-- 
2.43.0


From c2fc3a9012494b570dcff959e51dc1da8c3736e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 04/57] fix: LOCK does not run its body again after break

---
 include/altruct/concurrency/concurrency.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..260ec52 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -18,7 +18,7 @@ namespace concurrency {
  *   }
  */
 #define LOCK(_mutex) \
-    for (bool first = true; first;) \
+    for (bool first = true; first; first = false) \
         for (std::lock_guard<std::mutex> lock(_mutex); first; first = false)
             // { /* locked */  }
 
-- 
2.43.0


From 709e2b2b192d848030958445226d9dda0e5b467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 05/57] fix: range_job_provider does not overflow near the
 limits of its type

---
 include/altruct/concurrency/concurrency.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index 260ec52..e423e59 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -99,7 +99,12 @@ struct range_job_provider {
     I begin, end, len;
     range_job_provider(I begin, I end, I len) : begin(begin), end(end), len(len) {}
     bool has_next_job() { return begin < end; }
-    std::pair<I, I> next_job() { begin += len; return{ begin - len, std::min(begin, end) }; }
+    std::pair<I, I> next_job() {
+        I b = begin;
+        // `begin + len` is only evaluated when it can not overflow
+        begin = (b < 0 || end - b > len) ? std::min<I>(b + len, end) : end;
+        return{ b, begin };
+    }
 };
 
 
-- 
2.43.0


From 668ce022fad9a1fda35be8e6fbcc17cf9a79d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 06/57] fix: parallel_execute creates its workers one at a time

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index e423e59..b227984 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -51,10 +51,13 @@ namespace concurrency {
  */
 template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVIDER>
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
+    std::mutex worker_provider_mutex;
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From 75895b5da1adcf1521c4df9266c5dde683246773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 07/57] fix: parallel_execute joins its threads and rethrows
 when something fails

---
 include/altruct/concurrency/concurrency.h | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b227984..b8a62c7 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <exception>
 #include <thread>
 #include <mutex>
 #include <atomic>
@@ -48,19 +49,24 @@ namespace concurrency {
  *
  * Synchronization is taken care of in this method so none of the provided
  * objects need to worry about it. Thay do not have to be thread-safe.
+ *
+ * If any of the provided objects throws, or if a thread cannot be started,
+ * no further jobs are obtained, all the threads are joined and the first
+ * exception is rethrown to the caller.
  */
 template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVIDER>
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
     std::mutex worker_provider_mutex;
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
+    std::exception_ptr error; // guarded by `job_provider_mutex`
     auto func = [&]() {
         std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
         worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
-            if (!job_provider.has_next_job()) break;
+            if (error || !job_provider.has_next_job()) break;
             auto job = job_provider.next_job();
             job_provider_lock.unlock();
             auto job_result = worker.execute_job(job);
@@ -69,13 +75,25 @@ void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_prov
         }
     };
     if (num_threads > 1) {
+        auto set_error = [&]() {
+            std::lock_guard<std::mutex> job_provider_lock(job_provider_mutex);
+            if (!error) error = std::current_exception();
+        };
+        auto thread_func = [&]() {
+            try { func(); } catch (...) { set_error(); }
+        };
         std::vector<std::thread> t(num_threads);
-        for (int i = 0; i < num_threads; ++i) {
-            t[i] = std::thread(func);
+        try {
+            for (int i = 0; i < num_threads; ++i) {
+                t[i] = std::thread(thread_func);
+            }
+        } catch (...) {
+            set_error();
         }
         for (int i = 0; i < num_threads; ++i) {
-            t[i].join();
+            if (t[i].joinable()) t[i].join();
         }
+        if (error) std::rethrow_exception(error);
     } else {
         func();
     }
-- 
2.43.0


From 13e2eacd6b89f76a9f3fbdea971caa54b7699bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 08/57] fix: number writers do not share a static digit buffer

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/writer.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..f255de6 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -327,7 +327,7 @@ public:
     template<typename I>
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
             d = -d;
             write_char('-');
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..6148e37 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -245,7 +245,7 @@ public:
     template<typename I>
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
+        char tc[50];
         if (d < 0) {
             d = -d;
             write_char('-');
-- 
2.43.0


From 57bd74f602b9cc0cd2d4f0de7471ff4dab4b6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 09/57] fix: sum_pow does not reuse Bernoulli numbers of
 another ring

---
 include/altruct/algorithm/math/sums.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..8a459e1 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,12 +85,9 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    // `id` may belong to a different ring in each call (e.g. another modulus),
+    // so Bernoulli numbers must not be carried over between the calls.
+    return sum_pow(p, n, (p > 3) ? bernoulli_b<T>(p, id) : std::vector<T>{ id });
 }
 
 /**
-- 
2.43.0


From 54a30d3e82083483bd6df66bebee23a5ae79970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 10/57] fix: nimber multiplication does not race on its table

---
 include/altruct/structure/math/nimber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/nimber.h b/include/altruct/structure/math/nimber.h
index 44256a2..876b5ad 100644
--- a/include/altruct/structure/math/nimber.h
+++ b/include/altruct/structure/math/nimber.h
@@ -130,7 +130,7 @@ public:
 
     // Memoized multiplication of powers of 2. 2^m * 2^n.
     static U mul_pow2(int m, int n) {
-        static U tbl[64][64] = { { 0 } };
+        static thread_local U tbl[64][64] = { { 0 } };
         if (m >= 64 || n >= 64) return mul_pow2_impl(m, n);
         if (m < n) std::swap(m, n);
         return tbl[m][n] ? tbl[m][n] : tbl[m][n] = mul_pow2_impl(m, n);
-- 
2.43.0


From 0fba33722aff21cb5688220899be9b9eb491e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 11/57] fix: prime_pi_deprecated does not race on its tables

---
 include/altruct/algorithm/math/prime_pi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/prime_pi.h b/include/altruct/algorithm/math/prime_pi.h
index dacd1eb..f7e1d43 100644
--- a/include/altruct/algorithm/math/prime_pi.h
+++ b/include/altruct/algorithm/math/prime_pi.h
@@ -25,7 +25,7 @@ I prime_pi_PHI_key(I m, J n) {
 }
 template<typename I, typename J>
 std::unordered_map<I, I>& prime_pi_PHI_tbl() {
-    static std::unordered_map<I, I> tbl;
+    static thread_local std::unordered_map<I, I> tbl;
     return tbl;
 }
 template<typename I, typename J>
@@ -46,7 +46,7 @@ I prime_pi_P2(I m, J n, const J* pi, const int* p) {
 }
 template<typename I>
 std::unordered_map<I, I>& prime_pi_tbl() {
-    static std::unordered_map<I, I> tbl;
+    static thread_local std::unordered_map<I, I> tbl;
     return tbl;
 }
 template<typename I, typename J>
-- 
2.43.0


From 5bc1db48bf89452e40aed27475d40a8c123041c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 12/57] fix: polynomial hash power tables are kept per thread

---
 .../altruct/algorithm/hash/polynomial_hash.h   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..0af1bbd 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -16,8 +16,9 @@ class polynomial_hash1 {
     typedef int32_t I;
     typedef int64_t IT;
 public:
-    static std::vector<I> W;
-    static std::vector<I> WI;
+    // each thread has its own tables as they get extended on demand
+    static thread_local std::vector<I> W;
+    static thread_local std::vector<I> WI;
 
     static void _ensure(std::vector<I>& w, size_t sz, I b) {
         size_t i0 = w.size();
@@ -59,8 +60,8 @@ public:
 
     int32_t hash() const { return h; }
 };
-template<int32_t M, int32_t B, int32_t BI> std::vector<int32_t> polynomial_hash1<M, B, BI>::W;
-template<int32_t M, int32_t B, int32_t BI> std::vector<int32_t> polynomial_hash1<M, B, BI>::WI;
+template<int32_t M, int32_t B, int32_t BI> thread_local std::vector<int32_t> polynomial_hash1<M, B, BI>::W;
+template<int32_t M, int32_t B, int32_t BI> thread_local std::vector<int32_t> polynomial_hash1<M, B, BI>::WI;
 
 
 /**
@@ -75,8 +76,9 @@ public:
     static I B[K];  // bases
     static I BI[K]; // base inverses; B * BI == 1 (mod M)
 
-    static std::vector<I> W[K];
-    static std::vector<I> WI[K];
+    // each thread has its own tables as they get extended on demand
+    static thread_local std::vector<I> W[K];
+    static thread_local std::vector<I> WI[K];
 
     static I mul(I a, I b, I m) { return (I)((a * (IT)b) % m); }
     static I mul(I s, I a, I b, I m) { return (I)((s + a * (IT)b) % m); }
@@ -246,9 +248,9 @@ public:
 };
 
 template<size_t K, typename I, typename IT>
-std::vector<I> polynomial_hash<K, I, IT>::W[K];
+thread_local std::vector<I> polynomial_hash<K, I, IT>::W[K];
 template<size_t K, typename I, typename IT>
-std::vector<I> polynomial_hash<K, I, IT>::WI[K];
+thread_local std::vector<I> polynomial_hash<K, I, IT>::WI[K];
 
 /**
  * Cumulative hashes of a sequence (e.g. of a string).
-- 
2.43.0


From fca68ca39e89ae31756d8cf00ba8e4ea572c4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 13/57] fix: polynomial hash tables stay consistent when
 extending them fails

---
 include/altruct/algorithm/hash/polynomial_hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index 0af1bbd..97f2f04 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -32,8 +32,8 @@ public:
     static void ensure(size_t size) {
         if (W.size() >= size) return;
         size = std::max(size, W.size() + W.size() / 2);
-        _ensure(W, size, B);
         _ensure(WI, size, BI);
+        _ensure(W, size, B); // last, as `W` tells what is available
     }
 
 
@@ -98,9 +98,9 @@ public:
         size_t curr_size = W[0].size();
         if (curr_size >= size) return;
         size = std::max(size, curr_size + curr_size / 2);
-        for (int k = 0; k < K; k++) {
-            _ensure(W[k], size, B[k], M[k]);
+        for (int k = K - 1; k >= 0; k--) {
             _ensure(WI[k], size, BI[k], M[k]);
+            _ensure(W[k], size, B[k], M[k]); // `W[0]` last, as it tells what is available
         }
     }
 
-- 
2.43.0


From 006e8e14633bf8987854ffb17989b640d2cc2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 14/57] fix: complex_root_wrapper keeps the tables it handed
 out

---
 include/altruct/structure/math/root_wrapper.h | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index 1d818cf..f64c40f 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -4,6 +4,7 @@
 #include "altruct/structure/math/complex.h"
 
 #include <cmath>
+#include <mutex>
 #include <vector>
 
 namespace altruct {
@@ -46,17 +47,23 @@ template<typename F>
 root_wrapper<complex<F>> complex_root_wrapper(int l) {
     typedef complex<F> cplx;
     static const auto _2_PI = 2 * acos(F(-1));
-    static std::vector<cplx> roots{F(1)};
-    int size = (int)roots.size();
-    if (size < l) {
-        while (size < l) size *= 2;
-        roots.resize(size);
+    // One table per size: the returned wrappers refer to them,
+    // so once built, a table must neither change nor move.
+    static std::vector<cplx> roots[31];
+    static std::mutex roots_mutex;
+    int k = 0;
+    while ((1 << k) < l) k++;
+    int size = 1 << k;
+    std::lock_guard<std::mutex> lock(roots_mutex);
+    if (roots[k].empty()) {
+        std::vector<cplx> r(size);
         for (int i = 0; i < size; i++) {
             auto A = _2_PI * i / size;
-            roots[i] = cplx(cos(A), sin(A));
+            r[i] = cplx(cos(A), sin(A));
         }
+        roots[k].swap(r);
     }
-    return root_wrapper<cplx>(roots.data(), size, 1);
+    return root_wrapper<cplx>(roots[k].data(), size, 1);
 }
 
 } // math
-- 
2.43.0


From ad3d82f36b718398f51c8eaaa584c069a686137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 15/57] fix: complex_root_wrapper(1) does not refer past its
 only root

---
 include/altruct/structure/math/root_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/root_wrapper.h b/include/altruct/structure/math/root_wrapper.h
index f64c40f..247d7ba 100644
--- a/include/altruct/structure/math/root_wrapper.h
+++ b/include/altruct/structure/math/root_wrapper.h
@@ -63,7 +63,7 @@ root_wrapper<complex<F>> complex_root_wrapper(int l) {
         }
         roots[k].swap(r);
     }
-    return root_wrapper<cplx>(roots[k].data(), size, 1);
+    return root_wrapper<cplx>(roots[k].data(), size, 1 & (size - 1));
 }
 
 } // math
-- 
2.43.0


From 982f4dc613ed15067221f6cd5299fa630a8511a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 16/57] fix: copying constant series does not race on a hidden
 static

---
 include/altruct/structure/math/series.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..64dc2f7 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -36,7 +36,7 @@ template<typename T, int ID>
 struct series_members<T, ID, series_storage::CONSTANT> {
     series_members(int _N = 0) {}
     static int N() { return ID; }
-    static int& refN() { static int _N = 0; return _N; }
+    static int& refN() { static thread_local int _N = 0; return _N; }
 };
 
 /**
-- 
2.43.0


From 35880f4691bccf07c8ec684e291f3403a739b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 17/57] fix: readers return bytes above 127 as unsigned
 characters

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/reader.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index f255de6..524a9a3 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..06e9c7a 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From a9c170b1bb90b3546c75f8b220b6c93550d35576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 18/57] fix: raw data of buffered readers is always
 zero-terminated

---
 include/altruct/io/fast_io.h | 2 ++
 include/altruct/io/reader.h  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 524a9a3..8ab7bd1 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -38,6 +38,7 @@ public:
         buff = new char[capacity+1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
         cnt = 0;
     }
 
@@ -60,6 +61,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 06e9c7a..0754dc7 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -149,6 +149,7 @@ public:
         buff = new char[capacity + 1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
     }
 
     ~buffered_reader() {
-- 
2.43.0


From 1ffbc9753fdf79074d8b571396f23dff84d6e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 19/57] fix: fast_read does not skip past its buffer

---
 include/altruct/io/fast_io.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 8ab7bd1..e0e1e7c 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -100,7 +100,7 @@ public:
 
     // Skips `count` characters.
     void skip(size_t count) {
-        ptr += count;
+        ptr += std::min<size_t>(count, end - ptr);
     }
 
     // Unreads the last read character.
-- 
2.43.0


From 11bfe1694d60a65d5324babfa3b5a81c8c5619ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 20/57] fix: fast_write writes strings with zero characters
 entirely

---
 include/altruct/io/fast_io.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index e0e1e7c..e50ada1 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -323,7 +323,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0


From c74d13c809c2d8ca7d6238b8adbac874166a2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 21/57] fix: writers write the smallest integers

---
 include/altruct/io/fast_io.h | 10 ++++++----
 include/altruct/io/writer.h  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index e50ada1..804b3a0 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -333,12 +333,14 @@ public:
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
         char tc[50];
-        if (d < 0) {
-            d = -d;
+        bool neg = (d < 0);
+        if (neg) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            // `-d` may overflow for the smallest value
+            int r = int(d % 10);
+            tc[i] = (neg ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 6148e37..abb980b 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -246,12 +246,14 @@ public:
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
         char tc[50];
-        if (d < 0) {
-            d = -d;
+        bool neg = (d < 0);
+        if (neg) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            // `-d` may overflow for the smallest value
+            int r = int(d % 10);
+            tc[i] = (neg ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 687091d9a753af0463e6eb0ff5ee33589aedb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 22/57] fix: writers carry when rounding floating-point numbers

---
 include/altruct/io/fast_io.h | 12 +++++++++---
 include/altruct/io/writer.h  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 804b3a0..e39c2d2 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -355,20 +355,26 @@ public:
             f = -f;
             write_char('-');
         }
+        F r = pow(F(10), -precision) / 2; // round
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
+            f += r;
+            if (f >= 10) {
+                f /= 10;
+                g++;
+            }
         } else {
-            e = std::max(g, 0) + 1;
+            f += r;
+            e = std::max(exponent(f), 0) + 1;
         }
-        f += pow(F(10), -precision) / 2; // round
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = std::max(0, std::min((int)(f / w), 9));
             f -= w * d;
             write_char(d + '0');
         };
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index abb980b..f4fa1f5 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -268,20 +268,26 @@ public:
             f = -f;
             write_char('-');
         }
+        F r = pow(F(10), -precision) / 2; // round
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
+            f += r;
+            if (f >= 10) {
+                f /= 10;
+                g++;
+            }
         } else {
-            e = std::max(g, 0) + 1;
+            f += r;
+            e = std::max(exponent(f), 0) + 1;
         }
-        f += pow(F(10), -precision) / 2; // round
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
             }
             e--;
             F w = pow(F(10), e);
-            int d = (int)(f / w);
+            int d = std::max(0, std::min((int)(f / w), 9));
             f -= w * d;
             write_char(d + '0');
         };
-- 
2.43.0


From 89235e71a86da987fcb8ae71d3bd8e0f35697796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 23/57] fix: buffered_writer does not write its buffer twice
 when the sink throws

---
 include/altruct/io/writer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index f4fa1f5..c97611f 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -157,10 +157,13 @@ public:
 
     // Flushes the buffer and the underlying file.
     buffered_writer& flush() override {
-        out.write(buff, ptr - buff);
-        out.flush();
+        // empty the buffer first so that a failing `out`
+        // never gets the same characters again
+        size_t count = ptr - buff;
         ptr = buff;
+        out.write(buff, count);
         *ptr = 0;
+        out.flush();
         return *this;
     }
 
-- 
2.43.0


From 1385e79abc7fbff57b01418f5cde138b1eed490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 24/57] fix: destroying a writer onto a throwing stream does
 not terminate

---
 include/altruct/io/writer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index c97611f..a32f6a3 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -72,7 +72,8 @@ public:
     stream_writer(std::ostream& out) : out(out) {}
 
     ~stream_writer() {
-        flush();
+        // the stream keeps the error state
+        try { flush(); } catch (...) {}
     }
 
     stream_writer& write_char(int c) override {
@@ -151,7 +152,8 @@ public:
     }
 
     ~buffered_writer() {
-        flush();
+        // the underlying writer keeps the error state
+        try { flush(); } catch (...) {}
         delete[] buff;
     }
 
-- 
2.43.0


From 8f4507677fcacffcee5ed053aac326ffbcfeae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 25/57] fix: token lists restore the skipws flag when the
 stream throws

---
 include/altruct/io/stream_tokenizer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/stream_tokenizer.h b/include/altruct/io/stream_tokenizer.h
index 2bdd4e5..a3025d2 100644
--- a/include/altruct/io/stream_tokenizer.h
+++ b/include/altruct/io/stream_tokenizer.h
@@ -102,7 +102,12 @@ std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::tokens
         is >> t;
         ts.v.push_back(t);
         bool wasSkipWs = is.flags() & std::ios_base::skipws;
-        is >> std::noskipws >> d;
+        try {
+            is >> std::noskipws >> d;
+        } catch (...) {
+            if (wasSkipWs) is >> std::skipws;
+            throw;
+        }
         if (wasSkipWs) is >> std::skipws;
     }
     return is;
-- 
2.43.0


From 3c4b09a63513fba45ee2908e3955ec066c596968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 26/57] fix: token lists do not contain stale or uninitialised
 values

---
 include/altruct/io/stream_tokenizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/io/stream_tokenizer.h b/include/altruct/io/stream_tokenizer.h
index a3025d2..1fc23bf 100644
--- a/include/altruct/io/stream_tokenizer.h
+++ b/include/altruct/io/stream_tokenizer.h
@@ -96,9 +96,9 @@ std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::token<
 
 template<typename T, typename D>
 std::istream& operator>>(std::istream& is, altruct::io::stream_tokenizer::tokens<T, D>& ts) {
-    T t; D d;
     ts.v.clear();
     while (is) {
+        T t{}; D d{};
         is >> t;
         ts.v.push_back(t);
         bool wasSkipWs = is.flags() & std::ios_base::skipws;
-- 
2.43.0


From a26799326c897204dc533421191b69387b8d3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 27/57] fix: copies of mtrand are independent of the generator
 they were made from

---
 include/altruct/algorithm/random/mersenne_twister.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..ed672e6 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -94,6 +94,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs);  // continue the sequence of rhs independently
+    mtrand& operator = (const mtrand& rhs);
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -157,6 +159,17 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand::mtrand(const mtrand& rhs) {
+    *this = rhs;
+}
+
+inline mtrand& mtrand::operator = (const mtrand& rhs) {
+    for (int i = 0; i < N; ++i) state[i] = rhs.state[i];
+    left = rhs.left;
+    pNext = state + (rhs.pNext - rhs.state);
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
-- 
2.43.0


From 154c5eece23a9aff7a71024c0f6333b252f498ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 28/57] fix: mtrand rejects damaged saved states

---
 .../altruct/algorithm/random/mersenne_twister.h  | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index ed672e6..ec98523 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -356,7 +356,7 @@ inline void mtrand::load(uint32 *const loadArray) {
     uint32 *la = loadArray;
     int i = N;
     for (; i--; *s++ = *la++) {}
-    left = *la;
+    left = (*la <= N) ? int(*la) : 0;  // a damaged position starts a new block
     pNext = &state[N - left];
 }
 
@@ -368,11 +368,15 @@ inline std::ostream& operator<<(std::ostream& os, const mtrand& rng) {
 }
 
 inline std::istream& operator>>(std::istream& is, mtrand& rng) {
-    mtrand::uint32 *s = rng.state;
-    int i = rng.N;
-    for (; i--; is >> *s++) {}
-    is >> rng.left;
-    rng.pNext = &rng.state[rng.N - rng.left];
+    mtrand::uint32 a[mtrand::SAVE];
+    for (int i = 0; i < mtrand::SAVE; i++) {
+        if (!(is >> a[i])) return is;
+    }
+    if (a[mtrand::N] > mtrand::N) {
+        is.setstate(std::ios::failbit);
+        return is;
+    }
+    rng.load(a);
     return is;
 }
 
-- 
2.43.0


From 09e4697c348d67387dc4fdc6b759c61ab16a7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 29/57] fix: copies of a bounded allocator do not share and
 free its memory twice

---
 .../container/bounded_contiguous_allocator.h  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..470e459 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdlib>
 #include <memory>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -35,6 +37,27 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        swap(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        if (this == &allocator) return *this;
+        clear();
+        available_ = capacity_ = allocator.capacity();
+        return *this;
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        swap(allocator);
+        return *this;
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
@@ -47,6 +70,13 @@ struct bounded_contiguous_allocator {
         return *this;
     }
 
+    void swap(bounded_contiguous_allocator& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+    }
+
     void clear() {
         std::free(ptrs_); ptrs_ = nullptr;
         std::free(data_); data_ = nullptr;
-- 
2.43.0


From e5731354817f3d2973748e7f8d3d4f93def7de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:50 +0000
Subject: [PATCH 30/57] fix: a bounded allocator refuses a capacity whose size
 overflows

---
 .../altruct/structure/container/bounded_contiguous_allocator.h   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 470e459..6731d12 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -84,6 +84,7 @@ struct bounded_contiguous_allocator {
 
     bool ensure() {
         if (ptrs_) return true;
+        if (capacity_ > size_t(-1) / sizeof(T) || capacity_ > size_t(-1) / sizeof(T*)) return false;
         if (!data_) data_ = static_cast<T*>(std::malloc(capacity_ * sizeof(T)));
         if (!data_) return false;
         if (!ptrs_) ptrs_ = static_cast<T**>(std::malloc(capacity_ * sizeof(T*)));
-- 
2.43.0


From fcf4c7a2077aaf2baa15f6613b63db9c8f4c34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 31/57] fix: a link-cut tree releases everything when creating
 a node fails

---
 .../structure/container/link_cut_tree.h       | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/altruct/structure/container/link_cut_tree.h b/include/altruct/structure/container/link_cut_tree.h
index 941024e..6af462a 100644
--- a/include/altruct/structure/container/link_cut_tree.h
+++ b/include/altruct/structure/container/link_cut_tree.h
@@ -256,14 +256,12 @@ private:
 
 private:
     void _init(const T& id) {
-        nil = alloc.allocate(1);
-        alloc.construct(nil, id);
+        nil = _new(id);
         nil->parent = nil;
         nil->left = nil;
         nil->right = nil;
         nil->size = 0;
         nil->index = 0;
-        nodes.push_back(nil);
     }
 
     void _destroy() {
@@ -275,17 +273,29 @@ private:
     }
 
     node_ptr _buy(const T& val) {
-        node_ptr t = alloc.allocate(1);
-        alloc.construct(t, val);
+        node_ptr t = _new(val);
         t->parent = nil;
         t->left = nil;
         t->right = nil;
         t->size = 1;
-        t->index = (int)nodes.size();
-        nodes.push_back(t);
+        t->index = (int)nodes.size() - 1;
         return t;
     }
 
+    node_ptr _new(const T& val) {
+        nodes.push_back(nullptr);
+        node_ptr t = nullptr;
+        try {
+            t = alloc.allocate(1);
+            alloc.construct(t, val);
+        } catch (...) {
+            if (t) alloc.deallocate(t, 1);
+            nodes.pop_back();
+            throw;
+        }
+        return nodes.back() = t;
+    }
+
     void _free(node_ptr t) {
         alloc.destroy(t);
         alloc.deallocate(t, 1);
-- 
2.43.0


From a99100236013d7caab6352fc54d94573285791bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 32/57] fix: copies of a link-cut tree do not share its nodes

---
 .../structure/container/link_cut_tree.h       | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/altruct/structure/container/link_cut_tree.h b/include/altruct/structure/container/link_cut_tree.h
index 6af462a..86698aa 100644
--- a/include/altruct/structure/container/link_cut_tree.h
+++ b/include/altruct/structure/container/link_cut_tree.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <functional>
+#include <memory>
+#include <utility>
 #include <vector>
 
 namespace altruct {
@@ -88,6 +90,31 @@ public: // constructor / destructor
         for (auto it = begin; it != end; ++it) make_tree(*it);
     }
 
+    link_cut_tree(link_cut_tree&& rhs)
+        : f_up(std::move(rhs.f_up)), alloc(std::move(rhs.alloc)), nil(rhs.nil), nodes(std::move(rhs.nodes)) {
+        rhs.nil = nullptr;
+        rhs.nodes.clear();
+    }
+
+    link_cut_tree(const link_cut_tree& rhs)
+        : link_cut_tree(rhs.f_up, rhs.nil->val, rhs.alloc) {
+        for (size_t i = 1; i < rhs.nodes.size(); i++) make_tree(rhs.nodes[i]->val);
+        for (size_t i = 1; i < rhs.nodes.size(); i++) {
+            nodes[i]->parent = nodes[rhs.nodes[i]->parent->index];
+            nodes[i]->left = nodes[rhs.nodes[i]->left->index];
+            nodes[i]->right = nodes[rhs.nodes[i]->right->index];
+            nodes[i]->size = rhs.nodes[i]->size;
+        }
+    }
+
+    link_cut_tree& operator=(link_cut_tree rhs) {
+        std::swap(f_up, rhs.f_up);
+        std::swap(alloc, rhs.alloc);
+        std::swap(nil, rhs.nil);
+        std::swap(nodes, rhs.nodes);
+        return *this;
+    }
+
 public: // index based methods
     // Returns the number of nodes.
     // Node indices are 1-based, 0 corresponds to nil.
-- 
2.43.0


From f9b53fad0b6d6af5c690dfdee16bb10e0092f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 33/57] fix: building a suffix array does not read past the
 string

---
 experimental/include/altruct/structure/container/suffix_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..0852f80 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From ec45e6c92ca0278b21fcb4d724412a6e594cc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 34/57] fix: copies of range-minimum tables do not refer to the
 original

---
 .../structure/container/range_minimum_query.h  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/experimental/include/altruct/structure/container/range_minimum_query.h b/experimental/include/altruct/structure/container/range_minimum_query.h
index 15abb68..0f279d9 100644
--- a/experimental/include/altruct/structure/container/range_minimum_query.h
+++ b/experimental/include/altruct/structure/container/range_minimum_query.h
@@ -69,19 +69,19 @@ public:
     index_t get_index(index_t begin, index_t end) const {
         index_t l = begin, r = end - 1;
         index_t x = l / BLOCK_SIZE, y = r / BLOCK_SIZE, z = y - x;
-        if (z == 0) return x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
+        if (z == 0) return x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
         if (z == 1) return min_index(
-            x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
-            y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]);
+            x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+            y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]);
         int k = log2_32(z - 2);
         return min_index(
             min_index(
-                x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+                x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
                 _sparse_table[x + 1 + blocks * k]
             ),
             min_index(
                 _sparse_table[y + blocks * k - (1 << k)],
-                y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]
+                y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]
             ));
     }
 
@@ -94,7 +94,7 @@ private:
     index_t blocks;
     std::vector<value_t> _array;
     std::vector<tree_t> _trees;
-    std::vector<tree_t*> _block_tree;
+    std::vector<index_t> _block_tree; // index into `_trees`, so that copies do not refer to the original
     std::vector<index_t> _sparse_table;
     int _ballot[BLOCK_SIZE + 1][BLOCK_SIZE + 1];
 
@@ -116,9 +116,9 @@ private:
                 }
                 rp[q + j - BLOCK_SIZE + 1] = p[j];
             }
-            _block_tree[i] = &_trees[N];
+            _block_tree[i] = N;
             // populate tree
-            tree_t* table = _block_tree[i];
+            tree_t* table = &_trees[N];
             if (table->idx[0][0] != -1) continue;
             for (int left = 0; left < BLOCK_SIZE; left++) {
                 int min_idx = left;
@@ -138,7 +138,7 @@ private:
         if (height == 0) return;
         index_t *b = _sparse_table.data();
         for (index_t i = 0; i < blocks; i++) {
-            b[i] = i * BLOCK_SIZE + _block_tree[i]->idx[0][BLOCK_SIZE - 1];
+            b[i] = i * BLOCK_SIZE + _trees[_block_tree[i]].idx[0][BLOCK_SIZE - 1];
         }
         for (index_t t = 1; t * 2 < blocks; t *= 2) {
             std::copy(b, b + blocks, b + blocks);
-- 
2.43.0


From a1d4ec6d6a0c945204062eb1ad19856065dd2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 35/57] fix: a bit vector that fails to grow keeps its size

---
 include/altruct/structure/container/bit_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..d83a8c3 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -317,8 +317,8 @@ public:
 
     // resizes the container to the new size
     void resize(size_t new_size) {
+        words.resize(num_words(new_size) + 1);
         sz = new_size;
-        words.resize(num_words(sz) + 1);
         words[sz / L] &= first_bits(sz % L);
         words.back() = W0;
     }
-- 
2.43.0


From 0d6bb425a19d85a42306860ed272fbcf72fde167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 36/57] fix: a sqrt_map that fails to grow keeps its range

---
 include/altruct/structure/container/sqrt_map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..8e9697e 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -58,9 +58,11 @@ public:
     }
 
     void reset_max(I max_key = 0) {
+        size_t hi_size = max_key / max_lo_key + 1;
+        cnt_hi.reserve(hi_size);
+        tbl_hi.resize(hi_size);
+        cnt_hi.assign(hi_size, 0);
         this->max_key = max_key;
-        cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
     }
 
     int count(const I& k) const {
-- 
2.43.0


From 810770982d7045f83c23ac7aede06f09b6a2e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 37/57] fix: adding a letter to a palindrome tree fails without
 side effects

---
 .../include/altruct/structure/container/palindrome_tree.h       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimental/include/altruct/structure/container/palindrome_tree.h b/experimental/include/altruct/structure/container/palindrome_tree.h
index 8dea23a..c27b050 100644
--- a/experimental/include/altruct/structure/container/palindrome_tree.h
+++ b/experimental/include/altruct/structure/container/palindrome_tree.h
@@ -79,6 +79,8 @@ public:
     }
 
     index_t add(alpha_t let) {
+        collections::reserve_more(_string, 1);
+        collections::reserve_more(_nodes, 1);
         _string.push_back(let);
         index_t i = _find_suffix(_suff, let);
         _suff = _nodes[i].next[let];
-- 
2.43.0


From 68c50e57db39e0936eaca2449fa7f2f1d60e337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 38/57] fix: a failed build of an Aho-Corasick automaton can be
 repeated

---
 .../altruct/structure/container/aho_corasick_trie.h  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experimental/include/altruct/structure/container/aho_corasick_trie.h b/experimental/include/altruct/structure/container/aho_corasick_trie.h
index afe823e..53a9233 100644
--- a/experimental/include/altruct/structure/container/aho_corasick_trie.h
+++ b/experimental/include/altruct/structure/container/aho_corasick_trie.h
@@ -2,7 +2,6 @@
 
 #include "altruct/algorithm/collections/collections.h"
 
-#include <queue>
 #include <vector>
 #include <iterator>
 #include <functional>
@@ -79,13 +78,14 @@ public:
 
     // Postprocesses the trie dictionary with the Aho-Corasick algorithm.
     void build() {
-        std::queue<index_t> q;
-        q.push((index_t)ROOT);
-        while (!q.empty()) {
-            index_t cur_node = q.front(); q.pop();
+        std::vector<index_t> q;
+        q.reserve(trie.size()); // no allocation may fail once the links are being set
+        q.push_back((index_t)ROOT);
+        for (size_t i = 0; i < q.size(); i++) {
+            index_t cur_node = q[i];
             index_t* next = trie[cur_node].next;
             for (alpha_t let = 0; let < ALPHABET_SIZE; let++) {
-                if (next[let]) q.push(next[let]);
+                if (next[let]) q.push_back(next[let]);
             }
             index_t suff_link = _get_suff_link(cur_node);
             trie[cur_node].suff_link = suff_link;
-- 
2.43.0


From 576951720a114088967821dcd4d793faff75d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 39/57] fix: copies of a prefix tree do not share its nodes

---
 .../altruct/structure/container/prefix_tree.h | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index bd748a3..43d26f0 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -52,6 +52,24 @@ public:
         _init();
     }
 
+    prefix_tree(const prefix_tree& rhs) : nodes(0), root(nullptr) {
+        words.resize(rhs.words.size());
+        try {
+            _copy(root, nullptr, rhs.root);
+        } catch (...) {
+            _free_all(root);
+            throw;
+        }
+    }
+
+    prefix_tree& operator=(const prefix_tree& rhs) {
+        prefix_tree tmp(rhs);
+        std::swap(nodes, tmp.nodes);
+        std::swap(root, tmp.root);
+        words.swap(tmp.words);
+        return *this;
+    }
+
     ~prefix_tree() {
         words.clear();
         _free_all(root);
@@ -207,6 +225,20 @@ private:
         }
     }
 
+    // Copies the subtree `src` to the link `dst`, the copied words get the same ids.
+    void _copy(node_t*& dst, node_t* parent, const node_t* src) {
+        node_t* t = _buy();
+        t->word_id = src->word_id;
+        t->num_ch = src->num_ch;
+        t->ord = src->ord;
+        t->parent = parent;
+        dst = t;
+        if (parent == nullptr || t->word_id != 0) words[t->word_id] = t;
+        for (int o = 0; o < ALPHABET_SIZE; o++) {
+            if (src->next[o] != nullptr) _copy(t->next[o], t, src->next[o]);
+        }
+    }
+
     void _init() {
         root = _buy();
         words.push_back(root);
-- 
2.43.0


From a222588856d3cc88441b7841c71e5384dbe3d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 40/57] fix: prefix trees stay consistent when an allocation
 fails

---
 .../altruct/structure/container/prefix_tree.h     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/experimental/include/altruct/structure/container/prefix_tree.h b/experimental/include/altruct/structure/container/prefix_tree.h
index 43d26f0..68a7c73 100644
--- a/experimental/include/altruct/structure/container/prefix_tree.h
+++ b/experimental/include/altruct/structure/container/prefix_tree.h
@@ -76,9 +76,12 @@ public:
     }
 
     void clear() {
-        words.clear();
-        _free_all(root);
-        _init();
+        words.resize(1); // only the root remains
+        for (int o = 0; o < ALPHABET_SIZE; o++) {
+            _free_all(root->next[o]);
+            root->next[o] = nullptr;
+        }
+        root->num_ch = 0;
     }
 
     // Returns the 1-based index of the newly inserted word.
@@ -191,8 +194,8 @@ private:
             t = t->next[o];
         }
         if (t != root && !t->word_id) {
-            t->word_id = (index_t)words.size();
             words.push_back(t);
+            t->word_id = (index_t)words.size() - 1;
         }
         return t;
     }
@@ -240,8 +243,8 @@ private:
     }
 
     void _init() {
-        root = _buy();
-        words.push_back(root);
+        words.resize(1);
+        words[0] = root = _buy();
     }
 
     node_t* _buy() {
-- 
2.43.0


From c2dcc5967a01b4ccf5286e0e172390ef98570af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 41/57] fix: prime_pi_deprecated does not mix up keys of 32-bit
 arguments

---
 include/altruct/algorithm/math/prime_pi.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/prime_pi.h b/include/altruct/algorithm/math/prime_pi.h
index f7e1d43..f66a68f 100644
--- a/include/altruct/algorithm/math/prime_pi.h
+++ b/include/altruct/algorithm/math/prime_pi.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "base.h"
+#include <stdint.h>
 #include <unordered_map>
 
 namespace altruct {
@@ -18,14 +19,14 @@ namespace math {
  *               this is because this implementation requires too much memory
  */
 template<typename I, typename J>
-I prime_pi_PHI_key(I m, J n) {
-    // this works for I=i64, m < 2^48 (10^14), n < 2^16
-    // this works for I=i32, m < 2^24 (10^7), n < 2^8
-    return (m << 16) + n;
+int64_t prime_pi_PHI_key(I m, J n) {
+    // this works for m < 2^47 (10^14), n < 2^16
+    // the key is always 64-bit, as `m` alone may take up all the bits of a narrower I
+    return (int64_t(m) << 16) + n;
 }
 template<typename I, typename J>
-std::unordered_map<I, I>& prime_pi_PHI_tbl() {
-    static thread_local std::unordered_map<I, I> tbl;
+std::unordered_map<int64_t, I>& prime_pi_PHI_tbl() {
+    static thread_local std::unordered_map<int64_t, I> tbl;
     return tbl;
 }
 template<typename I, typename J>
-- 
2.43.0


From 3e3c527b056e94cd36f6ce804c86c50fb315cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 42/57] fix: a prime_holder table whose calculation failed is
 calculated again

---
 include/altruct/structure/math/prime_holder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/prime_holder.h b/include/altruct/structure/math/prime_holder.h
index 3f02e62..ac6b4ff 100644
--- a/include/altruct/structure/math/prime_holder.h
+++ b/include/altruct/structure/math/prime_holder.h
@@ -74,8 +74,9 @@ inline void prime_holder::ensure_pq() {
 
 inline std::vector<int>& prime_holder::ensure(std::vector<int> &v, void(*f)(int*, int, const int*, int)) {
     if (v.empty()) {
-        v.resize(sz);
-        f(v.data(), sz, p().data(), primes());
+        std::vector<int> t(sz);
+        f(t.data(), sz, p().data(), primes());
+        v.swap(t); // only once calculated, as an empty table tells that it isn't
     }
     return v;
 }
-- 
2.43.0


From 38f60b9433593c5f73ad97f7efd31a556c49fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:54 +0000
Subject: [PATCH 43/57] fix: prime_pi does not read past the last prime

---
 src/algorithm/math/primes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..d479f38 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -34,7 +34,7 @@ int primes(int *p, char *q, int n) {
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From e530f8cdf6bc8b0b4d20a45cacca81743ee04180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:54 +0000
Subject: [PATCH 44/57] fix: a failed calculation leaves no entry in the
 caller's table

---
 include/altruct/algorithm/math/divisor_sums.h | 8 +++++---
 include/altruct/algorithm/math/squares_r.h    | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..dc755a9 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "altruct/algorithm/math/base.h"
@@ -573,7 +574,8 @@ T sum_m(F1 t, F2 s, I n, TBL& tbl, T id) {
     for (I m = 1; m < q; m++) {
         r -= castOf(e0, s(n / m) - s(n / (m + 1))) * sum_m<T>(t, s, m, tbl, id);
     }
-    return tbl[n] = r / p1;
+    r /= p1;
+    return tbl[n] = std::move(r); // nothing may fail once `tbl[n]` exists
 }
 
 /**
@@ -602,7 +604,7 @@ T sum_m(F t, I n, TBL& tbl, T id) {
     for (I m = 1; m < q; m++) {
         r -= sum_m<T>(t, m, tbl, id) * castOf(e0, (n / m) - (n / (m + 1)));
     }
-    return tbl[n] = r;
+    return tbl[n] = std::move(r); // nothing may fail once `tbl[n]` exists
 }
 
 /**
@@ -656,7 +658,7 @@ T sqfree_count(I n, TBL& tbl, T id) {
     for (I k = sqrtT(n / q); k > 1; k--) {
         r -= sqfree_count(n / sqT(k), tbl, id);
     }
-    return tbl[n] = r;
+    return tbl[n] = std::move(r); // nothing may fail once `tbl[n]` exists
 }
 
 /**
diff --git a/include/altruct/algorithm/math/squares_r.h b/include/altruct/algorithm/math/squares_r.h
index 8971525..9f1ee0a 100644
--- a/include/altruct/algorithm/math/squares_r.h
+++ b/include/altruct/algorithm/math/squares_r.h
@@ -90,7 +90,8 @@ std::vector<std::pair<I, I>> squares_r_list(const std::vector<std::pair<P, int>>
         I p = f.first; int e = f.second;
         if (p % 4 == 1) {
             auto it = tbl.find(p);
-            auto cd = (it != tbl.end()) ? it->second : (tbl[p] = squares_r_prime(p));
+            auto cd = (it != tbl.end()) ? it->second : squares_r_prime(p);
+            if (it == tbl.end()) tbl.insert({ p, cd });
             auto c = cd.first, d = cd.second;
             while (e-- > 0) {
                 std::set<std::pair<I, I>> s;
-- 
2.43.0


From 269cd0ceeba094cb0be32ff2e04bac541274503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 45/57] fix: a failed operation on a series keeps its order and
 coefficients in step

---
 include/altruct/structure/math/series.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 64dc2f7..ce07e01 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -71,11 +71,11 @@ public:
     template<typename It> series(It begin, It end) : my_series_members((int)std::distance(begin, end)), p(begin, end) { p.resize(this->N()); }
     series(std::initializer_list<T> list) : my_series_members((int)list.size()), p(list) { p.resize(this->N()); }
     series& operator = (series&& rhs) { this->refN() = rhs.N(), this->p = std::move(rhs.p); return *this; }
-    series& operator = (const series& rhs) { this->refN() = rhs.N(), this->p = rhs.p; return *this; }
+    series& operator = (const series& rhs) { series t(rhs); return swap(t); }
 
     series& swap(series& rhs) { p.swap(rhs.p); std::swap(this->refN(), rhs.refN()); return *this; }
 
-    series& resize(int _N) { this->refN() = _N; p.resize(_N); return *this; }
+    series& resize(int _N) { p.resize(_N); this->refN() = _N; return *this; }
     int size() const { return this->N(); }
     const T& at(int index) const { return p.at(index); }
     const T& operator [] (int index) const { return p[index]; }
@@ -97,13 +97,13 @@ public:
     series  operator *  (const T &val) const { series t(*this); t *= val; return t; }
     series  operator /  (const T &val) const { series t(*this); t /= val; return t; }
 
-    series& operator += (const series &rhs) { p += rhs.p; p.resize(this->N()); return *this; }
-    series& operator -= (const series &rhs) { p -= rhs.p; p.resize(this->N()); return *this; }
+    series& operator += (const series &rhs) { return set(p + rhs.p); }
+    series& operator -= (const series &rhs) { return set(p - rhs.p); }
     series& operator *= (const series& rhs) { polynom<T>::mul(p, p, rhs.p, this->N() - 1); return *this; }
     series& operator /= (const series& rhs) { return *this *= rhs.inverse(); }
 
-    series& operator *= (const T &val) { p *= val; p.resize(this->N()); return *this; }
-    series& operator /= (const T &val) { p /= val; p.resize(this->N()); return *this; }
+    series& operator *= (const T &val) { return set(p * val); }
+    series& operator /= (const T &val) { return set(p / val); }
 
     series operator () (const series& rhs) const { return composition(rhs); }
 
@@ -405,6 +405,14 @@ public:
         }
         return series(std::move(R.p), N);
     }
+
+private:
+    // replaces the coefficients; if that fails, the series remains as it was
+    series& set(polynom<T> t) {
+        t.resize(this->N());
+        p.swap(t);
+        return *this;
+    }
 };
 
 template<typename T>
-- 
2.43.0


From c8f37a440257d858043cc9fe54af90c4970749a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 46/57] fix: a failed matrix assignment does not leave rows of
 different lengths

---
 include/altruct/structure/math/matrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..4aee77f 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -30,6 +30,11 @@ public:
 
     matrix(std::initializer_list<row_type> list) : a(list) {}
 
+    matrix(const matrix& rhs) = default;
+    matrix(matrix&& rhs) = default;
+    matrix& operator = (const matrix& rhs) { matrix t(rhs); return swap(t); }
+    matrix& operator = (matrix&& rhs) = default;
+
     matrix(const matrix& rhs, int i, int j, int n = 0, int m = 0) {
         if (!n) n = rhs.rows() - i;
         if (!m) m = rhs.cols() - j;
-- 
2.43.0


From 6358c11a5d69887efe09104ba9167c261c2c5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 47/57] fix: a failed permutation assignment does not mix
 cycles of two permutations

---
 include/altruct/structure/math/permutation.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..ea183ce 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -39,6 +39,11 @@ public:
     // from transpositions
     permutation(const transpositions_t& transpositions, I n) : permutation(transpositions_to_line(transpositions, n)) {}
 
+    permutation(const permutation& rhs) = default;
+    permutation(permutation&& rhs) = default;
+    permutation& operator = (const permutation& rhs) { permutation t(rhs); return *this = std::move(t); }
+    permutation& operator = (permutation&& rhs) = default;
+
     // to cycles notation
     cycles_t to_cycles() const { return cycles; }
     // to cycles including 1-cycles
-- 
2.43.0


From 0fec9cb2e623dbc943f8c915ca4710cae0d2b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 48/57] fix: bipartite_matching does not select duplicate edges
 twice

---
 .../include/altruct/algorithm/graph/bipartite_matching.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..094da7b 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,9 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (!d.flow[e.u][e.v]) continue;
+        selected.push_back(e);
+        d.flow[e.u][e.v] = 0; // don't select a duplicate of the same edge
     }
     return selected;
 }
-- 
2.43.0


From 657956757db47f30ee2f0ec2d5d855b55ccf92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 49/57] fix: heavy_light_decomposition moves the weight of a
 neighbour with it

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From b1ade65312ebc70a3635a9ffd28c406bd77c992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 50/57] fix: prim_spanning_tree does not re-parent nodes
 already in the tree

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..50b1ac6 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -23,15 +23,17 @@ namespace graph {
 template<typename E, typename W>
 std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
+    std::vector<char> done(g.size()); // nodes that are already in the tree
     res[root] = { root, 0 };
     std::set<std::pair<W, int>> q{ { 0, root } };
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        done[u] = 1;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (d_new < res[v].w && !done[v]) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From 9f19f0fb324d37a06ab939eb30627f42547e4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:08 +0000
Subject: [PATCH 51/57] fix: a failed hungarian::calc_min_cost does not leave
 the costs negated

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..6fd7e88 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -45,9 +45,12 @@ public:
     }
 
     I calc_min_cost() {
-        negate_cost();
-        I ret = -calc_max_cost();
-        negate_cost();
+        // works on a copy so that the costs are left intact if the calculation fails
+        hungarian h(*this);
+        h.negate_cost();
+        I ret = -h.calc_max_cost();
+        xy.swap(h.xy);
+        yx.swap(h.yx);
         return ret;
     }
 
-- 
2.43.0


From 6c95d8a2d7e50a1ef34a9926f7c2d8956fc1cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 52/57] fix: pga subtraction from zero does not return a
 reference to a temporary

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..9e75971 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From 28b8e3f7c6161addc5dea51488f2e4a146e9e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 53/57] fix: cl3 rotor and vector do not read a component they
 have moved from

---
 include/altruct/structure/math/clifford3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..44dffed 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -24,7 +24,7 @@ public:
     T yz, zx, xy; // bivectors
 
     rotor() : s(1), yz(0), zx(0), xy(0) {}
-    rotor(T s) : s(std::move(s)), yz(zeroOf(s)), zx(zeroOf(s)), xy(zeroOf(s)) {}
+    rotor(T s) : s(std::move(s)), yz(zeroOf(this->s)), zx(zeroOf(this->s)), xy(zeroOf(this->s)) {}
     rotor(T s, T yz, T zx, T xy) : s(std::move(s)), yz(std::move(yz)), zx(std::move(zx)), xy(std::move(xy)) {}
 
     bool operator == (const rotor& r) const { return (s == r.s) && (yz == r.yz) && (zx == r.zx) && (xy == r.xy); }
@@ -120,7 +120,7 @@ public:
     T w;       // trivector (volume)
 
     vector() : x(0), y(0), z(0), w(0) {}
-    vector(T x, T y, T z) : x(std::move(x)), y(std::move(y)), z(std::move(z)), w(zeroOf(z)) {}
+    vector(T x, T y, T z) : x(std::move(x)), y(std::move(y)), z(std::move(z)), w(zeroOf(this->z)) {}
     vector(T x, T y, T z, T w) : x(std::move(x)), y(std::move(y)), z(std::move(z)), w(std::move(w)) {}
 
     bool operator == (const vector& v) const { return (x == v.x) && (y == v.y) && (z == v.z) && (w == v.w); }
-- 
2.43.0


From 4b4e26c76b038c5a3a4fb1afcf322cf2cd2718f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 54/57] fix: cl3 multivector of a rotor keeps the context of
 its components

---
 include/altruct/structure/math/clifford3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 44dffed..5667c2e 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -251,7 +251,7 @@ public:
     vector<T> v;  // odd part
 
     multivector() {}
-    multivector(rotor<T> r) : r(std::move(r)) {}
+    multivector(rotor<T> r) : r(std::move(r)), v(zeroOf(this->r.s), zeroOf(this->r.s), zeroOf(this->r.s)) {}
     multivector(vector<T> v) : r(zeroOf(v.w)), v(std::move(v)) {}
     multivector(rotor<T> r, vector<T> v) : r(std::move(r)), v(std::move(v)) {}
 
-- 
2.43.0


From e679c3aa00085ac1b7883f450a67a06d1c53950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:55 +0000
Subject: [PATCH 55/57] fix: the negative of an infinite with_infinity is
 infinite

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From f6948b0e5a1ff6d662e75002efe48c177ec2af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:56 +0000
Subject: [PATCH 56/57] fix: zero parts of pga composites keep the context of
 their components

---
 include/altruct/structure/math/pga.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 9e75971..dd35330 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -213,7 +213,7 @@ public:
     blade0<T> b0;
     blade2E<T> b2E;
 
-    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02E, blade0<T>, b0, zeroOf(b2E.biE.z), blade2E<T>, b2E, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02E, T, b0, b2E);
     PGA_COMPOSITE_GETTERS(blade02E, b0, b2E);
     auto inv() const { return rev() / norm2(); }
@@ -225,7 +225,7 @@ public:
     blade0<T> b0;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b0.s));
+    PGA_CONSTRUCTORS_2(blade02e, blade0<T>, b0, zeroOf(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b0.s));
     PGA_CLOSED_OPERATORS_2(blade02e, T, b0, b2e);
     PGA_COMPOSITE_GETTERS(blade02e, b0, b2e);
     auto inv() const { return rev() / norm2(); }
@@ -237,7 +237,7 @@ public:
     blade2E<T> b2E;
     blade2e<T> b2e;
 
-    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, zeroOf(b2e.bie.z), blade2e<T>, b2e, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade22, blade2E<T>, b2E, make_zero_vec(b2e.bie.z), blade2e<T>, b2e, make_zero_vec(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade22, T, b2E, b2e);
     PGA_COMPOSITE_GETTERS(blade22, b2E, b2e);
     auto inv() const { return rev() / norm2(); } // only works when b2E and b2e are perpendicular! use blade024::inv() otherwise
@@ -249,7 +249,7 @@ public:
     blade2E<T> b2E;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
+    PGA_CONSTRUCTORS_2(blade2E4, blade2E<T>, b2E, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2E.biE.z));
     PGA_CLOSED_OPERATORS_2(blade2E4, T, b2E, b4);
     PGA_COMPOSITE_GETTERS(blade2E4, b2E, b4);
     auto inv() const { return rev() / norm2(); }
@@ -261,7 +261,7 @@ public:
     blade2e<T> b2e;
     blade4<T> b4;
 
-    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, zeroOf(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
+    PGA_CONSTRUCTORS_2(blade2e4, blade2e<T>, b2e, make_zero_vec(b4.e0123), blade4<T>, b4, zeroOf(b2e.bie.z));
     PGA_CLOSED_OPERATORS_2(blade2e4, T, b2e, b4);
     PGA_COMPOSITE_GETTERS(blade2e4, b2e, b4);
     auto inv() const { return rev() / norm2(); }
@@ -829,9 +829,9 @@ template<typename T> auto operator % (const blade1<T>& a, const blade13<T>& b) {
 template<typename T> auto operator % (const blade2E<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade1<T>& b) { return blade2E<T>(a.biE * b.diff2() - b.v * ((a.biE & b.v) * castOf(a.biE.z, 2))) + blade2e<T>(b.e0 * castOf(a.biE.z, 2) * (a.biE ^ b.v)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2E<T>& b) { return blade2E<T>(a.biE * b.diff2() + b.biE * ((a.biE & b.biE) * castOf(a.biE.z, 2))); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade2e<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade3<T>& b) { return blade2E<T>(a.biE * b.diff2()) + blade2e<T>(b.e123 * castOf(a.biE.z, 2) * (a.biE ^ b.triP)); }
-template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(zeroOf(a.biE.z)); }
+template<typename T> auto operator % (const blade2E<T>& a, const blade4<T>& b) { return blade2E<T>(make_zero_vec(a.biE.z)); }
 template<typename T> auto operator % (const blade2E<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.biE.z, 2); PGA_DOT_CROSS(a.biE, b.b2E.biE, abiE_o_bbiE, abiE_x_bbiE);
     return blade2E<T>(a.biE * b.diff2() + (b.b2E.biE * abiE_o_bbiE + b.b0.s * abiE_x_bbiE) * c2);
@@ -849,7 +849,7 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade2E4<T>& b)
     return blade2E<T>(a.biE * b.diff2() + b.b2E.biE * (abiE_o_bbiE * c2)) + blade2e<T>(-c2 * b.b4.e0123 * abiE_x_bbiE);
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade2e4<T>& b) {
-    return blade2E<T>(zeroOf(a.biE.z));
+    return blade2E<T>(make_zero_vec(a.biE.z));
 }
 template<typename T> auto operator % (const blade2E<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.biE, bbiE, abiE_o_bbiE, abiE_x_bbiE); PGA_DOT_CROSS(a.biE, bbie, abiE_o_bbie, abiE_x_bbie);
@@ -865,9 +865,9 @@ template<typename T> auto operator % (const blade2E<T>& a, const blade13<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade0<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade1<T>& b) { return blade2e<T>(a.bie * -b.diff2() + b.v * (a.bie & b.v) * castOf(a.bie.z, 2)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E<T>& b) { return blade2e<T>(a.bie * b.diff2() + b.biE * ((a.bie & b.biE) * castOf(a.bie.z, 2))); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade3<T>& b) { return a * b.norm2(); }
-template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b) {
     const auto c2 = castOf(a.bie.z, 2); PGA_DOT_CROSS(a.bie, b.b2E.biE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (b.b0.s * abie_x_bbiE + b.b2E.biE * abie_o_bbiE) * c2);
@@ -875,7 +875,7 @@ template<typename T> auto operator % (const blade2e<T>& a, const blade02E<T>& b)
 template<typename T> auto operator % (const blade2e<T>& a, const blade02e<T>& b) { return a * b.norm2(); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade22<T>& b) { return a % b.b2E; }
 template<typename T> auto operator % (const blade2e<T>& a, const blade2E4<T>& b) { return a % b.b2E; }
-template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(zeroOf(a.bie.z)); }
+template<typename T> auto operator % (const blade2e<T>& a, const blade2e4<T>& b) { return blade2e<T>(make_zero_vec(a.bie.z)); }
 template<typename T> auto operator % (const blade2e<T>& a, const blade024<T>& b) {
     PGA_DEF_024(b, c2); PGA_DOT_CROSS(a.bie, bbiE, abie_o_bbiE, abie_x_bbiE);
     return blade2e<T>(a.bie * b.diff2() + (bs * abie_x_bbiE + bbiE * abie_o_bbiE) * c2);
-- 
2.43.0


From a8087c4cb2483410bf495566c90aa921aff068ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:56 +0000
Subject: [PATCH 57/57] fix: infinityT of floating point types is static like
 that of other types

---
 include/altruct/algorithm/math/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..5529355 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -101,9 +101,9 @@ struct infinityT {
         return false;
     }
 };
-template<> struct infinityT<float> { bool is(const float& x) { return isinf(x); } };
-template<> struct infinityT<double> { bool is(const double& x) { return isinf(x); } };
-template<> struct infinityT<long double> { bool is(const long double& x) { return isinf(x); } };
+template<> struct infinityT<float> { static bool is(const float& x) { return isinf(x); } };
+template<> struct infinityT<double> { static bool is(const double& x) { return isinf(x); } };
+template<> struct infinityT<long double> { static bool is(const long double& x) { return isinf(x); } };
 
 /**
  * Gives the conjugate value of x.
-- 
2.43.0

