From dfa002388f2ba8f45f6b56631251da97631eda7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 01/23] fix: clusters::set_mean(iterator) wrote every element
 into the first coordinate

---
 libkcommon/clusters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/clusters.hpp b/libkcommon/clusters.hpp
index cc2abc3..f7f5d53 100644
--- a/libkcommon/clusters.hpp
+++ b/libkcommon/clusters.hpp
@@ -190,7 +190,7 @@ public:
         unsigned nid = 0;
         while(it.has_next()) {
             double e = it.next();
-            means[offset+nid] = e;
+            means[offset+nid++] = e;
         }
     }
 
-- 
2.43.0


From ef0773512a96b01db3e8796ef174c48fd51ff5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 02/23] fix: check_set one past the end must grow the flag
 vector

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From 09e5e5ceab07f0d23ad15f345bdc47bc6ddd050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 03/23] fix: vmap::has_key on an empty map read out of bounds

---
 libkcommon/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index ccb3ce7..11309c5 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -145,7 +145,7 @@ class vmap {
         const bool empty() const { return !static_cast<bool>(size()); }
 
         const bool has_key(const size_t idx) const {
-            if (idx > size()-1)
+            if (idx >= size())
                 return false;
             return (emptyval != data[idx]);
         }
-- 
2.43.0


From 42fb6f9239cc94864c71eb30dc7ccd3a754b8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 04/23] fix: growing a vmap must leave the new slots empty

---
 libkcommon/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/types.hpp b/libkcommon/types.hpp
index 11309c5..259575c 100644
--- a/libkcommon/types.hpp
+++ b/libkcommon/types.hpp
@@ -118,7 +118,7 @@ class vmap {
 
         T& operator[] (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return data[idx];
         }
 
@@ -130,7 +130,7 @@ class vmap {
 
         T& at (const size_t idx) {
             if (idx >= size())
-                data.resize(idx+1); // TODO: Efficiency
+                data.resize(idx+1, emptyval); // TODO: Efficiency
             return (*this)[idx];
         }
 
-- 
2.43.0


From 56679b14e47799f8dbb6b187bcb29f3c38befe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 05/23] fix: record the previous centroids before the first
 pruned update

After the first pass the movement of each centroid was measured from the zero vector instead of from the initial centroid, so the stored upper bounds could be too small and the second pass could skip the nearest centroid.
---
 libman/kmeans_task_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..bded260 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -129,13 +129,14 @@ void kmeans_task_coordinator::mb_iteration_end() {
 }
 
 void kmeans_task_coordinator::update_clusters(const bool prune_init) {
+    // The distance each centroid moves is needed after the first pass too
+    cltrs->set_prev_means();
     if (prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
         cltrs->clear();
     } else {
-        cltrs->set_prev_means();
         cltrs->unfinalize_all();
     }
 
-- 
2.43.0


From 418598561efab96a47b5d1a3db3af9ca35d03cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 06/23] fix: record the previous centroids before the first
 pruned update (OpenMP)

Same defect as in the thread-pool library: centroid movement after the first pass was measured from the zero vector.
---
 libauto/min-tri-kmeans.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..986b3b3 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -319,10 +319,11 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 #endif
 
+    // The distance each centroid moves is needed after the first pass too
+    cls->set_prev_means();
     if (prune_init) {
         cls->clear();
     } else {
-        cls->set_prev_means();
         cls->unfinalize_all();
     }
 
-- 
2.43.0


From 3f52c287d4e6139fd4308aca77fd0bc0092dceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 07/23] fix: join the workers before destroying their objects

~coordinator only asked the workers to exit; their objects (task queue,
mutex, vtable of the derived class) were torn down by the thread
destructors while the threads were still on their way out.
---
 libman/coordinator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..8f5bb45 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -87,6 +87,9 @@ void coordinator::wake4run(const thread_state_t state) {
 
 void coordinator::destroy_threads() {
     wake4run(EXIT);
+    // A thread object must outlive the thread that runs it
+    for (thread_iter it = threads.begin(); it != threads.end(); ++it)
+        (*it)->join();
 }
 
 // <Thread, within-thread-row-id>
-- 
2.43.0


From aa95df9ddf547d1cbe708bd02b28a364236e6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 08/23] fix: a worker must read its state under its lock

The worker loop read the state without the lock, so it could see the
state set by kmeans_task_thread::wake before the pass's first block was
taken from the queue, and run on a missing or stale block.
---
 libman/thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..40fb891 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -66,8 +66,9 @@ void* callback(void* arg) {
 #endif
 
     while (true) { // So we can receive task after task
-        if (t->get_state() == knor::WAIT)
-            t->wait();
+        // Returns with the state read under the lock `wake' holds, so whatever
+        //  `wake' prepares for this pass is complete before we run
+        t->wait();
 
         if (t->get_state() == knor::EXIT) {// No more work to do
             break;
-- 
2.43.0


From 257313aabdd26b5a0a4f40e0980caecafdbb9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 09/23] fix: the coordinator could miss the last worker's
 signal

Workers counted down and signalled without the lock under which
wait4complete tests the count and goes to wait, so the signal could
fall in between and the coordinator slept for ever.
---
 libman/coordinator.cpp |  4 +++-
 libman/task_thread.cpp | 14 ++++++++++++++
 libman/thread.cpp      |  7 +++++++
 libman/thread.hpp      |  7 ++++++-
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index 8f5bb45..082e2c0 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -81,8 +81,10 @@ coordinator::get_rid_len_tup(const unsigned thd_id) {
 
 void coordinator::wake4run(const thread_state_t state) {
     pending_threads = nthreads;
-    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++)
+    for (unsigned thd_id = 0; thd_id < threads.size(); thd_id++) {
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->wake(state);
+    }
 }
 
 void coordinator::destroy_threads() {
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..873b912 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,6 +99,10 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
+    // The parent tests the count and goes to wait under its own lock
+    if (parent_mutex)
+        pthread_mutex_lock(parent_mutex);
+
     (*parent_pending_threads)--;
     set_thread_state(WAIT);
 
@@ -106,12 +110,19 @@ void task_thread::lock_sleep() {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
+
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
+    // The parent tests the count and goes to wait under its own lock
+    if (parent_mutex)
+        pthread_mutex_lock(parent_mutex);
+
     (*parent_pending_threads)--;
     set_thread_state(WAIT);
 
@@ -119,6 +130,9 @@ void task_thread::sleep() {
         int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
+
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..9041c6f 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -36,6 +36,10 @@ void thread::sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
+    // The parent tests the count and goes to wait under its own lock
+    if (parent_mutex)
+        pthread_mutex_lock(parent_mutex);
+
     (*parent_pending_threads)--;
     set_thread_state(WAIT);
 
@@ -43,6 +47,9 @@ void thread::sleep() {
         rc = pthread_cond_signal(parent_cond); // Wake up parent thread
         if (rc) perror("pthread_cond_signal");
     }
+
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 40fb891..a7b48c2 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -102,6 +102,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex;
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -122,7 +123,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -234,6 +235,10 @@ public:
         parent_cond = cond;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
-- 
2.43.0


From d1ab1ff00277ba67cdd86fae36e3737432e28e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 10/23] fix: dense_matrix::argmax ignored negative elements

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From fe4e2e5ea857ba9cb3c5896000adf81bb2e52326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 11/23] fix: linalg::scale truncated the running sum to an
 integer

---
 libkcommon/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..e204c53 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -195,7 +195,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
-- 
2.43.0


From 022df1f4c5b48ea2e2ecb2c3a78507e35fb09ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 12/23] fix: linalg::adjoint never alternated the sign of the
 cofactors

---
 libkcommon/linalg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e204c53..170f55d 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -113,6 +113,7 @@ namespace knor { namespace base {
                     // and column indexes is even.
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
+                    sign = ((i+j) % 2 == 0) ? 1 : -1;
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
                 }
             }
-- 
2.43.0


From a0d95a16626700cc2bd7a4212943f11e50339cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 13/23] fix: linalg::pow did nothing when given a result vector
 to fill

---
 libkcommon/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 170f55d..531ed0f 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -230,6 +230,9 @@ namespace knor { namespace base {
             if (!res.size()) {
                 for (double el : v)
                     res.push_back(std::pow(el, exp));
+            } else {
+                for (size_t i = 0; i < v.size(); i++)
+                    res[i] = std::pow(v[i], exp);
             }
         }
     };
-- 
2.43.0


From 5d8489a404c4483dd7bcd36cf49f59ad79bc998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:14 +0000
Subject: [PATCH 14/23] fix: k-medoids workers measure with the dissimilarity
 that was selected

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..13480a3 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..cce1ae7 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                kbase::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..8917a56 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
-- 
2.43.0


From 93811a150610a0f77a3a71cd0a40781b9d5ee916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 15/23] fix: fuzzy c-means gives a row that lies on a center
 its membership there

---
 libman/fcm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..96ae848 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -45,6 +45,9 @@ void fcm::Estep() {
         for (unsigned cid = 0; cid < nclust; cid++) {
             double dist = base::dist_comp_raw<double>(&local_data[row*ncol],
                     &(centers->as_pointer()[cid*ncol]), ncol, dist_metric);
+            // A row that lies on a center is as close to it as can be
+            if (dist <= 0)
+                dist = 2.2E-16;
             if (dist > 0) {
                 //TODO: Fix bad access pattern. um -> col major
                 um->set(cid, true_rid,
-- 
2.43.0


From 48c5e0fbc5fa83a8c6b5303671a0aa2d478a3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 16/23] fix: scaled k-means takes the largest value of a
 feature that is never positive

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..b6d454d 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -64,7 +64,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 4bc96232026e0fa686645b7a289fa4fb51d62e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 17/23] fix: scaled k-means no longer divides zero by zero for
 a constant feature

---
 libman/skmeans.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..a7c3e8c 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,6 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
+                if (max_feature_val[col] == min_feature_val[col]) {
+                    local_data[row*ncol+col] = 0; // A constant feature
+                    continue;
+                }
                 local_data[row*ncol+col] =
                     (local_data[row*ncol+col] - min_feature_val[col])/
                     (max_feature_val[col] - min_feature_val[col]);
-- 
2.43.0


From f59c2c6d7efff0f82602b854144dae29646ccd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 18/23] fix: spherical_projection projects every row by its own
 norm

---
 libkcommon/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..7b93c66 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -60,9 +60,9 @@ void spherical_projection(double* data, const size_t nrow,
     for (unsigned row = 0; row < nrow; row++) {
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            data[row*ncol+col] = data[row*ncol+col]/std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 450232c6c85308707c8c4e2974cc95964c799d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 19/23] fix: eq_all compares the last element too

---
 libkcommon/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..2ed3f93 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -70,7 +70,7 @@ const bool v_eq_const(const std::vector<T>& v, const T var) {
 
 template <typename T>
 bool eq_all(const T* v1, const T* v2, const unsigned len) {
-    return (std::equal(&v1[0], &(v1[len-1]), &v2[0]));
+    return (std::equal(v1, v1 + len, v2));
 }
 
 template <typename T>
-- 
2.43.0


From 41783b254b878d3223dcf70841eb701942551a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 20/23] fix: vectors of different lengths are not equal

---
 libkcommon/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index 2ed3f93..d96689a 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -57,7 +57,8 @@ T get_max_hnodes(const T v) {
 // Vector equal function
 template <typename T>
 bool v_eq(const T& lhs, const T& rhs) {
-    return std::equal(lhs.begin(), lhs.end(), rhs.begin());
+    return lhs.size() == rhs.size() &&
+        std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <typename T>
-- 
2.43.0


From ce86484a932c25137a5f1d7e3e9dc260124ab063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:56 +0000
Subject: [PATCH 21/23] fix: hierarchical clustering reports no centroid for a
 cluster without members

---
 libman/hclust_coordinator.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..2d421f7 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -212,9 +212,10 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
                 || at_cluster_cap()) {
             deactivate(zeroid); // So we no longer process this
             // Record this as an output
-            final_centroids[zeroid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(0),
-                    hcltrs[id]->get_mean_rawptr(0) + ncol);
+            if (cluster_assignment_counts[zeroid] > 0)
+                final_centroids[zeroid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(0),
+                        hcltrs[id]->get_mean_rawptr(0) + ncol);
             // Don't split
             l0_complete = l1_complete = true;
         }
@@ -222,9 +223,10 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         if (cluster_assignment_counts[oneid] < min_clust_size
                 || at_cluster_cap()) {
             deactivate(oneid);
-            final_centroids[oneid] = std::vector<double>(
-                    hcltrs[id]->get_mean_rawptr(1),
-                    hcltrs[id]->get_mean_rawptr(1) + ncol);
+            if (cluster_assignment_counts[oneid] > 0)
+                final_centroids[oneid] = std::vector<double>(
+                        hcltrs[id]->get_mean_rawptr(1),
+                        hcltrs[id]->get_mean_rawptr(1) + ncol);
             // Don't split
             r0_complete = r1_complete = true;
         }
@@ -411,12 +413,15 @@ void hclust_coordinator::complete_final_centroids() {
     auto itr = hcltrs.get_iterator();
     while (itr.has_next()) {
         auto const& c = itr.next().second;
-        final_centroids[c->get_zeroid()] =
-            std::vector<double>(c->get_mean_rawptr(0),
-                    c->get_mean_rawptr(0) + ncol);
-        final_centroids[c->get_oneid()] =
-            std::vector<double>(c->get_mean_rawptr(1),
-                    c->get_mean_rawptr(1) + ncol);
+        // A cluster without members is not part of the result
+        if (cluster_assignment_counts[c->get_zeroid()] > 0)
+            final_centroids[c->get_zeroid()] =
+                std::vector<double>(c->get_mean_rawptr(0),
+                        c->get_mean_rawptr(0) + ncol);
+        if (cluster_assignment_counts[c->get_oneid()] > 0)
+            final_centroids[c->get_oneid()] =
+                std::vector<double>(c->get_mean_rawptr(1),
+                        c->get_mean_rawptr(1) + ncol);
     }
 }
 
-- 
2.43.0


From 0be79569b571e397b9bab5b5a21517760f48c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:19 +0000
Subject: [PATCH 22/23] fix: x-means partition means start from zero in every
 round

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..b30f5a4 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -73,7 +73,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // Ids are reused: nothing of an earlier partition may remain
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From 2c9dcad43edb72074e77f727b95bc8b4e0bbeaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:55 +0000
Subject: [PATCH 23/23] fix: local_rid refuses the row just past the process's
 block

---
 libdist/dist_coordinator.cpp      | 2 +-
 libdist/dist_task_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..8c23b35 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -110,7 +110,7 @@ const size_t dist_coordinator::global_rid(const size_t local_rid) const {
 
 const size_t dist_coordinator::local_rid(const size_t global_rid) const {
     size_t rid = global_rid - (mpi_rank * (g_nrow / nprocs));
-    if (rid > this->nrow)
+    if (rid >= this->nrow)
         throw kbase::thread_exception("Row: " + std::to_string(rid) +
                 " out of bounds for Proc: " + std::to_string( mpi_rank));
     return rid;
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..0e7f2a0 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -92,7 +92,7 @@ const size_t dist_task_coordinator::global_rid(const size_t local_rid) const {
 
 const size_t dist_task_coordinator::local_rid(const size_t global_rid) const {
     size_t rid = global_rid - (mpi_rank * (g_nrow / nprocs));
-    if (rid > this->nrow)
+    if (rid >= this->nrow)
         throw kbase::thread_exception("Row: " + std::to_string(rid) +
                 " out of bounds for Proc: " + std::to_string( mpi_rank));
     return rid;
-- 
2.43.0

