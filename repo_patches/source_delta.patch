From a7980b8dd1f634d9e6c88fd35daf050e0b3166da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 01/41] fix: Progress::Update never moves a progress backwards

A stale Update() racing with Done() or with another reporter of the same
sub-job overwrote the more advanced percentage, so a later Get() reported less
than an earlier one and a finished task could report below 100%.
---
 psi/utils/progress.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psi/utils/progress.cc b/psi/utils/progress.cc
index 65faf42..f5b2968 100644
--- a/psi/utils/progress.cc
+++ b/psi/utils/progress.cc
@@ -29,7 +29,13 @@ Progress::Progress(std::string description)
       done_(false) {}
 
 void Progress::Update(size_t percentage) {
-  percentage_.store(std::min<size_t>(percentage, 100));
+  const size_t value = std::min<size_t>(percentage, 100);
+  // Reports may arrive concurrently and out of order, or after Done(): never
+  // overwrite a more advanced value.
+  size_t current = percentage_.load();
+  while (current < value &&
+         !percentage_.compare_exchange_weak(current, value)) {
+  }
 }
 
 void Progress::Done() {
-- 
2.43.0


From 5b0de9372bc2be223e82cdfe756d7e0b5823b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/41] fix: Progress::Get with more sub-progresses than
 declared

Get() indexed weights_ by sub-progress without checking its size, an
out-of-bounds read when more sub-progresses were added than weights declared.
---
 psi/utils/progress.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/psi/utils/progress.cc b/psi/utils/progress.cc
index f5b2968..4f426a7 100644
--- a/psi/utils/progress.cc
+++ b/psi/utils/progress.cc
@@ -81,10 +81,17 @@ Progress::Data Progress::Get() {
   Data out;
 
   std::string sub_desc;
-  out.total = weights_.size();
+  out.total = std::max(weights_.size(), sub_progresses_.size());
   for (size_t i = 0; i < sub_progresses_.size(); i++) {
     auto sub_data = sub_progresses_[i]->Get();
-    total_percent += weights_[i] * sub_data.percentage;
+    // sub-progresses beyond the declared ones count with weight 1
+    size_t weight = 1;
+    if (i < weights_.size()) {
+      weight = weights_[i];
+    } else {
+      total_weight += weight;
+    }
+    total_percent += weight * sub_data.percentage;
 
     out.total--;
     out.total += sub_data.total;
-- 
2.43.0


From 585921f19030ae5ff76b36e9fb1cddee2bbc6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 03/41] fix: align keys_unique outputs by the selected keys, in
 join order

The alignment of a keys_unique party sorted its matched rows by all columns
in file order, so line k of the two outputs carried different keys whenever
a payload column preceded a key column or the key columns were stored in
another order than selected.
---
 psi/utils/join_processor.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..8e56b34 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -273,8 +273,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   dumper.Flush();
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
-      Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+      Table::MakeFromCsv(sorted_intersect_path_)->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From 1ba8a6800c4b93f5a60ffa25fcf3f5f34e7127ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 04/41] fix: KKRT sender no longer spins forever when receiving
 corrections fails

When the peer was gone, the receiving thread ended with an exception but the
encoding loop kept waiting for corrections that could not arrive any more.
---
 psi/algorithm/kkrt/kkrt_psi.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..b6bdad3 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -250,6 +251,13 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
     // after stepSize attempts to encode items, lets see if more
     // corrections have arrived.
     r = recv_idx.load(std::memory_order_acquire);
+
+    // If the receiving thread failed, no more corrections will ever arrive.
+    if (r != num_bins &&
+        f_recv_corrections.wait_for(std::chrono::seconds(0)) ==
+            std::future_status::ready) {
+      break;
+    }
   }
 
   // Join receiving thread and throw exceptions if any thing is wrong.
-- 
2.43.0


From c9f5d7a2192c6ffea4f3e02562861d1ff9c9cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 05/41] fix: an unfinished transfer no longer leaves a server
 cache that looks complete

---
 psi/algorithm/ecdh/ub_psi/client.cc | 7 +++++++
 psi/utils/ec_point_store.cc         | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..67c2d2c 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -63,6 +63,8 @@ void EcdhUbPsiClient::OfflineTransferCache() {
     SPDLOG_INFO("old cache file exists, remove {}", GetServerCachePath());
     std::filesystem::remove_all(config_.cache_path());
   }
+  // a meta left without its cache would be taken for the new cache's
+  std::filesystem::remove(GetServerCachePath() + ".meta");
 
   auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
       GetServerCachePath(), ub_psi_client_transfer_cache->GetCompareLength());
@@ -92,6 +94,11 @@ void EcdhUbPsiClient::Online() {
     std::shared_ptr<EcdhOprfPsiClient> dh_oprf_psi_client_online =
         std::make_shared<EcdhOprfPsiClient>(psi_options_, private_key);
 
+    YACL_ENFORCE(std::filesystem::exists(GetServerCachePath()) &&
+                     std::filesystem::exists(GetServerCachePath() + ".meta"),
+                 "server cache {} is missing or its transfer did not finish",
+                 GetServerCachePath());
+
     auto key_info = join_processor_->GetUniqueKeysInfo();
     report_.set_original_key_count(key_info->KeyCnt());
     report_.set_original_count(key_info->OriginCnt());
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..4cbbddc 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -371,6 +371,8 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 void UbPsiClientCacheFileStore::LoadMeta() {
   std::ifstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.read(reinterpret_cast<char*>(&meta_), sizeof(CacheMeta));
+  YACL_ENFORCE(meta_stream.gcount() == sizeof(CacheMeta),
+               "cache meta {} is incomplete", meta_path_);
 }
 
 void UbPsiClientCacheFileStore::DumpMeta() {
@@ -407,12 +409,12 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
                  "item_cnt not match, meta {} != {} in meta", item_cnt_,
                  meta_.item_cnt);
     peer_cnt_ = meta_.peer_cnt;
-  } else {
-    DumpMeta();
   }
 }
 
-UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() { Flush(); }
+// The meta is only written by an explicit Flush: it marks a complete cache, so
+// a store abandoned half way must not leave one behind.
+UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() = default;
 
 std::shared_ptr<IBasicBatchProvider>
 UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
-- 
2.43.0


From a9ebaca9aabd4b62019f6fd475ff57de13136edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 06/41] fix: refuse a sorted input that no longer matches its
 key info instead of rebuilding from it

---
 psi/utils/table_utils.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..b29c8a7 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -285,15 +285,16 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     SPDLOG_INFO("meta file {} exists already.", meta_path);
     proto::KeyInfoMeta meta;
     LoadJsonFileToPbMessage(meta_path, meta);
-    if (meta.source_file_size() ==
-        std::filesystem::file_size(sorted_table->Path())) {
-      return std::shared_ptr<KeyInfo>(
-          new KeyInfo(path, "csv", sorted_table, meta));
-    } else {
-      SPDLOG_WARN("Sorted file size {} not match meta file size {}, rebuild.",
-                  std::filesystem::file_size(sorted_table->Path()),
-                  meta.source_file_size());
-    }
+    // The key info was made from this very sorted file, which nothing changes
+    // afterwards: another size means that it was damaged.
+    YACL_ENFORCE(meta.source_file_size() ==
+                     std::filesystem::file_size(sorted_table->Path()),
+                 "sorted file {} size {} not match meta file size {}",
+                 sorted_table->Path(),
+                 std::filesystem::file_size(sorted_table->Path()),
+                 meta.source_file_size());
+    return std::shared_ptr<KeyInfo>(
+        new KeyInfo(path, "csv", sorted_table, meta));
   }
 
   std::ofstream out(path);
-- 
2.43.0


From 1707d24ebc962a3d0c457a1b44a9619722e7f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 07/41] fix: a failing stage of the RR22 pipeline no longer
 leaves the task waiting forever

---
 psi/algorithm/rr22/rr22_psi.h | 48 ++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..5001f4e 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,8 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <exception>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +202,48 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // What stopped the first stage that failed: the others must not wait for it
+    // any more. Written under both mutexes.
+    std::exception_ptr error;
+    auto start_stage = [&](std::function<void()> stage) {
+      return std::async(std::launch::async, [&, stage = std::move(stage)]() {
+        try {
+          stage();
+        } catch (...) {
+          std::scoped_lock lock(prepare_mtx, oprf_mtx);
+          if (!error) {
+            error = std::current_exception();
+          }
+          prepare_cv.notify_all();
+          oprf_cv.notify_all();
+        }
+      });
+    };
+    auto prepare_f = start_stage([&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return error || prepared_runner_queue.size() < cache_size;
+        });
+        if (error) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
     });
-    auto run_f = std::async(std::launch::async, [&]() {
+    auto run_f = start_stage([&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return error || !prepared_runner_queue.empty(); });
+          if (error) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -229,12 +256,16 @@ class Rr22Runner {
         }
       }
     });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    auto intersection_f = start_stage([&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return error || !oprf_runner_queue.empty(); });
+          if (error) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
@@ -245,6 +276,9 @@ class Rr22Runner {
     run_f.get();
     prepare_f.get();
     intersection_f.get();
+    if (error) {
+      std::rethrow_exception(error);
+    }
   }
 
   void ParallelRun(size_t start_idx, bool is_sender, int parallel_num = 6) {
-- 
2.43.0


From d7bff51f2451a4c4a55c75ec9c683bbe50bf5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 08/41] fix: OKVS gap solving with two or more gap rows

MatrixGf128Inv allocated row_size elements of value col_size instead of a
row_size x col_size zero matrix, so the inverse was written past the end and
came out wrong whenever an encoding had two or more gap rows; the affected
keys decoded to other values and RR22 lost them from the intersection.
---
 psi/algorithm/rr22/okvs/paxos.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..06dce1b 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,7 +30,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  auto inv = std::vector<uint128_t>(row_size * col_size, 0);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
-- 
2.43.0


From bcadb4bca3ef0dd1f8028cce937b006ef05d2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 09/41] fix: randomised OKVS encodings decode at every key

With a prng, the GF128 path overran the gap matrix while randomising it (the
span was counted in bytes), the binary path lost the random columns because
it copied a viewing vector, and neither subtracted the random sparse columns
of gap rows that do not repeat a main row.
---
 psi/algorithm/rr22/okvs/paxos.cc | 52 ++++++++++++++++++++++++++------
 psi/algorithm/rr22/okvs/paxos.h  |  9 ++++++
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 06dce1b..e409aa9 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -820,8 +820,14 @@ void Paxos<IdxType>::BackfillGf128U64(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      if (prng) {
+        AddSparse(gap_rows[i][0], output, helper, xx[i]);
+      }
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
+        if (prng) {
+          AddSparse(j, output, helper, xx[i]);
+        }
         auto fcb = dense_[j];
         Galois128 fcbk(fcb);
         EE[i * size] = EE[i * size] ^ fcb;
@@ -835,7 +841,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1021,8 +1027,14 @@ void Paxos<IdxType>::BackfillGf128(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      if (prng) {
+        AddSparse(gap_rows[i][0], output, helper, xx[i]);
+      }
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
+        if (prng) {
+          AddSparse(j, output, helper, xx[i]);
+        }
         auto fcb = dense_[j];
         Galois128 fcbk(fcb);
         EE[i * size] = EE[i * size] ^ fcb;
@@ -1036,7 +1048,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1212,11 +1224,14 @@ void Paxos<IdxType>::BackfillBinaryU64(
       RandomizeDenseColsU64(p2, h, absl::MakeSpan(gap_cols), prng);
     }
 
+    // copying a vector that views other memory would leave it empty
+    PxVectorU64 no_random;
+
     // auto PP =
     //  x2' = x2 - D r - FC^-1 x1
     auto xx2 =
         GetX2PrimeU64(fcinv, absl::MakeSpan(gap_rows), absl::MakeSpan(gap_cols),
-                      X, prng ? P : PxVectorU64{}, h);
+                      X, prng ? P : no_random, h);
 
     // E' = E - FC^-1 B
     DenseMtx EE =
@@ -1330,11 +1345,14 @@ void Paxos<IdxType>::BackfillBinary(
       RandomizeDenseCols(p2, h, absl::MakeSpan(gap_cols), prng);
     }
 
+    // copying a vector that views other memory would leave it empty
+    PxVector no_random;
+
     // auto PP =
     //  x2' = x2 - D r - FC^-1 x1
     auto xx2 =
         GetX2Prime(fcinv, absl::MakeSpan(gap_rows), absl::MakeSpan(gap_cols), X,
-                   prng ? P : PxVector{}, h);
+                   prng ? P : no_random, h);
 
     // E' = E - FC^-1 B
     DenseMtx EE =
@@ -1571,9 +1589,16 @@ PxVectorU64 Paxos<IdxType>::GetX2PrimeU64(
     YACL_ENFORCE(P.size() == dense_size + sparse_size);
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D' cancels for a gap row that repeats a row of C,
+    // but not for other gap rows. Columns of C are still zero in P.
+    for (uint64_t j = 0; j < g; ++j) {
+      AddSparse(gap_rows[j][0], P, helper, xx2[j]);
+      for (auto k : fcinv.mtx[j]) {
+        AddSparse(k, P, helper, xx2[j]);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
@@ -1618,9 +1643,16 @@ PxVector Paxos<IdxType>::GetX2Prime(const FCInv& fcinv,
     YACL_ENFORCE(P.size() == (dense_size + sparse_size));
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D' cancels for a gap row that repeats a row of C,
+    // but not for other gap rows. Columns of C are still zero in P.
+    for (uint64_t j = 0; j < g; ++j) {
+      AddSparse(gap_rows[j][0], P, helper, xx2[j]);
+      for (auto k : fcinv.mtx[j]) {
+        AddSparse(k, P, helper, xx2[j]);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
diff --git a/psi/algorithm/rr22/okvs/paxos.h b/psi/algorithm/rr22/okvs/paxos.h
index 43e5e28..2b46ac9 100644
--- a/psi/algorithm/rr22/okvs/paxos.h
+++ b/psi/algorithm/rr22/okvs/paxos.h
@@ -234,6 +234,15 @@ class Paxos : public PaxosParam {
   std::vector<uint64_t> GetGapCols(
       const FCInv& fcinv, absl::Span<std::array<IdxType, 2>> gap_rows) const;
 
+  // adds what the sparse columns of the given row contribute to dst.
+  template <typename Vec, typename Helper>
+  void AddSparse(uint64_t row, const Vec& p, Helper& h,
+                 typename Vec::iterator dst) const {
+    for (uint64_t j = 0; j < weight; ++j) {
+      h.Add(dst, p[rows_[row * weight + j]]);
+    }
+  }
+
   // returns x2' = x2 - D' r - FC^-1 x1
   PxVector GetX2Prime(const FCInv& fcinv,
                       absl::Span<std::array<IdxType, 2>> gap_rows,
-- 
2.43.0


From 8382f39efee01890478b9f7b21be640f1c7e4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 10/41] fix: the recovery checkpoint survives a kill while it
 is written

---
 psi/checkpoint/recovery.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..1467528 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -81,8 +81,6 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
 }
 
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -90,10 +88,19 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
+  // The task may be killed at any time: the previous checkpoint has to stay
+  // readable until the new one is complete.
+  auto tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
+
   std::ofstream file;
-  file.open(checkpoint_file_path_);
+  file.open(tmp_path);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(file.good(), "failed to write checkpoint file {}",
+               tmp_path.string());
+
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
@@ -211,6 +218,7 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -221,6 +229,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_peer_count(cnt);
 
@@ -230,6 +239,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
 
-- 
2.43.0


From a7277cc9b5bf9d262c763e0c1ad991057d3c2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 11/41] fix: a resumed ECDH PSI goes on from the items both
 parties agree on

The point stores kept whatever had been written before the interruption
and numbered new items from 0 again, so that items past the agreed count
were stored twice and the indices of resent items were wrong. Duplicate
counts of a batch resumed in its middle were shifted.
---
 psi/algorithm/ecdh/ecdh_psi.cc  | 22 +++++++++++++++++++-
 psi/checkpoint/checkpoint.proto |  2 ++
 psi/checkpoint/recovery.cc      |  6 ++++++
 psi/checkpoint/recovery.h       |  7 +++++++
 psi/utils/ec_point_store.h      | 11 ++++++++++
 psi/utils/hash_bucket_cache.cc  | 37 +++++++++++++++++++++++++++++++++
 psi/utils/hash_bucket_cache.h   |  4 ++++
 7 files changed, 88 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..0037973 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -81,12 +81,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
@@ -476,6 +476,26 @@ void RunEcdhPsi(const EcdhPsiOptions& options,
     }
 
     SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
+
+    if (handler.SelfCanTouchResults()) {
+      // Where the peer goes on sending its items.
+      uint64_t processed_peer_item_cnt = options.recovery_manager->checkpoint()
+                                             .ecdh_dual_masked_item_peer_count();
+      if (handler.PeerCanTouchResults()) {
+        processed_peer_item_cnt = std::min(
+            processed_peer_item_cnt,
+            options.recovery_manager->ecdh_dual_masked_self_cnt_of_peer());
+      }
+
+      // The stores may hold more items than both parties agree on. These will
+      // be sent again, so drop them (and stop counting them first).
+      options.recovery_manager->UpdateEcdhDualMaskedItemSelfCount(
+          processed_item_cnt);
+      options.recovery_manager->UpdateEcdhDualMaskedItemPeerCount(
+          processed_peer_item_cnt);
+      self_ec_point_store->Truncate(processed_item_cnt);
+      peer_ec_point_store->Truncate(processed_peer_item_cnt);
+    }
   }
 
   std::future<void> f_mask_self = std::async([&] {
diff --git a/psi/checkpoint/checkpoint.proto b/psi/checkpoint/checkpoint.proto
index 82c2335..5955506 100644
--- a/psi/checkpoint/checkpoint.proto
+++ b/psi/checkpoint/checkpoint.proto
@@ -48,4 +48,6 @@ message InternalRecoveryRecord {
   uint64 ecdh_dual_masked_item_peer_count = 2;
 
   uint64 parsed_bucket_count = 3;
+
+  uint64 ecdh_dual_masked_item_self_count = 4;
 }
diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 1467528..37cb68c 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -164,6 +164,8 @@ bool RecoveryManager::MarkOnlineStart(
     record.set_ecdh_dual_masked_item_peer_count(
         checkpoint_.ecdh_dual_masked_item_peer_count());
     record.set_parsed_bucket_count(checkpoint_.parsed_bucket_count());
+    record.set_ecdh_dual_masked_item_self_count(
+        checkpoint_.ecdh_dual_masked_item_self_count());
     std::string record_str;
     YACL_ENFORCE(record.SerializeToString(&record_str));
 
@@ -190,10 +192,14 @@ bool RecoveryManager::MarkOnlineStart(
     if (lctx->Rank() == 0) {
       ecdh_dual_masked_cnt_from_peer_ =
           rank1.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_of_peer_ =
+          rank1.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank1.parsed_bucket_count();
     } else {
       ecdh_dual_masked_cnt_from_peer_ =
           rank0.ecdh_dual_masked_item_peer_count();
+      ecdh_dual_masked_self_cnt_of_peer_ =
+          rank0.ecdh_dual_masked_item_self_count();
       parsed_bucket_count_from_peer_ = rank0.parsed_bucket_count();
     }
   }
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index d61f220..610b0b0 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -90,6 +90,11 @@ class RecoveryManager {
     return ecdh_dual_masked_cnt_from_peer_;
   }
 
+  // How many of its own dual masked items the peer holds.
+  uint64_t ecdh_dual_masked_self_cnt_of_peer() const {
+    return ecdh_dual_masked_self_cnt_of_peer_;
+  }
+
   uint64_t parsed_bucket_count_from_peer() const {
     return parsed_bucket_count_from_peer_;
   }
@@ -117,6 +122,8 @@ class RecoveryManager {
 
   uint64_t ecdh_dual_masked_cnt_from_peer_ = 0;
 
+  uint64_t ecdh_dual_masked_self_cnt_of_peer_ = 0;
+
   uint64_t parsed_bucket_count_from_peer_ = 0;
 };
 
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..b64be41 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -25,6 +25,8 @@
 #include <utility>
 #include <vector>
 
+#include "yacl/base/exception.h"
+
 #include "psi/utils/batch_provider.h"
 #include "psi/utils/hash_bucket_cache.h"
 #include "psi/utils/index_store.h"
@@ -61,6 +63,13 @@ class IEcPointStore {
   }
 
   virtual uint64_t ItemCount() = 0;
+
+  // Keeps the first `item_count` items only, and goes on from there.
+  virtual void Truncate(uint64_t item_count) {
+    YACL_ENFORCE(ItemCount() == item_count,
+                 "a store of {} items cannot be truncated to {}", ItemCount(),
+                 item_count);
+  }
 };
 
 class MemoryEcPointStore : public IEcPointStore {
@@ -99,6 +108,8 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   uint64_t ItemCount() override;
 
+  void Truncate(uint64_t item_count) override { cache_->Truncate(item_count); }
+
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
     return cache_->LoadBucketItems(bin_idx);
   };
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 23679f2..d4cb7ab 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -16,6 +16,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <filesystem>
 #include <memory>
@@ -67,6 +68,42 @@ void HashBucketCache::Flush() {
   }
 }
 
+void HashBucketCache::Truncate(uint64_t item_count) {
+  Flush();
+  bucket_os_vec_.clear();
+
+  uint64_t kept_count = 0;
+  for (uint32_t i = 0; i < bucket_num_; ++i) {
+    const std::string path = disk_cache_->GetPath(i);
+    const std::string tmp_path = path + ".tmp";
+    {
+      auto in = disk_cache_->CreateInputStream(i);
+      auto out = io::BuildOutputStream(io::FileIoOptions(tmp_path));
+
+      std::string line;
+      while (in->GetLine(&line)) {
+        // the index and the count are complete only if both commas are there
+        if (std::count(line.begin(), line.end(), ',') != 2) {
+          continue;
+        }
+        if (BucketItem::Deserialize(line).index < item_count) {
+          out->Write(line);
+          out->Write("\n");
+          ++kept_count;
+        }
+      }
+      out->Close();
+    }
+    std::filesystem::rename(tmp_path, path);
+  }
+  YACL_ENFORCE(kept_count == item_count,
+               "{} items expected in the cache, but {} found", item_count,
+               kept_count);
+
+  disk_cache_->CreateOutputStreams(bucket_num_, &bucket_os_vec_);
+  item_index_ = item_count;
+}
+
 std::vector<HashBucketCache::BucketItem> HashBucketCache::LoadBucketItems(
     uint32_t index) {
   std::vector<BucketItem> ret;
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..e60640b 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -85,6 +85,10 @@ class HashBucketCache {
 
   void Flush();
 
+  // Keeps the first `item_count` items only, and goes on from there. Incomplete
+  // items left by an interrupted write are dropped as well.
+  void Truncate(uint64_t item_count);
+
   std::vector<BucketItem> LoadBucketItems(uint32_t index);
 
   uint32_t BucketNum() const { return bucket_num_; }
-- 
2.43.0


From 9f2e828bd89ebd06e614eddd79ecc94dd709db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 12/41] fix: a resumed KKRT or RR22 PSI reuses its index file
 safely

A line cut short by the interruption was continued by the next row, and
rows of buckets done again were kept twice.
---
 psi/interface.cc         |  4 +++-
 psi/utils/index_store.cc | 27 ++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..b35a446 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -157,7 +157,9 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SyncWait(lctx_, [&] {
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true, false);
+                 std::vector<std::string>{kIdx}, true,
+                 // Work done again after an interruption is indexed again.
+                 recovery_manager_ != nullptr);
 
     if (role_ == v2::ROLE_RECEIVER ||
         config_.protocol_config().broadcast_result()) {
diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..c29b983 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -30,11 +30,36 @@
 
 namespace psi {
 
+namespace {
+
+// Size of the file up to the end of its last complete line.
+uintmax_t CompleteLinesSize(const std::filesystem::path& path) {
+  std::ifstream file(path, std::ios::binary);
+  auto size = std::filesystem::file_size(path);
+  while (size > 0) {
+    file.seekg(static_cast<std::streamoff>(size - 1));
+    char c = 0;
+    YACL_ENFORCE(file.get(c), "failed to read {}", path.string());
+    if (c == '\n') {
+      break;
+    }
+    --size;
+  }
+  return size;
+}
+
+}  // namespace
+
 IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
-  if (trunc || !std::filesystem::exists(path_)) {
+  if (!trunc && std::filesystem::exists(path_)) {
+    // Drop an incomplete last line left by an interrupted write.
+    std::filesystem::resize_file(path_, CompleteLinesSize(path_));
+  }
+  if (trunc || !std::filesystem::exists(path_) ||
+      std::filesystem::file_size(path_) == 0) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
-- 
2.43.0


From f6006c73987dc093799c49b9cd9766a36754d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 13/41] fix: reading the column names of a csv file leaves
 nothing beside it

---
 psi/utils/arrow_helper.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/psi/utils/arrow_helper.cc b/psi/utils/arrow_helper.cc
index 98ad966..0975170 100644
--- a/psi/utils/arrow_helper.cc
+++ b/psi/utils/arrow_helper.cc
@@ -18,7 +18,9 @@
 #include <fstream>
 #include <ios>
 #include <memory>
+#include <utility>
 
+#include "arrow/buffer.h"
 #include "arrow/csv/api.h"
 #include "arrow/io/api.h"
 #include "yacl/base/exception.h"
@@ -77,27 +79,32 @@ std::vector<std::string> GetCsvColumnsNames(const std::string& path) {
   YACL_ENFORCE(std::filesystem::exists(path), "csv file: {} not exists", path);
   std::ifstream file(path);
 
-  auto tmp_file_name = path + ".temp.csv";
-  std::ofstream ofile(tmp_file_name);
-
+  // The first two lines are enough for arrow to find the columns.
+  std::string head;
   std::string line;
   YACL_ENFORCE(std::getline(file, line), "read csv file first line: {} failed",
                path);
-  ofile << line << '\n';
+  head += line + '\n';
   YACL_ENFORCE(std::getline(file, line), "read csv file second line: {} failed",
                path);
-  ofile << line << '\n';
-  ofile.close();
+  head += line + '\n';
+
+  auto input = std::make_shared<arrow::io::BufferReader>(
+      arrow::Buffer::FromString(std::move(head)));
+  std::shared_ptr<arrow::csv::StreamingReader> reader;
+  PSI_ARROW_GET_RESULT(
+      reader, arrow::csv::StreamingReader::Make(
+                  arrow::io::default_io_context(), input,
+                  arrow::csv::ReadOptions::Defaults(),
+                  arrow::csv::ParseOptions::Defaults(),
+                  arrow::csv::ConvertOptions::Defaults()));
 
-  auto reader = MakeCsvReader(tmp_file_name);
   std::vector<std::string> columns_names;
   for (const auto& column : reader->schema()->fields()) {
     columns_names.push_back(column->name());
   }
   auto status = reader->Close();
-  YACL_ENFORCE(status.ok(), "close csv reader {} failed", tmp_file_name);
-
-  std::filesystem::remove(tmp_file_name);
+  YACL_ENFORCE(status.ok(), "close csv reader of {} failed", path);
 
   return columns_names;
 }
-- 
2.43.0


From 652b85f0d64f0a49d13eac203daa07929bc0b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 14/41] fix: a unique-key input gets no meta file beside it
 that a later task could mistake for its own

---
 psi/utils/table_utils.cc | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index b29c8a7..c06a620 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -376,25 +376,6 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
-  auto meta_path = unique_key_table->Path() + ".meta";
-  if (std::filesystem::exists(meta_path) &&
-      std::filesystem::file_size(meta_path)) {
-    SPDLOG_INFO("meta file {} exists already.", meta_path);
-    proto::KeyInfoMeta meta;
-    LoadJsonFileToPbMessage(meta_path, meta);
-
-    if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
-      return std::shared_ptr<KeyInfo>(
-          new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-    } else {
-      SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
-          std::filesystem::file_size(unique_key_table->Path()),
-          meta.source_file_size());
-    }
-  }
-
   yacl::crypto::Sha256Hash hash;
   uint32_t lines = 0;
   auto provider = unique_key_table->GetProvider(unique_key_table->Keys());
@@ -416,7 +397,6 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
-  DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
       new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-- 
2.43.0


From 28262ecc9ba00da73873a24ce5b57d6905d69d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 15/41] fix: a task removes its temporary directory when it
 ends, whatever other tasks do

---
 psi/algorithm/ecdh/ub_psi/client.cc |  6 +++++
 psi/algorithm/ecdh/ub_psi/client.h  |  2 +-
 psi/algorithm/ecdh/ub_psi/server.cc |  6 +++++
 psi/algorithm/ecdh/ub_psi/server.h  |  2 +-
 psi/interface.cc                    |  6 +++++
 psi/interface.h                     |  3 ++-
 psi/utils/resource_manager.cc       | 34 ++++++++++++++++++++++-------
 psi/utils/resource_manager.h        |  2 ++
 8 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 67c2d2c..898370b 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -32,6 +32,12 @@ EcdhUbPsiClient::EcdhUbPsiClient(const v2::UbPsiConfig& config,
                                  std::shared_ptr<yacl::link::Context> lctx)
     : AbstractUbPsiClient(config, std::move(lctx)) {}
 
+EcdhUbPsiClient::~EcdhUbPsiClient() {
+  if (dir_resource_ != nullptr) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 void EcdhUbPsiClient::Init() {
   YACL_ENFORCE(config_.mode() != v2::UbPsiConfig::MODE_UNSPECIFIED &&
                config_.mode() != v2::UbPsiConfig::MODE_OFFLINE_GEN_CACHE);
diff --git a/psi/algorithm/ecdh/ub_psi/client.h b/psi/algorithm/ecdh/ub_psi/client.h
index 391c914..ada7e04 100644
--- a/psi/algorithm/ecdh/ub_psi/client.h
+++ b/psi/algorithm/ecdh/ub_psi/client.h
@@ -26,7 +26,7 @@ class EcdhUbPsiClient : public AbstractUbPsiClient {
   explicit EcdhUbPsiClient(const v2::UbPsiConfig &config,
                            std::shared_ptr<yacl::link::Context> lctx = nullptr);
 
-  ~EcdhUbPsiClient() override = default;
+  ~EcdhUbPsiClient() override;
 
   void Init() override;
 
diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index 50d0282..cc868fd 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -35,6 +35,12 @@ EcdhUbPsiServer::EcdhUbPsiServer(const v2::UbPsiConfig& config,
                                  std::shared_ptr<yacl::link::Context> lctx)
     : AbstractUbPsiServer(config, std::move(lctx)) {}
 
+EcdhUbPsiServer::~EcdhUbPsiServer() {
+  if (dir_resource_ != nullptr) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 void EcdhUbPsiServer::Init() {
   YACL_ENFORCE(config_.mode() != v2::UbPsiConfig::MODE_UNSPECIFIED);
 
diff --git a/psi/algorithm/ecdh/ub_psi/server.h b/psi/algorithm/ecdh/ub_psi/server.h
index 3f0f69e..892cb67 100644
--- a/psi/algorithm/ecdh/ub_psi/server.h
+++ b/psi/algorithm/ecdh/ub_psi/server.h
@@ -28,7 +28,7 @@ class EcdhUbPsiServer : public AbstractUbPsiServer {
   explicit EcdhUbPsiServer(const v2::UbPsiConfig& config,
                            std::shared_ptr<yacl::link::Context> lctx = nullptr);
 
-  ~EcdhUbPsiServer() override = default;
+  ~EcdhUbPsiServer() override;
 
   void Init() override;
 
diff --git a/psi/interface.cc b/psi/interface.cc
index b35a446..7416ea1 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -48,6 +48,12 @@ AbstractPsiParty::AbstractPsiParty(const v2::PsiConfig &config, v2::Role role,
       selected_keys_(config_.keys().begin(), config_.keys().end()),
       lctx_(std::move(lctx)) {}
 
+AbstractPsiParty::~AbstractPsiParty() {
+  if (dir_resource_ != nullptr) {
+    ResourceManager::GetInstance().RemoveResource(dir_resource_->Name());
+  }
+}
+
 std::filesystem::path AbstractPsiParty::GetTaskDir() {
   if (config_.recovery_config().enabled()) {
     if (recovery_manager_ == nullptr) {
diff --git a/psi/interface.h b/psi/interface.h
index e15fb28..a80b152 100644
--- a/psi/interface.h
+++ b/psi/interface.h
@@ -59,7 +59,8 @@ class AbstractPsiParty {
     return Finalize();
   }
 
-  virtual ~AbstractPsiParty() = default;
+  // Removes the temporary directory of the task.
+  virtual ~AbstractPsiParty();
 
  protected:
   // Including tasks independent to protocol:
diff --git a/psi/utils/resource_manager.cc b/psi/utils/resource_manager.cc
index a93a4c6..03b849d 100644
--- a/psi/utils/resource_manager.cc
+++ b/psi/utils/resource_manager.cc
@@ -14,6 +14,8 @@
 
 #include "psi/utils/resource_manager.h"
 
+#include <system_error>
+
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
 
@@ -27,9 +29,13 @@ void DirResource::Acquire() {
 }
 
 void DirResource::Release() {
-  if (std::filesystem::exists(Name())) {
-    SPDLOG_INFO("remove path: {}", Name());
-    std::filesystem::remove_all(Name());
+  // Called from destructors: a directory that cannot be removed is no reason to
+  // end the process.
+  SPDLOG_INFO("remove path: {}", Name());
+  std::error_code ec;
+  std::filesystem::remove_all(Name(), ec);
+  if (ec) {
+    SPDLOG_WARN("remove path: {} failed: {}", Name(), ec.message());
   }
 }
 
@@ -57,21 +63,33 @@ std::shared_ptr<yacl::link::Context> LinkResource::GetLinkContext() const {
 }
 
 void ResourceManager::AddResource(std::shared_ptr<Resource> resource) {
+  std::lock_guard<std::mutex> lock(mutex_);
   resources_.emplace(resource->Name(), resource);
 }
 
 void ResourceManager::RemoveResource(const std::string& name) {
-  auto iter = resources_.find(name);
-  if (iter != resources_.end()) {
-    iter->second->Release();
+  std::shared_ptr<Resource> resource;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto iter = resources_.find(name);
+    if (iter == resources_.end()) {
+      return;
+    }
+    resource = iter->second;
     resources_.erase(iter);
   }
+  resource->Release();
 }
+
 void ResourceManager::RemoveAllResource() {
-  for (auto& resource : resources_) {
+  std::unordered_map<std::string, std::shared_ptr<Resource>> resources;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    resources.swap(resources_);
+  }
+  for (auto& resource : resources) {
     resource.second->Release();
   }
-  resources_.clear();
 }
 
 std::shared_ptr<DirResource> ResourceManager::AddDirResouce(
diff --git a/psi/utils/resource_manager.h b/psi/utils/resource_manager.h
index 0225386..5bbbdce 100644
--- a/psi/utils/resource_manager.h
+++ b/psi/utils/resource_manager.h
@@ -16,6 +16,7 @@
 
 #include <filesystem>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -83,6 +84,7 @@ class ResourceManager {
 
  private:
   ResourceManager() = default;
+  std::mutex mutex_;
   std::unordered_map<std::string, std::shared_ptr<Resource>> resources_;
 };
 
-- 
2.43.0


From 4262640d9e7243efc3ada9f3d2150678790ccdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 16/41] fix: failed reads and writes of the join files are
 reported, not taken for the end of the data

---
 psi/utils/join_processor.cc |  6 +++++-
 psi/utils/pb_helper.cc      |  2 ++
 psi/utils/table_utils.cc    | 15 ++++++++++++---
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 8e56b34..ca7b2aa 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -294,11 +294,12 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
 
     std::string line;
     std::ifstream ifs(input_path);
-    std::getline(ifs, line);
+    YACL_ENFORCE(std::getline(ifs, line), "failed to read {}", input_path);
 
     while (std::getline(ifs, line)) {
       *ofs << line << '\n';
     }
+    YACL_ENFORCE(!ifs.bad(), "failed to read {}", input_path);
   };
 
   auto write_na = [&](uint32_t na_line_cnt) {
@@ -336,6 +337,9 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
     write_na(peer_except_cnt);
   }
 
+  ofs->close();
+  YACL_ENFORCE(ofs->good(), "failed to write result file {}", output_path_);
+
   SPDLOG_INFO("end generate result file: {}", output_path_);
 }
 
diff --git a/psi/utils/pb_helper.cc b/psi/utils/pb_helper.cc
index edc16af..2d9be15 100644
--- a/psi/utils/pb_helper.cc
+++ b/psi/utils/pb_helper.cc
@@ -32,6 +32,7 @@ void DumpPbMessageToJsonFile(const google::protobuf::Message& msg,
 
   auto ofs = io::GetStdOutFileStream(json_file);
   *ofs << json;
+  ofs->close();
   YACL_ENFORCE(ofs->good(), "save json file {} failed.", json_file);
 }
 
@@ -45,6 +46,7 @@ void LoadJsonFileToPbMessage(const std::string& json_file,
   while (std::getline(ifs, line)) {
     json += line;
   }
+  YACL_ENFORCE(!ifs.bad(), "read json file {} failed.", json_file);
   auto stat = ::google::protobuf::util::JsonStringToMessage(json, &msg);
   YACL_ENFORCE(stat.ok(), "json file: {} to pb failed, status:{}", json_file,
                stat.ToString());
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index c06a620..e5b6b60 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -361,6 +361,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
   write_to_csv({cur_key}, {cur_key_start_index}, {cur_key_dup_cnt});
   out.close();
+  YACL_ENFORCE(out.good(), "failed to write key info {}", path);
 
   proto::KeyInfoMeta meta;
   auto keys_hash = hash.CumulativeHash();
@@ -465,9 +466,12 @@ void ResultDumper::Dump(const std::string& line, int64_t duplicate_cnt,
 void ResultDumper::Flush() {
   if (intersect_file_) {
     intersect_file_->flush();
+    YACL_ENFORCE(intersect_file_->good(), "failed to write {}",
+                 intersect_path_);
   }
   if (except_file_) {
     except_file_->flush();
+    YACL_ENFORCE(except_file_->good(), "failed to write {}", except_path_);
   }
 }
 
@@ -482,7 +486,11 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
   uint32_t inter_unique_cnt = 0;
   std::string line;
   std::ifstream sorted_file(table_->Path());
-  std::getline(sorted_file, line);
+  auto read_line = [&]() {
+    YACL_ENFORCE(std::getline(sorted_file, line), "failed to read {}",
+                 table_->Path());
+  };
+  read_line();
   // dump schema line
   dumper.ToIntersect(line);
   dumper.ToExcept(line);
@@ -496,12 +504,12 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     inter_unique_cnt += inter_index_info.size();
     for (auto& info : inter_index_info) {
       while (sorted_file_index < info.start_index) {
-        std::getline(sorted_file, line);
+        read_line();
         dumper.ToExcept(line);
         sorted_file_index++;
       }
       for (uint32_t i = 0; i <= info.self_dup_cnt; ++i) {
-        std::getline(sorted_file, line);
+        read_line();
         dumper.ToIntersect(line, info.peer_dup_cnt);
       }
       sorted_file_index += info.self_dup_cnt + 1;
@@ -516,6 +524,7 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
     dumper.ToExcept(line);
     sorted_file_index++;
   }
+  YACL_ENFORCE(!sorted_file.bad(), "failed to read {}", table_->Path());
 
   return StatInfo{
       self_intersection_count, peer_intersection_count, sorted_file_index,
-- 
2.43.0


From 77f11aefb1dffbba72f69f7cb56d41c58be6f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 17/41] fix: a store that cannot be flushed when it is dropped
 does not end the process

---
 psi/utils/ec_point_store.cc |  9 ++++++++-
 psi/utils/index_store.cc    | 13 +++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 4cbbddc..2565e4b 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -62,7 +62,14 @@ void HashBucketEcPointStore::Save(const std::string& ciphertext,
 
 uint64_t HashBucketEcPointStore::ItemCount() { return cache_->ItemCount(); }
 
-HashBucketEcPointStore::~HashBucketEcPointStore() { Flush(); }
+HashBucketEcPointStore::~HashBucketEcPointStore() {
+  // A result is only computed from a store flushed explicitly.
+  try {
+    Flush();
+  } catch (const std::exception& e) {
+    SPDLOG_ERROR("flush of ec point store failed: {}", e.what());
+  }
+}
 
 std::vector<uint64_t> FinalizeAndComputeIndices(
     const std::shared_ptr<HashBucketEcPointStore>& self,
diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index c29b983..563774f 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -68,6 +68,7 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
 
       file << absl::StrJoin(fields, ",") << '\n';
       file.close();
+      YACL_ENFORCE(file.good(), "failed to write {}", path_.string());
     }
   }
   outfile_ = io::GetArrowOutputStream(path_, true);
@@ -146,12 +147,16 @@ void IndexWriter::Close() {
 
   Commit();
 
-  if (!outfile_->Close().ok()) {
-    SPDLOG_ERROR("outfile_ close failed.");
-  }
+  YACL_ENFORCE(outfile_->Close().ok(), "failed to close {}", path_.string());
 }
 
-IndexWriter::~IndexWriter() { Close(); }
+IndexWriter::~IndexWriter() {
+  try {
+    Close();
+  } catch (const std::exception& e) {
+    SPDLOG_ERROR("close of {} failed: {}", path_.string(), e.what());
+  }
+}
 
 FileIndexReader::FileIndexReader(const std::filesystem::path& path) {
   YACL_ENFORCE(std::filesystem::exists(path), "Input file {} doesn't exist.",
-- 
2.43.0


From caaa6ba3c1ae7e8497af362154db1a959e358f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 18/41] fix: sorting notices when its input cannot be read
 completely

---
 psi/interface.cc |  2 +-
 psi/utils/key.cc | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 7416ea1..d6e762c 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -163,7 +163,7 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SyncWait(lctx_, [&] {
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true,
+                 std::vector<std::string>{kIdx, kPeerCnt}, true,
                  // Work done again after an interruption is indexed again.
                  recovery_manager_ != nullptr);
 
diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 64b64d2..a995292 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -169,13 +169,14 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 
   int mcpus = GetCpuCount();
 
-  // Sort the csv body and append to out csv.
+  // Sort the csv body and append to out csv. The header is skipped by `read`
+  // and not by another process of a pipeline, whose failure would go unnoticed.
   std::string cmd = fmt::format(
-      "tail -n +2 {} | LC_ALL=C sort {} --parallel={} --buffer-size=1G "
-      "--stable "
-      "--field-separator=, {} {} >>{}",
-      in_csv, numeric_sort ? "-n" : "", mcpus, fmt::join(sort_keys, " "),
-      unique ? "| LC_ALL=C uniq" : "", out_csv);
+      "{{ read -r header && LC_ALL=C sort {} --parallel={} --buffer-size=1G "
+      "{} "
+      "--field-separator=, {}; }} <{} >>{}",
+      numeric_sort ? "-n" : "", mcpus, unique ? "--unique" : "--stable",
+      fmt::join(sort_keys, " "), in_csv, out_csv);
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
-- 
2.43.0


From 849aff7eab0eb64393bf7db6b47de30738249182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 19/41] fix: failed reads and writes of the unbalanced PSI
 caches are reported

---
 psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc | 1 +
 psi/utils/ec_point_store.cc               | 6 +++++-
 psi/utils/table_utils.cc                  | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
index 8317ece..cd4a394 100644
--- a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
+++ b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
@@ -67,6 +67,7 @@ std::vector<UbPsiCacheItem> UbPsiCacheProvider::ReadData(size_t read_count) {
 
   in_.read(reinterpret_cast<char*>(ret.data()),
            read_count * sizeof(UbPsiCacheItem));
+  YACL_ENFORCE(in_.good(), "failed to read cache in {}", file_path_);
 
   return ret;
 }
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 2565e4b..c404efe 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -309,7 +309,7 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 
   ~UbPsiClientCacheFileStoreProvider() override {
     if (buffer_.valid()) {
-      buffer_.get();
+      buffer_.wait();
     }
     if (input_stream_.is_open()) {
       input_stream_.close();
@@ -359,6 +359,7 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
       cache_item.resize(count);
       input_stream_.read(reinterpret_cast<char*>(cache_item.data()),
                          count * sizeof(UbPsiClientCacheFileStore::CacheItem));
+      YACL_ENFORCE(input_stream_.good(), "failed to read ub psi cache");
       read_cnt_ += count;
       return cache_item;
     });
@@ -387,6 +388,8 @@ void UbPsiClientCacheFileStore::DumpMeta() {
       .item_cnt = item_cnt_, .peer_cnt = peer_cnt_, .cipher_len = cipher_len_};
   std::ofstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.write(reinterpret_cast<const char*>(&meta_), sizeof(CacheMeta));
+  meta_stream.close();
+  YACL_ENFORCE(meta_stream.good(), "failed to write cache meta {}", meta_path_);
 }
 
 UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
@@ -431,6 +434,7 @@ UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
 
 void UbPsiClientCacheFileStore::Flush() {
   output_stream_.flush();
+  YACL_ENFORCE(output_stream_.good(), "failed to write cache {}", path_);
   DumpMeta();
 }
 
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index e5b6b60..08d4e88 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -123,7 +123,7 @@ KeysInfoProvider::BatchInfo SortedTableKeysInfoProvider::ReadBatchWithInfo() {
 
 SortedTableKeysInfoProvider::~SortedTableKeysInfoProvider() {
   if (read_future_.valid()) {
-    read_future_.get();
+    read_future_.wait();
   }
 }
 
-- 
2.43.0


From 771d67bcb5e660b9b728d05848d4dd1d74360c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 20/41] Guarded size constants, so that a simulation can reach
 multi-batch paths with small tables

---
 psi/algorithm/ecdh/ecdh_3pc_psi.cc        | 2 +-
 psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h | 4 ++++
 psi/algorithm/ecdh/ub_psi/server.cc       | 8 +++++++-
 psi/algorithm/kkrt/kkrt_psi.cc            | 4 ++++
 psi/algorithm/rr22/rr22_psi.h             | 4 ++++
 psi/algorithm/rr22/rr22_utils.h           | 4 ++++
 psi/legacy/bucket_psi.cc                  | 4 ++++
 psi/legacy/dp_psi/dp_psi.cc               | 4 ++++
 psi/utils/batch_provider_impl.cc          | 6 +++++-
 psi/utils/communication.h                 | 4 ++++
 psi/utils/index_store.h                   | 4 ++++
 psi/utils/table_utils.h                   | 4 ++++
 12 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/ecdh/ecdh_3pc_psi.cc b/psi/algorithm/ecdh/ecdh_3pc_psi.cc
index fb11d7f..7d8f8f2 100644
--- a/psi/algorithm/ecdh/ecdh_3pc_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_3pc_psi.cc
@@ -151,7 +151,7 @@ void EcdhP2PExtendCtx::SendImpl(const std::vector<std::string>& items,
   size_t send_count = 0;
   while (true) {
     size_t curr_step_item_num =
-        std::min(kEcdhPsiBatchSize, items.size() - send_count);
+        std::min<size_t>(kEcdhPsiBatchSize, items.size() - send_count);
     std::vector<absl::string_view> batch_items;
     for (size_t j = 0; j < curr_step_item_num; ++j) {
       batch_items.emplace_back(items[send_count + j]);
diff --git a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
index ef056f8..4df08b4 100644
--- a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
+++ b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.h
@@ -67,7 +67,11 @@ namespace psi::ecdh {
 
 // send queque capacity
 inline constexpr size_t kQueueCapacity = 32;
+#ifdef PSI_SIM_SIZE
+inline constexpr auto kEcdhOprfPsiBatchSize = PSI_SIM_SIZE("oprf_batch", 8192);
+#else
 inline constexpr size_t kEcdhOprfPsiBatchSize = 8192;
+#endif
 
 struct EcdhOprfPsiOptions {
   // Provides the link for server's evaluated data.
diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index cc868fd..6f7d359 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -31,6 +31,12 @@
 
 namespace psi::ecdh {
 
+#ifdef PSI_SIM_SIZE
+constexpr auto kMinCsvBatchSize = PSI_SIM_SIZE("ub_csv_batch", 1000000);
+#else
+constexpr size_t kMinCsvBatchSize = 1000000;
+#endif
+
 EcdhUbPsiServer::EcdhUbPsiServer(const v2::UbPsiConfig& config,
                                  std::shared_ptr<yacl::link::Context> lctx)
     : AbstractUbPsiServer(config, std::move(lctx)) {}
@@ -58,7 +64,7 @@ void EcdhUbPsiServer::Init() {
 
 std::shared_ptr<IBasicBatchProvider> EcdhUbPsiServer::GetInputCsvProvider() {
   return join_processor_->GetUniqueKeysInfo()->GetKeysProviderWithDupCnt(
-      std::max(1000000ul, psi_options_.batch_size));
+      std::max<size_t>(kMinCsvBatchSize, psi_options_.batch_size));
 }
 
 std::shared_ptr<EcdhOprfPsiServer> EcdhUbPsiServer::GetOprfServer(
diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index b6bdad3..febc79c 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -39,7 +39,11 @@ namespace psi::kkrt {
 
 namespace {
 // constexpr size_t kPsiDataBatchSize = 1 << 10;
+#ifdef PSI_SIM_SIZE
+constexpr auto kPsiDataBatchSize = PSI_SIM_SIZE("kkrt_batch", 1024);
+#else
 constexpr size_t kPsiDataBatchSize = 1024;
+#endif
 constexpr size_t kStashSize = 0;
 constexpr size_t kCuckooHashNum = 3;
 constexpr size_t kStatSecParam = 40;
diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index 5001f4e..66f62af 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -74,7 +74,11 @@ struct Rr22PsiOptions {
   bool malicious = false;
 
   yacl::crypto::CodeType code_type = yacl::crypto::CodeType::ExAcc7;
+#ifdef PSI_SIM_SIZE
+  const size_t oprf_bin_size = PSI_SIM_SIZE("rr22_bin", 1 << 14);
+#else
   const size_t oprf_bin_size = 1 << 14;
+#endif
 };
 
 using PreProcessFunc =
diff --git a/psi/algorithm/rr22/rr22_utils.h b/psi/algorithm/rr22/rr22_utils.h
index 10352a5..07cc7ca 100644
--- a/psi/algorithm/rr22/rr22_utils.h
+++ b/psi/algorithm/rr22/rr22_utils.h
@@ -25,7 +25,11 @@
 
 namespace psi::rr22 {
 
+#ifdef PSI_SIM_SIZE
+inline constexpr auto kSendChunkSize = PSI_SIM_SIZE("rr22_chunk", 100000);
+#else
 constexpr size_t kSendChunkSize = 100000;
+#endif
 
 std::vector<uint32_t> GetIntersectionReceiver(
     std::vector<uint128_t> self_oprfs, size_t peer_items_num,
diff --git a/psi/legacy/bucket_psi.cc b/psi/legacy/bucket_psi.cc
index e042d6c..ff8bb21 100644
--- a/psi/legacy/bucket_psi.cc
+++ b/psi/legacy/bucket_psi.cc
@@ -48,7 +48,11 @@ namespace psi {
 
 namespace {
 
+#ifdef PSI_SIM_SIZE
+constexpr auto kBucketSize = PSI_SIM_SIZE("legacy_bucket", 1 << 20);
+#else
 constexpr size_t kBucketSize = 1 << 20;
+#endif
 
 class ProgressLoop {
  public:
diff --git a/psi/legacy/dp_psi/dp_psi.cc b/psi/legacy/dp_psi/dp_psi.cc
index 2dd7cdf..8680477 100644
--- a/psi/legacy/dp_psi/dp_psi.cc
+++ b/psi/legacy/dp_psi/dp_psi.cc
@@ -38,7 +38,11 @@ namespace psi::dp_psi {
 
 namespace {
 
+#ifdef PSI_SIM_SIZE
+constexpr auto kSendBatchSize = PSI_SIM_SIZE("dp_batch", 8192);
+#else
 constexpr uint64_t kSendBatchSize = 8192;
+#endif
 
 std::vector<size_t> BernoulliSamples(const std::vector<size_t>& items_idx,
                                      double q) {
diff --git a/psi/utils/batch_provider_impl.cc b/psi/utils/batch_provider_impl.cc
index 54fbe86..d715fb1 100644
--- a/psi/utils/batch_provider_impl.cc
+++ b/psi/utils/batch_provider_impl.cc
@@ -39,7 +39,11 @@
 namespace psi {
 
 namespace {
+#ifdef PSI_SIM_SIZE
+constexpr auto kDefaultBatchSize = PSI_SIM_SIZE("provider_batch", 1 << 20);
+#else
 constexpr size_t kDefaultBatchSize = 1 << 20;
+#endif
 }
 
 MemoryBatchProvider::MemoryBatchProvider(const std::vector<std::string>& items,
@@ -158,7 +162,7 @@ SimpleShuffledBatchProvider::SimpleShuffledBatchProvider(
     size_t batch_size)
     : batch_size_(batch_size) {
   provider_ = std::make_shared<ArrowCsvBatchProvider>(
-      path, target_fields, std::max(batch_size * 2, kDefaultBatchSize));
+      path, target_fields, std::max<size_t>(batch_size * 2, kDefaultBatchSize));
   Init();
 }
 
diff --git a/psi/utils/communication.h b/psi/utils/communication.h
index 6733b7d..770ee6d 100644
--- a/psi/utils/communication.h
+++ b/psi/utils/communication.h
@@ -26,7 +26,11 @@
 
 namespace psi {
 
+#ifdef PSI_SIM_SIZE
+inline constexpr auto kEcdhPsiBatchSize = PSI_SIM_SIZE("ecdh_batch", 4096);
+#else
 inline constexpr size_t kEcdhPsiBatchSize = 4096;
+#endif
 
 // Ecc256 requires 32 bytes.
 inline constexpr size_t kKeySize = 32;
diff --git a/psi/utils/index_store.h b/psi/utils/index_store.h
index 131be8d..8670c17 100644
--- a/psi/utils/index_store.h
+++ b/psi/utils/index_store.h
@@ -35,7 +35,11 @@ namespace psi {
 constexpr char kIdx[] = "psi_index";
 constexpr char kPeerCnt[] = "psi_peer_cnt";
 
+#ifdef PSI_SIM_SIZE
+inline constexpr auto kIndexWriterCacheSize = PSI_SIM_SIZE("index_cache", 1 << 10);
+#else
 constexpr size_t kIndexWriterCacheSize = 1 << 10;
+#endif
 
 class IndexWriter {
  public:
diff --git a/psi/utils/table_utils.h b/psi/utils/table_utils.h
index 2a2a63d..4224884 100644
--- a/psi/utils/table_utils.h
+++ b/psi/utils/table_utils.h
@@ -36,7 +36,11 @@
 
 namespace psi {
 
+#ifdef PSI_SIM_SIZE
+inline constexpr auto kBatchSize = PSI_SIM_SIZE("table_batch", 1 << 16);
+#else
 constexpr size_t kBatchSize = 1 << 16;
+#endif
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns);
 
-- 
2.43.0


From 44a6a29fcfa4f2ce14d462a8d75f47658f927226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 21/41] fix: a failing thread of an OKVS encoding throws
 instead of ending the process

---
 psi/algorithm/rr22/okvs/baxos.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 7c7bca0..46a52c4 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -16,7 +16,10 @@
 
 #include <algorithm>
 #include <array>
+#include <exception>
 #include <future>
+#include <mutex>
+#include <thread>
 #include <unordered_set>
 #include <vector>
 
@@ -444,17 +447,41 @@ void Baxos::ImplParSolve(
     }
   };
 
+  // a failing thread must neither end the process nor leave the others waiting
+  // for its share of the hashing; the first error is thrown to the caller.
+  std::mutex error_mutex;
+  std::exception_ptr error;
+  auto guarded_routine = [&](uint64_t thrd_idx) {
+    try {
+      routine(thrd_idx);
+    } catch (...) {
+      std::lock_guard<std::mutex> lock(error_mutex);
+      if (!error) {
+        error = std::current_exception();
+        try {
+          hashing_done_prom.set_exception(error);
+        } catch (const std::future_error&) {
+          // the hashing was already done
+        }
+      }
+    }
+  };
+
   std::vector<std::thread> thrds(num_threads - 1);
 
   for (uint64_t i = 0; i < thrds.size(); ++i) {
-    thrds[i] = std::thread(routine, i);
+    thrds[i] = std::thread(guarded_routine, i);
   }
 
-  routine(thrds.size());
+  guarded_routine(thrds.size());
 
   for (uint64_t i = 0; i < thrds.size(); ++i) {
     thrds[i].join();
   }
+
+  if (error) {
+    std::rethrow_exception(error);
+  }
 }
 
 void Baxos::Decode(absl::Span<const uint128_t> inputs,
-- 
2.43.0


From 0a381d5423c02c52f8c84de6871ecae2edcf8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 22/41] fix: size the received shares of KmprtParty by the
 number of parties

SwapShares and Reconstruct index the received shares by rank but allocated one
entry per item, so a set smaller than the number of parties wrote past the end.
---
 experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
index d8a38ec..5c88a15 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
@@ -97,7 +97,7 @@ auto KmprtParty::SwapShares(const std::vector<uint128_t>& items,
                             const std::vector<Share>& shares) const -> Share {
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = shares.front().size();
-  std::vector<Share> recv_shares(count);
+  std::vector<Share> recv_shares(wsize);
   std::vector<std::future<Share>> futures(wsize);
   // NOTE: First Send Then Receive for peers of smaller ranks
   for (size_t id{}; id != me; ++id) {
@@ -136,7 +136,7 @@ auto KmprtParty::Reconstruct(const std::vector<uint128_t>& items,
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = items.size();
   if (me == leader) {
-    std::vector<Share> recv_shares(count);
+    std::vector<Share> recv_shares(wsize);
     std::vector<std::future<Share>> futures(wsize);
     for (size_t src{}; src != wsize; ++src) {
       if (me != src) {
-- 
2.43.0


From 6a4654a40b88a5d1af1af849fd14105af632c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 23/41] fix: give every Baxos thread its own generator

A randomised encoding handed one generator to all threads, which is not safe to
share.
---
 psi/algorithm/rr22/okvs/baxos.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 46a52c4..d5e7a0c 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -252,6 +252,17 @@ void Baxos::ImplParSolve(
   std::promise<void> hashing_done_prom;
   auto hashing_done_fu = hashing_done_prom.get_future().share();
 
+  // a generator is not safe to share, every thread has its own.
+  std::vector<std::shared_ptr<yacl::crypto::Prg<uint8_t>>> thrd_prngs(
+      num_threads);
+  if (prng) {
+    for (auto& thrd_prng : thrd_prngs) {
+      uint128_t seed = 0;
+      prng->Fill(absl::MakeSpan(&seed, 1));
+      thrd_prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(seed);
+    }
+  }
+
   auto routine = [&](uint64_t thrd_idx) {
     auto begin = (inputs_param.size() * thrd_idx) / num_threads;
     auto end = (inputs_param.size() * (thrd_idx + 1)) / num_threads;
@@ -443,7 +454,7 @@ void Baxos::ImplParSolve(
 
       paxos.SetInput(rows_mtx, hashes, cols, col_backing, col_weights);
 
-      paxos.Encode(values, output, h, prng);
+      paxos.Encode(values, output, h, thrd_prngs[thrd_idx]);
     }
   };
 
-- 
2.43.0


From 84c5bfa9da9038370ce059bd8e50f783b8e2a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 24/41] fix: NtyMPsi returns items some parties do not hold,
 and fails on empty sets

The encodings left their free columns at zero, so that an item only the helper
and the receiver hold decodes to zero at both with a high probability and enters
the intersection; randomise them. When a party has no item the intersection is
empty and there is nothing to encode.
---
 psi/algorithm/nty/nty_mp_psi.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..e8f0971 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -20,6 +20,7 @@
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/hash/hash_utils.h"
 #include "yacl/crypto/rand/rand.h"
+#include "yacl/crypto/tools/prg.h"
 #include "yacl/utils/serialize.h"
 
 #include "psi/algorithm/rr22/okvs/baxos.h"
@@ -87,6 +88,10 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    // the intersection with an empty set is empty, there is nothing to encode
+    return;
+  }
   // It is recommended that the party with smaller set be designated as
   // p0 and pi(i > 2), the party with larger set be designated as p1 and p2.
   if (self_rank == options_.aided_server_rank) {
@@ -233,6 +238,10 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
                             std::vector<uint128_t>& intersection) {
   auto [ctx, wsize, self_rank] = CollectContext();
   auto counts = AllGatherItemsSize(ctx, inputs.size());
+  if (std::find(counts.begin(), counts.end(), 0) != counts.end()) {
+    // the intersection with an empty set is empty, there is nothing to encode
+    return;
+  }
 
   if (self_rank == options_.aided_server_rank) {
     // gen okvs and prf key
@@ -337,7 +346,12 @@ void NtyMPsi::GenOkvs(const std::vector<uint128_t>& items,
   std::vector<uint128_t> p128_v(baxos.size(), 0);
   auto p128_span = absl::MakeSpan(p128_v);
   auto hashed_span = absl::MakeSpan(hashed_items);
-  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, nullptr,
+  // the free columns have to be random: left at zero, an item that was not
+  // encoded often decodes to zero, and one that only the helper and the receiver
+  // hold then ends up in the intersection.
+  auto prng =
+      std::make_shared<yacl::crypto::Prg<uint8_t>>(yacl::crypto::RandU128());
+  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, prng,
               options_.num_threads);
   psi::rr22::SendChunked(ctx, p128_span);
 }
-- 
2.43.0


From 9fd0c1c3d4103b77df967d998535e50d1aa96ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 25/41] fix: a client cache of unbalanced PSI that ends with a
 torn item is not appended to

---
 psi/utils/ec_point_store.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index c404efe..3eb8724 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -407,8 +407,11 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
   }
 
   output_stream_ = std::fstream(path_, std::ios::app | std::ios::binary);
-  item_cnt_ = std::filesystem::file_size(path_) /
-              sizeof(UbPsiClientCacheFileStore::CacheItem);
+  const auto file_size = std::filesystem::file_size(path_);
+  // Items appended behind a torn one would all be read shifted.
+  YACL_ENFORCE(file_size % sizeof(CacheItem) == 0,
+               "cache {} ends with an incomplete item", path_);
+  item_cnt_ = file_size / sizeof(CacheItem);
 
   if (std::filesystem::exists(meta_path_)) {
     LoadMeta();
-- 
2.43.0


From 10aed91e48ce7afb8a7d154d4c6ff28778890e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 26/41] fix: threshold ECDH PSI stored the duplicate count of
 another item of the shuffled batch

---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index 8710228..c972d40 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -103,7 +103,7 @@ void ThresholdEcdhPsiCtx::MaskAndShufflePeer(
       for (size_t i = 0; i < dual_masked_peers.size(); ++i) {
         shuffled_items[i] = std::move(dual_masked_peers[shuffled_indices[i]]);
         cache->SaveData(item_count + i, item_count + shuffled_indices[i],
-                        dup_cnts[i]);
+                        dup_cnts[shuffled_indices[i]]);
       }
     }
 
-- 
2.43.0


From bfa1c2e4d70ea173bee00029ca3a4cfb02d48606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 27/41] fix: equal inputs skipped the intersection threshold
 when check_hash_digest is on

---
 psi/interface.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index d6e762c..d437e34 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -101,7 +101,8 @@ void AbstractPsiParty::Init() {
   // Check if the input are the same between receiver and sender.
   // current only support unique keys input check
   // TODO(huocun): support dup keys input
-  if (config_.check_hash_digest()) {
+  // With a threshold even equal inputs are revealed only up to it.
+  if (config_.check_hash_digest() && config_.intersection_threshold() == 0) {
     auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);
     auto all_unique = std::all_of(unique_flag.begin(), unique_flag.end(),
                                   [](auto flag) { return flag; });
-- 
2.43.0


From 7009a5d58a7f69500be5b25f457c2fe264459cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 28/41] fix: a restarted threshold ECDH PSI mixed the shuffled
 items of two attempts

---
 .../threshold_ecdh_psi/threshold_ecdh_psi.cc  | 42 +++++++------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index c972d40..dcbf54f 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -24,25 +24,17 @@ namespace psi::ecdh {
 constexpr int kLogBatchInterval = 10;
 
 namespace {
-uint64_t GetProcessedItemCnt(const EcdhPsiOptions& options,
-                             const EcdhPsiContext& handler) {
-  uint64_t processed_item_cnt = 0;
-  if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
-    processed_item_cnt =
-        std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                 options.recovery_manager->checkpoint()
-                     .ecdh_dual_masked_item_self_count());
-  } else if (handler.SelfCanTouchResults() && !handler.PeerCanTouchResults()) {
-    processed_item_cnt = options.recovery_manager->checkpoint()
-                             .ecdh_dual_masked_item_self_count();
-  } else {
-    processed_item_cnt =
-        options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
+// The sender cannot tell which items of the receiver the shuffled items stored
+// before an interruption belong to, so an online stage which did not finish is
+// run again from the first item.
+void RestartOnlineStage(
+    const EcdhPsiOptions& options,
+    const std::shared_ptr<IEcPointStore>& self_ec_point_store,
+    const std::shared_ptr<IEcPointStore>& peer_ec_point_store) {
+  if (options.recovery_manager) {
+    self_ec_point_store->Truncate(0);
+    peer_ec_point_store->Truncate(0);
   }
-
-  SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
-
-  return processed_item_cnt;
 }
 }  // namespace
 
@@ -228,15 +220,12 @@ void RunSender(const EcdhPsiOptions& options,
   std::shared_ptr<ThresholdEcdhPsiCache> cache =
       std::make_shared<ThresholdEcdhPsiCache>(cache_path);
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
+  RestartOnlineStage(options, self_ec_point_store, peer_ec_point_store);
 
   // Sender mask self items then send them to receiver.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
@@ -283,15 +272,12 @@ void RunReceiver(const EcdhPsiOptions& options,
   ThresholdEcdhPsiCtx handler(options);
   handler.CheckConfig();
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
+  RestartOnlineStage(options, self_ec_point_store, peer_ec_point_store);
 
   // Receiver mask self items then send them to sender.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
-- 
2.43.0


From 9a8054a4bafdab638387b721b8cc10ff0f374c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 29/41] fix: threshold ECDH PSI took a failed read of its cache
 for data

---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc
index 0768bf1..b1d62c0 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi_cache.cc
@@ -81,6 +81,7 @@ std::vector<ThresholdEcdhPsiCacheItem> ThresholdEcdhPsiCacheProvider::ReadData(
 
   in_.read(reinterpret_cast<char*>(ret.data()),
            read_count * sizeof(ThresholdEcdhPsiCacheItem));
+  YACL_ENFORCE(in_.good(), "failed to read {} items of the cache", read_count);
 
   return ret;
 }
@@ -88,6 +89,7 @@ std::vector<ThresholdEcdhPsiCacheItem> ThresholdEcdhPsiCacheProvider::ReadData(
 void ThresholdEcdhPsiCacheProvider::LoadMeta() {
   std::ifstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.read(reinterpret_cast<char*>(&cache_cnt_), sizeof(cache_cnt_));
+  YACL_ENFORCE(meta_stream.good(), "failed to read {}", meta_path_.string());
 }
 
 ThresholdEcdhPsiCache::ThresholdEcdhPsiCache(
@@ -116,6 +118,8 @@ void ThresholdEcdhPsiCache::DumpMeta() {
   std::ofstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.write(reinterpret_cast<const char*>(&cache_cnt_),
                     sizeof(cache_cnt_));
+  meta_stream.close();
+  YACL_ENFORCE(meta_stream.good(), "failed to write {}", meta_path_.string());
 }
 
 }  // namespace psi::ecdh
\ No newline at end of file
-- 
2.43.0


From 7e87712fc02fe0f4b219ad03ce23e6d67ffa0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 30/41] fix: equal inputs of differentially private PSI were
 revealed without noise

---
 psi/legacy/bucket_psi.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/psi/legacy/bucket_psi.cc b/psi/legacy/bucket_psi.cc
index ff8bb21..39a165d 100644
--- a/psi/legacy/bucket_psi.cc
+++ b/psi/legacy/bucket_psi.cc
@@ -297,10 +297,14 @@ PsiResultReport BucketPsi::Run(ProgressCallbacks progress_callbacks,
                    config_.input_params().precheck());
     report.set_original_count(checker->data_count());
 
-    // gather others hash digest
-    std::vector<yacl::Buffer> digest_buf_list =
-        yacl::link::AllGather(lctx_, checker->hash_digest(), "PSI:SYNC_DIGEST");
-    digest_equal = HashListEqualTest(digest_buf_list);
+    // Equal inputs are given out whole and exact, which is not what a
+    // differentially private result may reveal.
+    if (config_.psi_type() != PsiType::DP_PSI_2PC) {
+      // gather others hash digest
+      std::vector<yacl::Buffer> digest_buf_list = yacl::link::AllGather(
+          lctx_, checker->hash_digest(), "PSI:SYNC_DIGEST");
+      digest_equal = HashListEqualTest(digest_buf_list);
+    }
 
     // run psi
     auto psi_progress = progress->NextSubProgress("RunPsi");
-- 
2.43.0


From eb1690d0217ad05071b11008391655030cf03ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 31/41] fix: piano lost track of a query that followed an
 unanswered mask query

---
 experiment/pir/piano/client.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiment/pir/piano/client.cc b/experiment/pir/piano/client.cc
index 818685c..e48ee28 100644
--- a/experiment/pir/piano/client.cc
+++ b/experiment/pir/piano/client.cc
@@ -200,6 +200,8 @@ yacl::Buffer QueryServiceClient::GenerateMaskQuery() const {
 
 yacl::Buffer QueryServiceClient::GenerateIndexQuery(uint64_t query_index) {
   ctx_.current_query_index = query_index;
+  // The reply to an earlier mask query may never have been recovered
+  ctx_.is_mask_query = false;
   // Make sure x is not in the local cache
   if (local_cache_.find(query_index) != local_cache_.end()) {
     ctx_.is_mask_query = true;
-- 
2.43.0


From 75da11735ccd4af36dfc6f4f8576c881a24eb532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:46 +0000
Subject: [PATCH 32/41] fix: SimplePIR computed its noise and its phase modulo
 2^64 instead of q

---
 experiment/pir/simplepir/client.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 3470a2a..7ef85ce 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -72,7 +72,10 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
   std::vector<uint64_t> qu(row_num);
   for (size_t i = 0; i < row_num; i++) {
     qu[i] = InnerProductModq(A_[i], s_, q_) + u_i_col[i];
-    qu[i] += static_cast<uint64_t>(error_vec[i]);
+    // A negative error e is the residue q - |e|
+    const int error = error_vec[i];
+    qu[i] += error >= 0 ? static_cast<uint64_t>(error)
+                        : q_ - static_cast<uint64_t>(-error) % q_;
     qu[i] %= q_;
   }
 
@@ -81,7 +84,9 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
 
 uint64_t SimplePirClient::Recover(const std::vector<uint64_t> &ans) {
   // Computes d_ = ans - hint*s mod q
-  uint64_t phase = ans[idx_row_] - InnerProductModq(hint_[idx_row_], s_, q_);
+  const uint64_t mask = InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t phase = ans[idx_row_] % q_;
+  phase = phase >= mask ? phase - mask : phase + (q_ - mask);
 
   // Handles modular rounding: Map from Z_q to Z_p
   uint64_t d =
-- 
2.43.0


From 0763f6e265a5bb7ff59f8e34cba81d49c744f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:45 +0000
Subject: [PATCH 33/41] fix: lists of keys that read the same when concatenated
 counted as equal inputs

---
 psi/utils/csv_checker.cc | 2 +-
 psi/utils/key.cc         | 4 ++++
 psi/utils/key.h          | 5 +++++
 psi/utils/table_utils.cc | 4 ++--
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..0c71c97 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,7 +101,7 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
-      hash_obj.Update(combined_id);
+      hash_obj.Update(DelimitedKey(combined_id));
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
         keys_os->Write("\n", 1);
diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index a995292..76d6029 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -187,4 +187,8 @@ std::string KeysJoin(const std::vector<absl::string_view>& keys, char sep) {
   return absl::StrJoin(keys, std::string(&sep, 1));
 }
 
+std::string DelimitedKey(absl::string_view key) {
+  return std::to_string(key.size()) + ":" + std::string(key);
+}
+
 }  // namespace psi
diff --git a/psi/utils/key.h b/psi/utils/key.h
index 907cc61..bd3a52a 100644
--- a/psi/utils/key.h
+++ b/psi/utils/key.h
@@ -40,4 +40,9 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 std::string KeysJoin(const std::vector<absl::string_view>& keys,
                      char sep = ',');
 
+// The key with its length in front. Keys are hashed in this form, so that two
+// lists of keys do not have the same hash only because they read the same when
+// written one after the other.
+std::string DelimitedKey(absl::string_view key);
+
 }  // namespace psi
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 08d4e88..4398766 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -308,7 +308,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
-      hash.Update(keys[i]);
+      hash.Update(DelimitedKey(keys[i]));
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -385,7 +385,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
-      hash.Update(item);
+      hash.Update(DelimitedKey(item));
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From e082bb6c843cb704e99f181cf1d5b49336496ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:52 +0000
Subject: [PATCH 34/41] fix: keys that hold a quote were written to the key
 info without escaping it

---
 psi/utils/table_utils.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 4398766..8c3bbdc 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -309,8 +309,15 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       hash.Update(DelimitedKey(keys[i]));
-      out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
-          << dup_cnts[i] << '\n';
+      out << '"';
+      for (char c : keys[i]) {
+        // a quote inside of a quoted value is written twice
+        if (c == '"') {
+          out << c;
+        }
+        out << c;
+      }
+      out << '"' << ',' << start_index[i] << ',' << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
         duplicate_key_cnt++;
       }
-- 
2.43.0


From 6215fc9137b50bf10a62a2521f8b65ec60e20e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:51 +0000
Subject: [PATCH 35/41] fix: sorting took commas within quoted values for
 separators

---
 psi/utils/key.cc | 121 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 115 insertions(+), 6 deletions(-)

diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 76d6029..1e533a5 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -16,12 +16,14 @@
 
 #include <omp.h>
 
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 
 #include "fmt/ranges.h"
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
+#include "yacl/utils/scope_guard.h"
 
 #include "psi/utils/arrow_helper.h"
 #include "psi/utils/io.h"
@@ -50,6 +52,88 @@ int ParseCpuset(const std::string& cpuset) {
   return count;
 }
 
+// Separates keys that are put in front of a line.
+constexpr char kKeySeparator = '\x1f';
+
+bool HasQuotedLine(const std::string& csv) {
+  std::ifstream in(csv);
+  std::string line;
+  std::getline(in, line);
+  while (std::getline(in, line)) {
+    if (line.find('"') != std::string::npos) {
+      return true;
+    }
+  }
+  YACL_ENFORCE(!in.bad(), "failed to read {}", csv);
+  return false;
+}
+
+// The values of a CSV line, without the quotes around them.
+std::vector<std::string> SplitCsvLine(const std::string& line) {
+  std::vector<std::string> values(1);
+  bool quoted = false;
+  for (size_t i = 0; i < line.size(); ++i) {
+    const char c = line[i];
+    if (quoted) {
+      if (c != '"') {
+        values.back() += c;
+      } else if (i + 1 < line.size() && line[i + 1] == '"') {
+        values.back() += c;
+        ++i;
+      } else {
+        quoted = false;
+      }
+    } else if (c == ',') {
+      values.emplace_back();
+    } else if (c == '"' && values.back().empty()) {
+      quoted = true;
+    } else if (c != '\r' || i + 1 < line.size()) {
+      values.back() += c;
+    }
+  }
+  return values;
+}
+
+void AddKeysToLines(const std::string& in_csv, const std::string& out_csv,
+                    const std::vector<size_t>& key_indices) {
+  std::ifstream in(in_csv);
+  std::ofstream out(out_csv);
+  std::string line;
+  std::getline(in, line);
+  out << line << '\n';
+  while (std::getline(in, line)) {
+    const auto values = SplitCsvLine(line);
+    for (auto index : key_indices) {
+      out << (index < values.size() ? values[index] : "") << kKeySeparator;
+    }
+    out << line << '\n';
+  }
+  YACL_ENFORCE(!in.bad(), "failed to read {}", in_csv);
+  out.close();
+  YACL_ENFORCE(out.good(), "failed to write {}", out_csv);
+}
+
+// Appends the lines of in_csv to out_csv, each without the keys in its front.
+void RemoveKeysFromLines(const std::string& in_csv, const std::string& out_csv,
+                         size_t key_num) {
+  std::ifstream in(in_csv);
+  YACL_ENFORCE(in.good(), "failed to open {}", in_csv);
+  std::ofstream out(out_csv, std::ios::app);
+  std::string line;
+  while (std::getline(in, line)) {
+    size_t pos = 0;
+    for (size_t i = 0; i < key_num; ++i) {
+      pos = line.find(kKeySeparator, pos);
+      YACL_ENFORCE(pos != std::string::npos, "unexpected line in {}", in_csv);
+      ++pos;
+    }
+    out.write(line.data() + pos, line.size() - pos) << '\n';
+  }
+  YACL_ENFORCE(!in.bad(), "failed to read {}", in_csv);
+  out.close();
+  YACL_ENFORCE(out.good(), "failed to write {}", out_csv);
+}
+
 int GetCpuCount() {
   // 1. check cpuset
   std::ifstream cpuset_file("/sys/fs/cgroup/cpuset/cpuset.cpus");
@@ -141,13 +225,33 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
     out->Close();
   }
 
-  // Construct sort key indices.
-  std::vector<std::string> sort_keys;
-  for (auto key : keys) {
+  std::vector<size_t> key_indices;
+  for (const auto& key : keys) {
     auto index = schema->GetFieldIndex(key);
     YACL_ENFORCE(index >= 0, "field {} is not found in {}", key, in_csv);
+    key_indices.push_back(index);
+  }
+
+  // `sort` takes every comma for a separator, those within quotes too. Lines
+  // of a file with quoted values are sorted with their bare keys in front.
+  const bool keyed = HasQuotedLine(in_csv);
+  const std::string keyed_csv = out_csv + ".keyed";
+  const std::string sorted_csv = out_csv + ".keyed.sorted";
+  ON_SCOPE_EXIT([&] {
+    std::error_code ec;
+    std::filesystem::remove(keyed_csv, ec);
+    std::filesystem::remove(sorted_csv, ec);
+  });
+  if (keyed) {
+    std::filesystem::remove(sorted_csv);
+    AddKeysToLines(in_csv, keyed_csv, key_indices);
+  }
+
+  // Construct sort key indices.
+  std::vector<std::string> sort_keys;
+  for (size_t i = 0; i < keys.size(); ++i) {
     // NOTE: `sort` cmd starts from index 1.
-    auto sort_index = index + 1;
+    auto sort_index = (keyed ? i : key_indices[i]) + 1;
     // About `sort --key=KEYDEF`
     //
     // KEYDEF is F[.C][OPTS][,F[.C][OPTS]] for start and stop position, where
@@ -174,13 +278,18 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
   std::string cmd = fmt::format(
       "{{ read -r header && LC_ALL=C sort {} --parallel={} --buffer-size=1G "
       "{} "
-      "--field-separator=, {}; }} <{} >>{}",
+      "--field-separator='{}' {}; }} <{} >>{}",
       numeric_sort ? "-n" : "", mcpus, unique ? "--unique" : "--stable",
-      fmt::join(sort_keys, " "), in_csv, out_csv);
+      keyed ? kKeySeparator : ',', fmt::join(sort_keys, " "),
+      keyed ? keyed_csv : in_csv, keyed ? sorted_csv : out_csv);
   SPDLOG_INFO("Executing sort scripts: {}", cmd);
   int ret = system(cmd.c_str());
   SPDLOG_INFO("Finished sort scripts: {}, ret={}", cmd, ret);
   YACL_ENFORCE(ret == 0, "failed to execute cmd={}, ret={}", cmd, ret);
+
+  if (keyed) {
+    RemoveKeysFromLines(sorted_csv, out_csv, keys.size());
+  }
 }
 
 std::string KeysJoin(const std::vector<absl::string_view>& keys, char sep) {
-- 
2.43.0


From a0cbc3d7f6ef797781695453fd0a800609ff5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 36/41] fix: keys of several columns could be joined into the
 same string

---
 psi/utils/arrow_csv_batch_provider.cc |  2 +-
 psi/utils/csv_checker.cc              |  2 +-
 psi/utils/key.cc                      | 25 +++++++++++++++++++++++++
 psi/utils/key.h                       |  6 ++++++
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/psi/utils/arrow_csv_batch_provider.cc b/psi/utils/arrow_csv_batch_provider.cc
index 0e90fbb..ef6542f 100644
--- a/psi/utils/arrow_csv_batch_provider.cc
+++ b/psi/utils/arrow_csv_batch_provider.cc
@@ -121,7 +121,7 @@ void ArrowCsvBatchProvider::ReadBatch(std::vector<std::string>* read_keys,
           values.emplace_back(arrays_[i]->Value(idx_in_batch_));
         }
 
-        read_keys->emplace_back(KeysJoin(values, delimiter_));
+        read_keys->emplace_back(KeyColumnsJoin(values, delimiter_));
       }
 
       if (read_labels != nullptr && !labels_.empty()) {
diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index 0c71c97..6b2b773 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -100,7 +100,7 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       }
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
-      std::string combined_id = KeysJoin(chosen);
+      std::string combined_id = KeyColumnsJoin(chosen);
       hash_obj.Update(DelimitedKey(combined_id));
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
diff --git a/psi/utils/key.cc b/psi/utils/key.cc
index 1e533a5..0f92731 100644
--- a/psi/utils/key.cc
+++ b/psi/utils/key.cc
@@ -20,6 +20,10 @@
 #include <fstream>
 #include <sstream>
 
+#include "absl/strings/match.h"
+#include "absl/strings/str_cat.h"
+#include "absl/strings/str_join.h"
+#include "absl/strings/str_replace.h"
 #include "fmt/ranges.h"
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
@@ -296,6 +300,27 @@ std::string KeysJoin(const std::vector<absl::string_view>& keys, char sep) {
   return absl::StrJoin(keys, std::string(&sep, 1));
 }
 
+std::string KeyColumnsJoin(const std::vector<absl::string_view>& keys,
+                           char sep) {
+  if (keys.size() < 2) {
+    return KeysJoin(keys, sep);
+  }
+
+  std::string joined;
+  for (size_t i = 0; i < keys.size(); ++i) {
+    if (i > 0) {
+      joined += sep;
+    }
+    if (!absl::StrContains(keys[i], sep) && !absl::StrContains(keys[i], '"')) {
+      absl::StrAppend(&joined, keys[i]);
+    } else {
+      absl::StrAppend(&joined, "\"",
+                      absl::StrReplaceAll(keys[i], {{"\"", "\"\""}}), "\"");
+    }
+  }
+  return joined;
+}
+
 std::string DelimitedKey(absl::string_view key) {
   return std::to_string(key.size()) + ":" + std::string(key);
 }
diff --git a/psi/utils/key.h b/psi/utils/key.h
index bd3a52a..d08a8b5 100644
--- a/psi/utils/key.h
+++ b/psi/utils/key.h
@@ -40,6 +40,12 @@ void MultiKeySort(const std::string& in_csv, const std::string& out_csv,
 std::string KeysJoin(const std::vector<absl::string_view>& keys,
                      char sep = ',');
 
+// KeysJoin for the columns of a key: with more than one column, values that
+// hold the separator or a quote are quoted as in CSV, so that different keys
+// are never joined into the same string.
+std::string KeyColumnsJoin(const std::vector<absl::string_view>& keys,
+                           char sep = ',');
+
 // The key with its length in front. Keys are hashed in this form, so that two
 // lists of keys do not have the same hash only because they read the same when
 // written one after the other.
-- 
2.43.0


From ae6891149aa1692696f0731d21658ccce8d850a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 37/41] fix: SpiralServer forgets the old partitions when its
 database is replaced

GenerateFromRawData, GenerateFromSimpleHashTable and
GenerateFromRawDataAndReorient appended the partitions of a database with
rows wider than a plaintext to those of the previous one, so that queries
were answered from the old database and a dump could not be loaded.
---
 psi/algorithm/spiral/spiral_server.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 49a4b23..2ab6d1e 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -361,6 +361,7 @@ void SpiralServer::GenerateFromRawData(
     std::vector<uint8_t> tmp = ConvertRawDbToPtDb(sub_dbs[j].Db());
 
     if (j == 0) {
+      pt_dbs_.clear();
       pt_dbs_.reserve(tmp.size() * partition_num_);
       single_pt_db_size_ = tmp.size();
     }
@@ -416,6 +417,7 @@ void SpiralServer::GenerateFromSimpleHashTable(
     std::vector<uint8_t> tmp = ConvertRawDbToPtDb(sub_dbs[j].Db());
 
     if (j == 0) {
+      pt_dbs_.clear();
       pt_dbs_.reserve(tmp.size() * partition_num_);
       single_pt_db_size_ = tmp.size();
     }
@@ -450,6 +452,7 @@ void SpiralServer::GenerateFromRawDataAndReorient(
     std::vector<uint64_t> tmp = ReorientRawDb(sub_dbs[j].Db());
 
     if (j == 0) {
+      reoriented_dbs_.clear();
       reoriented_dbs_.reserve(tmp.size() * partition_num_);
       single_db_size_ = tmp.size();
     }
-- 
2.43.0


From 245c0c22798fc916fab55c2ac59b3c363b242c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:10 +0000
Subject: [PATCH 38/41] fix: the KKRT sender span forever when no thread could
 be started for its corrections

---
 psi/algorithm/kkrt/kkrt_psi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index febc79c..6e6fc01 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -143,7 +143,8 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
   uint64_t kkrtOtBatchSize = sender.GetBatchSize();
 
   std::atomic<uint64_t> recv_idx(0);
-  auto f_recv_corrections = std::async([&]() {
+  // Started at once or not at all: the loop below waits for its progress.
+  auto f_recv_corrections = std::async(std::launch::async, [&]() {
     // while there are more corrections for be received
     size_t correction_batch_idx = 0;
     while (recv_idx < num_bins) {
-- 
2.43.0


From f0794919d2672846f612823443fef3a66eefda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:04 +0000
Subject: [PATCH 39/41] fix: the stages of the RR22 pipeline waited forever
 when one of them could not be started

---
 psi/algorithm/rr22/rr22_psi.h | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index 66f62af..d0208c7 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -209,19 +209,29 @@ class Rr22Runner {
     // What stopped the first stage that failed: the others must not wait for it
     // any more. Written under both mutexes.
     std::exception_ptr error;
+    auto stop_stages = [&]() {
+      std::scoped_lock lock(prepare_mtx, oprf_mtx);
+      if (!error) {
+        error = std::current_exception();
+      }
+      prepare_cv.notify_all();
+      oprf_cv.notify_all();
+    };
     auto start_stage = [&](std::function<void()> stage) {
-      return std::async(std::launch::async, [&, stage = std::move(stage)]() {
-        try {
-          stage();
-        } catch (...) {
-          std::scoped_lock lock(prepare_mtx, oprf_mtx);
-          if (!error) {
-            error = std::current_exception();
-          }
-          prepare_cv.notify_all();
-          oprf_cv.notify_all();
-        }
-      });
+      try {
+        return std::async(std::launch::async,
+                          [&stop_stages, stage = std::move(stage)]() {
+                            try {
+                              stage();
+                            } catch (...) {
+                              stop_stages();
+                            }
+                          });
+      } catch (...) {
+        // No thread for this stage: the ones before it must not wait for it.
+        stop_stages();
+        throw;
+      }
     };
     auto prepare_f = start_stage([&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
-- 
2.43.0


From 374607485522aeb527f42f4bdaa5f30175035aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:13 +0000
Subject: [PATCH 40/41] fix: lines put together in a string stream were cut
 short when memory ran out

---
 psi/utils/join_processor.cc | 8 +++-----
 psi/utils/table_utils.cc    | 8 ++++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index ca7b2aa..f217072 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -307,13 +307,11 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
       return;
     }
     auto size = columns.size();
-    std::ostringstream oss;
-    oss << csv_null_rep_;
+    std::string line = csv_null_rep_;
     while (--size) {
-      oss << ',' << csv_null_rep_;
+      line += ',' + csv_null_rep_;
     }
-    oss << '\n';
-    auto line = oss.str();
+    line += '\n';
     while (na_line_cnt--) {
       *ofs << line;
     }
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 8c3bbdc..235b575 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -210,12 +210,12 @@ Table::Table(std::string path, std::string format)
 }
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns) {
-  std::ostringstream oss;
-  oss << '"' << columns[0] << '"';
+  // Not a stream: these drop what they have no memory for.
+  std::string line = '"' + columns[0] + '"';
   for (size_t i = 1; i < columns.size(); ++i) {
-    oss << ',' << '"' << columns[i] << '"';
+    line += ",\"" + columns[i] + '"';
   }
-  return oss.str();
+  return line;
 }
 
 std::shared_ptr<IBasicBatchProvider> Table::GetProvider(
-- 
2.43.0


From f92384e6726f00520e58f9c217784590dbcc9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 41/41] fix: the RR22 pipeline also stops its stages when
 starting one fails before its thread

---
 psi/algorithm/rr22/rr22_psi.h | 46 ++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d0208c7..07390fd 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -218,22 +218,16 @@ class Rr22Runner {
       oprf_cv.notify_all();
     };
     auto start_stage = [&](std::function<void()> stage) {
-      try {
-        return std::async(std::launch::async,
-                          [&stop_stages, stage = std::move(stage)]() {
-                            try {
-                              stage();
-                            } catch (...) {
-                              stop_stages();
-                            }
-                          });
-      } catch (...) {
-        // No thread for this stage: the ones before it must not wait for it.
-        stop_stages();
-        throw;
-      }
+      return std::async(std::launch::async,
+                        [&stop_stages, stage = std::move(stage)]() {
+                          try {
+                            stage();
+                          } catch (...) {
+                            stop_stages();
+                          }
+                        });
     };
-    auto prepare_f = start_stage([&]() {
+    auto prepare_stage = [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
@@ -247,8 +241,8 @@ class Rr22Runner {
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
-    });
-    auto run_f = start_stage([&]() {
+    };
+    auto run_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
@@ -269,8 +263,8 @@ class Rr22Runner {
           oprf_cv.notify_all();
         }
       }
-    });
-    auto intersection_f = start_stage([&]() {
+    };
+    auto intersection_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
@@ -286,7 +280,19 @@ class Rr22Runner {
         }
         runner->GetIntersection(intersection_lctx_);
       }
-    });
+    };
+    std::future<void> prepare_f;
+    std::future<void> run_f;
+    std::future<void> intersection_f;
+    try {
+      prepare_f = start_stage(prepare_stage);
+      run_f = start_stage(run_stage);
+      intersection_f = start_stage(intersection_stage);
+    } catch (...) {
+      // The stages already started must not wait for the one that could not be.
+      stop_stages();
+      throw;
+    }
     run_f.get();
     prepare_f.get();
     intersection_f.get();
-- 
2.43.0

