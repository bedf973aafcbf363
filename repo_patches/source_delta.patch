From e8f72df71643c2fb0af97e15ae16c66c5d42e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:37 +0000
Subject: [PATCH 01/46] fix: reject unmasking responses with the wrong number
 of key shares

The server indexed into the repeated field without looking at its size, so a
client sending a short message made the server read out of bounds.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..cfd5308 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,13 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  if (unmasking_response.noise_or_prf_key_shares().size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "The UnmaskingResponse does not contain the expected number of key "
+        "shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From f303e06cf360d931409349b31a0c4e4f5f4ce6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:46 +0000
Subject: [PATCH 02/46] fix: report missing or malformed key shares instead of
 crashing the server

In the subgraph variant all neighbours holding shares of a client's key can
drop out, and any client can send shares of arbitrary sizes. Both ended in a
failed check that took down the server; they now abort the session.
---
 .../server/secagg_server_protocol_impl.cc     | 27 +++++++++++++++++++
 fcp/secagg/shared/aes_key.cc                  | 26 +++++++++++++-----
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cfd5308..52bed82 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -317,6 +317,29 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
 // PRNG computation methods
 // -----------------------------------------------------------------------------
 
+// Returns true if all the shares that are present have the same size, and that
+// size is possible for shares of an ECDH private key.
+inline bool ArePrivateKeySharesWellFormed(
+    const std::vector<ShamirShare>& shares) {
+  constexpr size_t kSubshareSize = 4;
+  // Each subshare carries 31 bits of the key.
+  constexpr size_t kMaxShareSize =
+      kSubshareSize * ((8 * EcdhPrivateKey::kSize + 30) / 31);
+  size_t share_size = 0;
+  for (const ShamirShare& share : shares) {
+    if (share.data.empty()) {
+      continue;
+    }
+    if (share.data.size() % kSubshareSize != 0 ||
+        share.data.size() > kMaxShareSize ||
+        (share_size != 0 && share.data.size() != share_size)) {
+      return false;
+    }
+    share_size = share.data.size();
+  }
+  return true;
+}
+
 StatusOr<SecAggServerProtocolImpl::ShamirReconstructionResult>
 SecAggServerProtocolImpl::HandleShamirReconstruction() {
   FCP_CHECK(pairwise_shamir_share_table_ != nullptr &&
@@ -327,6 +350,10 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   ShamirSecretSharing reconstructor;
 
   for (const auto& item : *pairwise_shamir_share_table_) {
+    if (!ArePrivateKeySharesWellFormed(item.second)) {
+      return ::absl::InvalidArgumentError(
+          "Shares of an aborted client's private key have unexpected sizes");
+    }
     FCP_ASSIGN_OR_RETURN(std::string reconstructed_key,
                          reconstructor.Reconstruct(
                              minimum_surviving_neighbors_for_reconstruction(),
diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index 721399f..9ee6f20 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -36,17 +36,29 @@ StatusOr<AesKey> AesKey::CreateFromShares(
   // For compatibility, we need to know if the key that was shared was 128 or
   // 256 bits long. It can only have been one of those two lengths, so the
   // shares should be either 20 or 36 bytes long respectively.
-  for (int i = 0; i < shares.size() && key_length == 0; ++i) {
+  for (int i = 0; i < shares.size(); ++i) {
+    int share_key_length = 0;
     if (shares[i].data.size() == 36) {
-      key_length = kSize;
+      share_key_length = kSize;
     } else if (shares[i].data.size() == 20) {
-      key_length = kLegacyKeySize;  // May be 17 bytes or shorter, see below
-    } else {
-      // Key share must be missing if it's not one of those lengths.
-      FCP_CHECK(shares[i].data.empty());
+      share_key_length = kLegacyKeySize;  // May be 17 bytes or shorter, see
+                                          // below
+    } else if (shares[i].data.empty()) {
+      continue;
     }
+    // Key share must be missing if it's not one of those lengths, and all the
+    // shares of a key have the same length.
+    if (share_key_length == 0 ||
+        (key_length != 0 && share_key_length != key_length)) {
+      return FCP_STATUS(INVALID_ARGUMENT)
+             << "Key share with index " << i << " has an unexpected size "
+             << shares[i].data.size();
+    }
+    key_length = share_key_length;
+  }
+  if (key_length == 0) {
+    return FCP_STATUS(FAILED_PRECONDITION) << "No key shares were provided";
   }
-  FCP_CHECK(key_length != 0);
   std::string reconstructed;
   FCP_ASSIGN_OR_RETURN(
       reconstructed, reconstructor.Reconstruct(threshold, shares, key_length));
-- 
2.43.0


From 7d300828bb33fa9dcf3eb16f97fc183d0422a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:46 +0000
Subject: [PATCH 03/46] fix: avoid 32-bit overflow when reconstructing a shared
 secret

The field is slightly larger than 2^31, so the sum of two elements can wrap
around and give a wrong secret.
---
 fcp/secagg/shared/shamir_secret_sharing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..6a5aa78 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -137,8 +137,10 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      // The sum of two field elements may not fit in 32 bits.
+      subsecrets[i] = static_cast<uint32_t>(
+          AddMod(subsecrets[i], MultiplyMod(subshare, coefficients[j], kPrime),
+                 kPrime));
     }
   }
 
-- 
2.43.0


From beaf006becccef8c197ec3fc357c5db096c6437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:04 +0000
Subject: [PATCH 04/46] fix: free the key when an ECDH private key is rejected

---
 fcp/secagg/shared/ecdh_key_agreement.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fcp/secagg/shared/ecdh_key_agreement.cc b/fcp/secagg/shared/ecdh_key_agreement.cc
index fdc86f8..4959001 100644
--- a/fcp/secagg/shared/ecdh_key_agreement.cc
+++ b/fcp/secagg/shared/ecdh_key_agreement.cc
@@ -58,11 +58,13 @@ EcdhKeyAgreement::CreateFromPrivateKey(const EcdhPrivateKey& private_key) {
       BN_bin2bn(private_key.data(), private_key.size(), nullptr);
   std::unique_ptr<BIGNUM, void (*)(BIGNUM*)> private_key_bn(private_key_bn_raw,
                                                             BN_free);
-  EC_KEY* key = EC_KEY_new_by_curve_name(NID_X9_62_prime256v1);
-  if (!EC_KEY_set_private_key(key, private_key_bn.get())) {
+  // Wrapped at once, so that the key is deleted if it can't be used.
+  auto ecdh = std::make_unique<EcdhKeyAgreement>(
+      EC_KEY_new_by_curve_name(NID_X9_62_prime256v1));
+  if (!EC_KEY_set_private_key(ecdh->key_.get(), private_key_bn.get())) {
     return FCP_STATUS(INVALID_ARGUMENT) << "Invalid private key.";
   }
-  return std::make_unique<EcdhKeyAgreement>(key);
+  return ecdh;
 }
 
 StatusOr<std::unique_ptr<EcdhKeyAgreement>> EcdhKeyAgreement::CreateFromKeypair(
-- 
2.43.0


From 62bb31dd38fa863e6a10ff51ee46fe2b1e88a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:29 +0000
Subject: [PATCH 05/46] fix: abandon a promise that is replaced by move
 assignment

Assigning over a promise that had not been set dropped it without telling
the paired future, so taking from that future waited forever.
---
 fcp/base/future.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..67866ff 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -167,7 +167,13 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
+  Promise& operator=(Promise&& other) {
+    // The promise being replaced (if any) is abandoned when `new_value` goes
+    // away.
+    Promise new_value = std::move(other);
+    std::swap(state_, new_value.state_);
+    return *this;
+  }
 
   ~Promise() {
     if (state_.has_value()) {
-- 
2.43.0


From ce3660366590188fad423bc969e1f0de4ef8fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:29 +0000
Subject: [PATCH 06/46] fix: treat a thread pool without tasks as idle from the
 start

A pool counted all of its threads as busy until each had started, so
destroying a pool that never received a task could fail the idle check.
---
 fcp/base/scheduler.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fcp/base/scheduler.cc b/fcp/base/scheduler.cc
index e815d77..b324185 100644
--- a/fcp/base/scheduler.cc
+++ b/fcp/base/scheduler.cc
@@ -97,8 +97,7 @@ class WorkerImpl : public Worker, public LifetimeTracker {
 class ThreadPoolScheduler : public Scheduler {
  public:
   explicit ThreadPoolScheduler(std::size_t thread_count)
-      : idle_condition_(absl::Condition(IdleCondition, this)),
-        active_count_(thread_count) {
+      : idle_condition_(absl::Condition(IdleCondition, this)) {
     FCP_CHECK(thread_count > 0) << "invalid thread_count";
 
     // Create threads.
@@ -142,11 +141,13 @@ class ThreadPoolScheduler : public Scheduler {
   }
 
   void PerThreadActivity() {
+    bool active = false;
     for (;;) {
       std::function<void()> task;
       {
         absl::MutexLock lock(&busy_);
-        --active_count_;
+        if (active) --active_count_;
+        active = false;
         while (todo_.empty()) {
           if (threads_should_join_) {
             return;
@@ -160,6 +161,7 @@ class ThreadPoolScheduler : public Scheduler {
         task = std::move(todo_.front());
         todo_.pop();
         ++active_count_;
+        active = true;
       }
 
       task();
@@ -189,7 +191,7 @@ class ThreadPoolScheduler : public Scheduler {
   std::queue<std::function<void()>> todo_ ABSL_GUARDED_BY(busy_);
 
   // The number of threads currently doing work in this pool.
-  std::size_t active_count_ ABSL_GUARDED_BY(busy_);
+  std::size_t active_count_ ABSL_GUARDED_BY(busy_) = 0;
 };
 
 }  // namespace
-- 
2.43.0


From 04f934b4789a000a4b5aeabc5bb21226e5a5d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:56 +0000
Subject: [PATCH 07/46] fix: do not touch an aborted session from the unmasking
 callback

Aborting while the last masks were being computed destroyed the state that
the completion callback of the background work was about to use.
---
 .../secagg_server_prng_running_state.cc       | 33 ++++++++++++-------
 .../server/secagg_server_prng_running_state.h | 11 ++++++-
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/fcp/secagg/server/secagg_server_prng_running_state.cc b/fcp/secagg/server/secagg_server_prng_running_state.cc
index 8ad33d8..a431db5 100644
--- a/fcp/secagg/server/secagg_server_prng_running_state.cc
+++ b/fcp/secagg/server/secagg_server_prng_running_state.cc
@@ -57,6 +57,11 @@ Status SecAggServerPrngRunningState::HandleMessage(
 }
 
 void SecAggServerPrngRunningState::HandleAbort() {
+  {
+    // From here on the completion callback leaves this object alone.
+    absl::MutexLock lock(&liveness_->mutex);
+    liveness_->aborted = true;
+  }
   if (async_token_) {
     async_token_->Cancel();
   }
@@ -94,7 +99,17 @@ void SecAggServerPrngRunningState::EnterState() {
   prng_started_time_ = absl::Now();
 
   async_token_ = impl()->StartPrng(
-      work_items, [this](Status status) { this->PrngRunnerFinished(status); });
+      work_items, [this, liveness = liveness_](Status status) {
+        std::function<void()> prng_done_callback;
+        {
+          absl::MutexLock lock(&liveness->mutex);
+          if (liveness->aborted) return;
+          prng_done_callback = this->PrngRunnerFinished(status);
+        }
+        if (prng_done_callback) {
+          prng_done_callback();
+        }
+      });
 }
 
 bool SecAggServerPrngRunningState::SetAsyncCallback(
@@ -111,7 +126,8 @@ bool SecAggServerPrngRunningState::SetAsyncCallback(
   return true;
 }
 
-void SecAggServerPrngRunningState::PrngRunnerFinished(Status final_status) {
+std::function<void()> SecAggServerPrngRunningState::PrngRunnerFinished(
+    Status final_status) {
   auto elapsed_millis =
       absl::ToInt64Milliseconds(absl::Now() - prng_started_time_);
   if (metrics()) {
@@ -119,16 +135,9 @@ void SecAggServerPrngRunningState::PrngRunnerFinished(Status final_status) {
   }
   Trace<PrngExpansion>(elapsed_millis);
 
-  std::function<void()> prng_done_callback;
-  {
-    absl::MutexLock lock(&mutex_);
-    completion_status_ = final_status;
-    prng_done_callback = prng_done_callback_;
-  }
-
-  if (prng_done_callback) {
-    prng_done_callback();
-  }
+  absl::MutexLock lock(&mutex_);
+  completion_status_ = final_status;
+  return prng_done_callback_;
 }
 
 void SecAggServerPrngRunningState::HandleAbortClient(
diff --git a/fcp/secagg/server/secagg_server_prng_running_state.h b/fcp/secagg/server/secagg_server_prng_running_state.h
index c63e72f..be58714 100644
--- a/fcp/secagg/server/secagg_server_prng_running_state.h
+++ b/fcp/secagg/server/secagg_server_prng_running_state.h
@@ -74,7 +74,16 @@ class SecAggServerPrngRunningState final : public SecAggServerState {
 
   // This is called when all computations are finished.
   // final_status indicates whether PRNG computation has finished successfully.
-  void PrngRunnerFinished(Status final_status);
+  // Returns the callback to run, if any.
+  std::function<void()> PrngRunnerFinished(Status final_status);
+
+  // Shared with the completion callback of the PRNG computation, which may
+  // still be on its way when this state is left because of an abort.
+  struct Liveness {
+    absl::Mutex mutex;
+    bool aborted ABSL_GUARDED_BY(mutex) = false;
+  };
+  const std::shared_ptr<Liveness> liveness_ = std::make_shared<Liveness>();
 
   // The status is assigned when the state completes either successfully or
   // unsuccessfully.
-- 
2.43.0


From 0fe9a27843614d60a010b29bed9e05471271f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:37 +0000
Subject: [PATCH 08/46] fix: report truncated gzip data as an error instead of
 returning the part read

---
 fcp/base/compression.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fcp/base/compression.cc b/fcp/base/compression.cc
index 20b969d..f5f162e 100644
--- a/fcp/base/compression.cc
+++ b/fcp/base/compression.cc
@@ -80,7 +80,13 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
                               static_cast<int>(compressed_data.size()));
   GzipInputStream input_stream(&sub_stream, GzipInputStream::GZIP);
 
+  // The stream reports Z_STREAM_END whenever it runs out of input, so whether
+  // the data was complete has to be told from the last step that got anywhere.
+  bool reached_end = compressed_data.empty();
   while (input_stream.Next(&buffer, &size)) {
+    if (input_stream.ZlibErrorCode() != Z_BUF_ERROR) {
+      reached_end = input_stream.ZlibErrorCode() == Z_STREAM_END;
+    }
     if (size <= -1) {
       return absl::InternalError(
           "Uncompress failed: invalid input size returned by the "
@@ -95,6 +101,10 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
         absl::StrCat("An error has occurred during decompression:",
                      input_stream.ZlibErrorMessage()));
   }
+  if (!reached_end) {
+    return absl::InternalError(
+        "An error has occurred during decompression: truncated input.");
+  }
 
   return out;
 }
-- 
2.43.0


From bfc469801a8297890faa374aa208bdbcfe7c9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:37 +0000
Subject: [PATCH 09/46] fix: report errors of the final flush and of reading in
 the file helpers

---
 fcp/base/platform.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..b668366 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -67,8 +67,13 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
         absl::StrCat("cannot read file ", file_name_str));
   }
   std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  // Inserting an empty buffer would set the fail bit on the output stream, so
+  // only do so if there is something to be read.
+  is.peek();
+  if (!is.eof()) {
+    buffer << is.rdbuf();
+  }
+  if (is.bad() || !buffer) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
@@ -94,6 +99,7 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +122,11 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From d2223c60dcc8e887983dc6237ec0168d2ad4dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:07 +0000
Subject: [PATCH 10/46] fix: keep lines traced by different threads apart in
 the text tracing recorder

---
 fcp/tracing/text_tracing_recorder_impl.cc | 4 +++-
 fcp/tracing/text_tracing_recorder_impl.h  | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/tracing/text_tracing_recorder_impl.cc b/fcp/tracing/text_tracing_recorder_impl.cc
index a8bfdf5..6efec9e 100644
--- a/fcp/tracing/text_tracing_recorder_impl.cc
+++ b/fcp/tracing/text_tracing_recorder_impl.cc
@@ -19,6 +19,7 @@
 #include <string>
 #include <utility>
 
+#include "absl/synchronization/mutex.h"
 #include "absl/time/clock.h"
 #include "fcp/tracing/text_tracing_span_impl.h"
 #include "flatbuffers/minireflect.h"
@@ -39,10 +40,10 @@ TextTracingRecorderImpl::TextTracingRecorderImpl(absl::TimeZone time_zone)
   root_span_ = std::make_unique<TextTracingSpanImpl>(this);
 }
 
-// TODO(team): Ensure traces from different threads are not interleaved.
 void TextTracingRecorderImpl::TraceImpl(TracingSpanId id,
                                         flatbuffers::DetachedBuffer&& buf,
                                         const TracingTraitsBase& traits) {
+  absl::MutexLock lock(&mutex_);
   LogTime();
   *stream_ << id << ": " << TracingTraitsBase::SeverityString(traits.Severity())
            << " " << traits.Name() << traits.TextFormat(buf) << endl;
@@ -64,6 +65,7 @@ void TextTracingRecorderImpl::LogSpan(bool begin, TracingSpanId id,
                                       TracingSpanId parent_id,
                                       absl::string_view name,
                                       absl::string_view text_format) {
+  absl::MutexLock lock(&mutex_);
   LogTime();
   *stream_ << id << (begin ? ": BEGIN" : ": END");
   if (!name.empty()) {
diff --git a/fcp/tracing/text_tracing_recorder_impl.h b/fcp/tracing/text_tracing_recorder_impl.h
index 5c99334..fc4fbd6 100644
--- a/fcp/tracing/text_tracing_recorder_impl.h
+++ b/fcp/tracing/text_tracing_recorder_impl.h
@@ -23,6 +23,7 @@
 #include <string>
 #include <vector>
 
+#include "absl/synchronization/mutex.h"
 #include "absl/time/time.h"
 #include "fcp/tracing/tracing_recorder.h"
 #include "fcp/tracing/tracing_recorder_impl.h"
@@ -78,6 +79,9 @@ class TextTracingRecorderImpl : public TracingRecorderImpl {
   // the function that originally created the root tracing span.
   std::optional<std::ofstream> fstream_;
 
+  // Ensures that lines logged by different threads are not interleaved.
+  absl::Mutex mutex_;
+
   // Pointer to an output stream to which tracing events are written.
   std::ostream* stream_;
 
-- 
2.43.0


From ad08b7ce529768fc6d8641dd9a9dad67d12f7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:07 +0000
Subject: [PATCH 11/46] fix: do not narrow tracing span ids to 32 bits

---
 fcp/tracing/tracing_span_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/tracing/tracing_span_id.h b/fcp/tracing/tracing_span_id.h
index b737ccc..79525c5 100644
--- a/fcp/tracing/tracing_span_id.h
+++ b/fcp/tracing/tracing_span_id.h
@@ -29,7 +29,7 @@ struct TracingSpanId {
 
   // Generates next unique id
   static TracingSpanId NextUniqueId();
-  explicit constexpr TracingSpanId(int id) : value(id) {}
+  explicit constexpr TracingSpanId(std::int64_t id) : value(id) {}
 
  private:
   static std::atomic<std::int64_t> id_source;
-- 
2.43.0


From abcf5b99fcaa8eca08293635c3f4b04de0d753ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:07 +0000
Subject: [PATCH 12/46] fix: do not use a tracing recorder that is being
 destroyed by another thread

---
 fcp/tracing/tracing_recorder_impl.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/tracing/tracing_recorder_impl.cc b/fcp/tracing/tracing_recorder_impl.cc
index cb9c7be..4d49747 100644
--- a/fcp/tracing/tracing_recorder_impl.cc
+++ b/fcp/tracing/tracing_recorder_impl.cc
@@ -52,8 +52,11 @@ class TracingState {
     TracingRecorderImpl* tracing_recorder =
         using_thread_local_state_ ? GetThreadLocalState().tracing_recorder
                                   : global_tracing_recorder_;
-    return tracing_recorder ? tracing_recorder->shared_from_this()
-                            : GetOrCreateDefaultRecorder();
+    // A recorder which is being destroyed in another thread is still set here
+    // until its destructor uninstalls it, but can't be used any more.
+    std::shared_ptr<TracingRecorderImpl> shared_recorder =
+        tracing_recorder ? tracing_recorder->weak_from_this().lock() : nullptr;
+    return shared_recorder ? shared_recorder : GetOrCreateDefaultRecorder();
   }
 
   void SetGlobalRecorderImpl(TracingRecorderImpl* impl) {
-- 
2.43.0


From 0087b665981cf8fb5743742e500adc1ac4f857ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:32 +0000
Subject: [PATCH 13/46] fix: overwrite the resource when Put is called with a
 known cache ID

ResourceCache::Put promises to overwrite an existing entry, but the
manifest entry and the file of the earlier resource were both kept, so
later lookups returned the old payload, metadata and expiry.
---
 fcp/client/cache/file_backed_resource_cache.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..e0ea63c 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -168,10 +168,22 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   }
 
   FCP_ASSIGN_OR_RETURN(CacheManifest manifest, ReadInternal());
-  FCP_RETURN_IF_ERROR(CleanUp(resource.size(), manifest));
 
+  // If there already is a resource for this ID, then delete its file, so that
+  // CleanUp() drops its manifest entry and it's overwritten below.
   std::string cache_id_str(cache_id);
   std::filesystem::path cached_file_path = cache_dir_path_ / cache_id_str;
+  std::error_code remove_error;
+  std::filesystem::remove(cached_file_path, remove_error);
+  if (remove_error.value() != 0) {
+    log_manager_.LogDiag(
+        ProdDiagCode::RESOURCE_CACHE_CLEANUP_FAILED_TO_DELETE_CACHED_FILE);
+    return absl::InternalError(absl::StrCat(
+        "Failed to delete previously cached resource with error code: ",
+        remove_error.value()));
+  }
+  FCP_RETURN_IF_ERROR(CleanUp(resource.size(), manifest));
+
   absl::Time now = clock_.Now();
   absl::Time expiry = now + max_age;
   CachedResource cached_resource;
-- 
2.43.0


From 961ba83dac4bfabe1d35bb8d8c8f28891a9f4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 14/46] fix: never leave a partially written resource in the
 cache

The resource was written straight to the file the manifest entry points
at, so a crash or a full disk in the middle of the write left a truncated
file that later lookups returned as a cache hit.
---
 fcp/client/cache/file_backed_resource_cache.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index e0ea63c..c6bab8b 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -57,6 +57,8 @@ constexpr char kCacheManifestFileName[] = "cache_manifest.pb";
 constexpr char kParentDir[] = "fcp";
 // Cached files will be saved in <cache directory>/fcp/cache.
 constexpr char kCacheDir[] = "cache";
+// Resources are written to this file before they're moved to their final name.
+constexpr char kTempFileName[] = ".pending_resource.tmp";
 
 absl::StatusOr<CacheManifest> FileBackedResourceCache::ReadInternal() {
   absl::StatusOr<const CacheManifest*> data = pds_->Read();
@@ -211,7 +213,21 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
         exists_error.value()));
   }
   if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
+    // Write to a temporary file first and rename it once it's complete, so that
+    // a failed or interrupted write never leaves a partial resource behind that
+    // the manifest entry would point at. Leftover temporary files aren't tracked
+    // by the manifest, hence they're removed by CleanUp().
+    std::filesystem::path temp_file_path = cache_dir_path_ / kTempFileName;
+    auto status = WriteCordToFile(temp_file_path.string(), resource);
+    if (status.ok()) {
+      std::error_code rename_error;
+      std::filesystem::rename(temp_file_path, cached_file_path, rename_error);
+      if (rename_error.value() != 0) {
+        status = absl::InternalError(absl::StrCat(
+            "Failed to move resource into the cache with error code: ",
+            rename_error.value()));
+      }
+    }
     if (!status.ok()) {
       log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
       return status;
-- 
2.43.0


From 5c5bb9632074de454886fe9def5488a1d1346759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:55 +0000
Subject: [PATCH 15/46] fix: refuse to cache a resource with a max_age in the
 past

Put documents INVALID_ARGUMENT for this case but stored the resource, and
lookups then returned it.
---
 fcp/client/cache/file_backed_resource_cache.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index c6bab8b..8ace299 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -165,6 +165,10 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
                                           absl::Duration max_age) {
   absl::MutexLock lock(&mutex_);
 
+  if (max_age < absl::ZeroDuration()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(cache_id, " has a max_age in the past"));
+  }
   if (resource.size() > max_cache_size_bytes_ / 2) {
     return absl::ResourceExhaustedError(absl::StrCat(cache_id, " too large"));
   }
-- 
2.43.0


From 33599fef3abf04837565bf696d18f9da9e411af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:19 +0000
Subject: [PATCH 16/46] fix: keep the minimum separation policy index of runs
 with phase stats

Splitting a run with phase stats into one entry per task dropped the
index, so the index of the last successful contribution was never found
for such runs.
---
 fcp/client/opstats/opstats_utils.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..95eb743 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -119,13 +119,18 @@ std::vector<PerTaskStats> GeneratePerTaskStats(
 // and other inputs.
 OperationalStats CreateLegacyOperationalStats(
     absl::string_view population_name, absl::string_view session_name,
-    const RetryWindow& retry_window, const PerTaskStats& per_task_stats) {
+    const RetryWindow& retry_window,
+    std::optional<int64_t> min_sep_policy_index,
+    const PerTaskStats& per_task_stats) {
   OperationalStats legacy_stats;
   legacy_stats.set_population_name(std::string(population_name));
   legacy_stats.set_session_name(std::string(session_name));
   if (retry_window.has_delay_max() || retry_window.has_delay_min()) {
     *legacy_stats.mutable_retry_window() = retry_window;
   }
+  if (min_sep_policy_index.has_value()) {
+    legacy_stats.set_min_sep_policy_index(*min_sep_policy_index);
+  }
   int64_t bytes_downloaded = 0;
   int64_t bytes_uploaded = 0;
   int64_t network_duration_millis = 0;
@@ -183,10 +188,14 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
     legacy_op_stats.push_back(op_stats);
   } else {
     std::vector<PerTaskStats> task_stats_list = GeneratePerTaskStats(op_stats);
+    std::optional<int64_t> min_sep_policy_index;
+    if (op_stats.has_min_sep_policy_index()) {
+      min_sep_policy_index = op_stats.min_sep_policy_index();
+    }
     for (const auto& task_stats : task_stats_list) {
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
-          op_stats.retry_window(), task_stats));
+          op_stats.retry_window(), min_sep_policy_index, task_stats));
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From d7e91d854169b96e6b97446b9c0bbc29eb78b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:13 +0000
Subject: [PATCH 17/46] fix: do not overwrite an earlier run when the first
 opstats commit fails

After a failed first commit the logger took its entry to be stored, and
the next commit replaced the last entry of the database, which belongs to
an earlier run.
---
 fcp/client/opstats/opstats_logger_impl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..5818463 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,11 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // If nothing has been committed for this run yet, then the last entry in the
+  // db belongs to an earlier run and must not be replaced by the next commit.
+  if (status.ok()) {
+    already_committed_ = true;
+  }
   return status;
 }
 
-- 
2.43.0


From 4412d7e6354a4051227247a78b8fca0c5a0abf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:43 +0000
Subject: [PATCH 18/46] fix: refuse client payloads whose header is cut or ends
 early

---
 fcp/confidentialcompute/client_payload.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..2250cb8 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -86,10 +86,15 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
   if (!coded_in.ReadVarint32(&serialized_payload_size)) {
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Serialized payload is truncated");
+  }
 
   auto limit = coded_in.PushLimit(serialized_payload_size);
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      !coded_in.ConsumedEntireMessage()) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From 600e436b388c7deebfff50e10157449e6e291ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 19/46] fix: percent-encode control characters with two hex
 digits

---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From 6d8fd59dd9265cb0d4f14995ead0b3cf1f2ce0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 20/46] fix: keep response header values after a second colon

---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From 6b6e2cdc996f16b1e1352f82749f131a6103f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 21/46] fix: always remove the Transfer-Encoding response
 header

---
 fcp/client/http/curl/curl_header_parser.cc | 15 ++++++++-------
 fcp/client/http/curl/curl_header_parser.h  |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 87d5d35..a57a777 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -73,13 +73,14 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-  // Removes the "Content-Encoding", "Content-Length", and "Content-Length"
-  // headers from the response when the curl encoding in use because they
-  // reflect in-flight encoded values
-  if (!use_curl_encoding_ ||
-      (!absl::EqualsIgnoreCase(key, kContentEncodingHdr) &&
-       !absl::EqualsIgnoreCase(key, kContentLengthHdr) &&
-       !absl::EqualsIgnoreCase(key, kTransferEncodingHdr))) {
+  // Removes the "Content-Encoding" and "Content-Length" headers from the
+  // response when the curl encoding in use because they reflect in-flight
+  // encoded values. Curl always decodes the transfer encoding, so the
+  // "Transfer-Encoding" header is removed in any case.
+  if (!absl::EqualsIgnoreCase(key, kTransferEncodingHdr) &&
+      (!use_curl_encoding_ ||
+       (!absl::EqualsIgnoreCase(key, kContentEncodingHdr) &&
+        !absl::EqualsIgnoreCase(key, kContentLengthHdr)))) {
     header_list_.push_back({key, value});
   }
   return true;
diff --git a/fcp/client/http/curl/curl_header_parser.h b/fcp/client/http/curl/curl_header_parser.h
index 7c9ca31..4491c48 100644
--- a/fcp/client/http/curl/curl_header_parser.h
+++ b/fcp/client/http/curl/curl_header_parser.h
@@ -35,9 +35,9 @@ class CurlHeaderParser {
   // Parses the next header string
   void ParseHeader(const std::string& header_string);
 
-  // Removes the "Content-Encoding", "Content-Length", and "Content-Length"
-  // headers from the response when the curl encoding in use because they
-  // reflect in-flight encoded values
+  // Removes the "Content-Encoding" and "Content-Length" headers from the
+  // response when the curl encoding in use because they reflect in-flight
+  // encoded values. The "Transfer-Encoding" header is always removed.
   void UseCurlEncoding();
   // Indicates that the parser reached the last header
   ABSL_MUST_USE_RESULT bool IsLastHeader() const;
-- 
2.43.0


From bb34ba8e8979fa4620be6e7e2470bef666300cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 22/46] fix: take only the headers of the final response as
 final

---
 fcp/client/http/curl/curl_header_parser.cc | 25 ++++++++++++++++++----
 fcp/client/http/curl/curl_header_parser.h  |  3 +++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index a57a777..cbd8c47 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -15,6 +15,7 @@
  */
 #include "fcp/client/http/curl/curl_header_parser.h"
 
+#include <algorithm>
 #include <string>
 #include <utility>
 
@@ -60,6 +61,7 @@ bool CurlHeaderParser::ParseAsStatus(const std::string& header_string) {
   // It is required that we store only the final header list. So we keep the
   // last set of headers
   header_list_.clear();
+  is_last_header_line_ = false;
   return true;
 }
 
@@ -89,10 +91,9 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
 bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
   // In general, it is impossible to tell when curl will reach the last
   // header because there could another one in some special cases. In
-  // particular, it happens when curl hits a redirect status code (301).
-  // In this case, we need to proceed.
-  if (std::string(header_string) == "\r\n" &&
-      status_code_ != HttpResponseCode::kHttpMovedPermanently) {
+  // particular, it happens when curl hits a redirect status code or receives
+  // a provisional response. In this case, we need to proceed.
+  if (std::string(header_string) == "\r\n" && !IsFollowedByResponse()) {
     is_last_header_line_ = true;
     return true;
   }
@@ -100,6 +101,22 @@ bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
   return false;
 }
 
+bool CurlHeaderParser::IsFollowedByResponse() const {
+  if (status_code_ == HttpResponseCode::kHttpMovedPermanently) {
+    return true;
+  }
+  // Provisional responses are always followed by the actual response.
+  if (status_code_ >= 100 && status_code_ < 200) {
+    return true;
+  }
+  // Curl follows any redirect status code that specifies a location.
+  return status_code_ >= 300 && status_code_ < 400 &&
+         std::any_of(header_list_.begin(), header_list_.end(),
+                     [](const Header& header) {
+                       return absl::EqualsIgnoreCase(header.first, "Location");
+                     });
+}
+
 void CurlHeaderParser::UseCurlEncoding() { use_curl_encoding_ = true; }
 
 bool CurlHeaderParser::IsLastHeader() const { return is_last_header_line_; }
diff --git a/fcp/client/http/curl/curl_header_parser.h b/fcp/client/http/curl/curl_header_parser.h
index 4491c48..2ef7eec 100644
--- a/fcp/client/http/curl/curl_header_parser.h
+++ b/fcp/client/http/curl/curl_header_parser.h
@@ -51,6 +51,9 @@ class CurlHeaderParser {
   bool ParseAsHeader(const std::string& header_string);
   // Decides whether it is the last header
   bool ParseAsLastLine(const std::string& header_string);
+  // Whether the current response will be followed by another one, because it
+  // is a redirect or a provisional response.
+  bool IsFollowedByResponse() const;
 
   int status_code_;
   HeaderList header_list_;
-- 
2.43.0


From 97875cf7fcde326b12d93531088e8b6ea4188f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 23/46] fix: report unsupported curl requests when they are
 performed

---
 fcp/client/http/curl/curl_http_request_handle.cc | 9 +++++++--
 fcp/client/http/curl/curl_http_request_handle.h  | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..2cf1875 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -164,8 +164,8 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
     FCP_LOG(ERROR) << "easy_handle initialization failed with code "
                    << CurlEasyHandle::StrError(code);
     FCP_LOG(ERROR) << error_buffer_;
-    callback_->OnResponseError(*request_, absl::InternalError(error_buffer_));
-    return;
+    init_status_ = absl::InternalError(
+        absl::StrCat(CurlEasyHandle::StrError(code), " ", error_buffer_));
   }
 }
 
@@ -221,6 +221,11 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
   is_being_performed_ = true;
   callback_ = callback;
 
+  if (!init_status_.ok()) {
+    callback_->OnResponseError(*request_, init_status_);
+    return init_status_;
+  }
+
   CURLMcode code = multi_handle->AddEasyHandle(easy_handle_.get());
   if (code != CURLM_OK) {
     FCP_LOG(ERROR) << "AddEasyHandle failed with code " << code;
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..56797e9 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -98,6 +98,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
+  // The result of the initialization in the constructor.
+  absl::Status init_status_ ABSL_GUARDED_BY(mutex_);
   char error_buffer_[CURL_ERROR_SIZE] ABSL_GUARDED_BY(mutex_){};
   // Owned by the class.
   curl_slist* header_list_;
-- 
2.43.0


From 77a625d1735db84c7fe1f2e1c799e934318750b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 24/46] fix: send an explicit Accept-Encoding header with curl
 requests

---
 fcp/client/http/curl/curl_http_request_handle.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 2cf1875..86353c4 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -372,9 +372,7 @@ CURLcode CurlHttpRequestHandle::InitializeHeaders(
   }
 
   for (auto& [key, value] : extra_headers) {
-    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {
-      continue;
-    } else if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
+    if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
       if (method == HttpRequest::Method::kPost) {
         // For post less than 2GB
         CURL_RETURN_IF_ERROR(
-- 
2.43.0


From bf62fa18e79bd1b4b008ba0fbe8e93524cbff9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 25/46] fix: report failed, refused and cancelled curl
 transfers once and in order

---
 fcp/client/http/curl/curl_http_client.cc      |   2 +-
 .../http/curl/curl_http_request_handle.cc     | 115 +++++++++++++-----
 .../http/curl/curl_http_request_handle.h      |  18 ++-
 3 files changed, 103 insertions(+), 32 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 86353c4..f6febe6 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -73,11 +73,41 @@ curl_slist* AddToCurlHeaderList(curl_slist* header_list, const std::string& key,
   return tmp;
 }
 
+// Converts the result of a transfer.
+absl::Status ConvertCurlCodeToStatus(CURLcode code,
+                                     const char* error_buffer) {
+  if (code == CURLE_OK) {
+    return absl::OkStatus();
+  }
+  std::string message =
+      absl::StrCat(CurlEasyHandle::StrError(code), " ", error_buffer);
+  switch (code) {
+    case CURLE_TOO_MANY_REDIRECTS:
+      return absl::OutOfRangeError(message);
+    case CURLE_OPERATION_TIMEDOUT:
+      return absl::DeadlineExceededError(message);
+    case CURLE_COULDNT_RESOLVE_PROXY:
+    case CURLE_COULDNT_RESOLVE_HOST:
+    case CURLE_COULDNT_CONNECT:
+    case CURLE_PARTIAL_FILE:
+    case CURLE_GOT_NOTHING:
+    case CURLE_SEND_ERROR:
+    case CURLE_RECV_ERROR:
+      return absl::UnavailableError(message);
+    default:
+      return absl::InternalError(message);
+  }
+}
+
 }  // namespace
 
 size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
                                              size_t n_items, void* user_data) {
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
+  // Trailers, which follow the body, are not part of the response headers.
+  if (self->response_ != nullptr) {
+    return size * n_items;
+  }
   std::string str_header(static_cast<char*>(buffer), size * n_items);
 
   self->header_parser_.ParseHeader(str_header);
@@ -85,20 +115,21 @@ size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
     return size * n_items;
   }
 
-  self->response_ =
-      std::make_unique<CurlHttpResponse>(self->header_parser_.GetStatusCode(),
-                                         self->header_parser_.GetHeaderList());
+  return self->StartResponse() ? size * n_items : 0;
+}
 
-  FCP_CHECK(self->callback_ != nullptr);
-  absl::Status status =
-      self->callback_->OnResponseStarted(*self->request_, *self->response_);
+bool CurlHttpRequestHandle::StartResponse() {
+  response_ = std::make_unique<CurlHttpResponse>(
+      header_parser_.GetStatusCode(), header_parser_.GetHeaderList());
+
+  FCP_CHECK(callback_ != nullptr);
+  absl::Status status = callback_->OnResponseStarted(*request_, *response_);
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+    is_stopped_by_callback_ = true;
   }
-
-  return size * n_items;
+  return status.ok();
 }
 
 size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
@@ -106,13 +137,19 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   absl::string_view str_body(static_cast<char*>(body), size * nmemb);
 
+  // The header parser took the response for a redirect that curl did not
+  // follow.
+  if (self->response_ == nullptr && !self->StartResponse()) {
+    return CURL_WRITEFUNC_ERROR;
+  }
+
   absl::Status status = self->callback_->OnResponseBody(
       *self->request_, *self->response_, str_body);
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    self->is_stopped_by_callback_ = true;
+    return CURL_WRITEFUNC_ERROR;
   }
 
   return size * nmemb;
@@ -130,6 +167,7 @@ size_t CurlHttpRequestHandle::UploadCallback(char* buffer, size_t size,
   } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {
     return 0;
   }
+  self->read_status_ = read_size.status();
   return CURL_READFUNC_ABORT;
 }
 
@@ -155,6 +193,7 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
       is_being_performed_(false),
       is_completed_(false),
       is_cancelled_(false),
+      is_stopped_by_callback_(false),
       header_list_(nullptr) {
   FCP_CHECK(request_ != nullptr);
   FCP_CHECK(easy_handle_ != nullptr);
@@ -176,31 +215,51 @@ CurlHttpRequestHandle::~CurlHttpRequestHandle() {
 void CurlHttpRequestHandle::Cancel() {
   absl::MutexLock lock(&mutex_);
 
-  if (callback_ == nullptr || is_cancelled_ || is_completed_) {
+  if (is_completed_) {
     return;
   }
-  if (response_ != nullptr) {
-    callback_->OnResponseBodyError(*request_, *response_,
-                                   absl::CancelledError());
-  } else {
-    callback_->OnResponseError(*request_, absl::CancelledError());
-  }
+  // If the request is being performed then the callback is notified by the
+  // performing thread once it has stopped the transfer.
   is_cancelled_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
-  absl::MutexLock lock(&mutex_);
-
-  FCP_CHECK(callback_ != nullptr);
-  if (!is_cancelled_ && !is_completed_) {
-    if (response_ != nullptr) {
-      callback_->OnResponseCompleted(*request_, *response_);
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
+  absl::Status status;
+  {
+    absl::MutexLock lock(&mutex_);
+    FCP_CHECK(callback_ != nullptr);
+    if (is_completed_) {
+      return;
+    }
+    is_completed_ = true;
+    if (is_cancelled_) {
+      status = absl::CancelledError();
+    } else if (!read_status_.ok()) {
+      status = read_status_;
     } else {
-      callback_->OnResponseError(*request_,
-                                 absl::InternalError("response_ is nullptr"));
+      status = ConvertCurlCodeToStatus(result, error_buffer_);
+    }
+  }
+
+  // The callbacks are called without holding the lock, since they may use this
+  // handle.
+  if (is_stopped_by_callback_) {
+    return;
+  }
+  if (status.ok() && response_ == nullptr) {
+    if (header_parser_.GetStatusCode() == -1) {
+      status = absl::InternalError("No response received");
+    } else if (!StartResponse()) {
+      return;
     }
   }
-  is_completed_ = true;
+  if (response_ == nullptr) {
+    callback_->OnResponseError(*request_, status);
+  } else if (!status.ok()) {
+    callback_->OnResponseBodyError(*request_, *response_, status);
+  } else {
+    callback_->OnResponseCompleted(*request_, *response_);
+  }
 }
 
 absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 56797e9..09056e6 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -55,8 +55,10 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   // Removes this request from the corresponding multi-handle.
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
-  // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // Marks the request as completed with the given result of the transfer, which
+  // fires the OnComplete callback or one of the error callbacks.
+  void MarkAsCompleted(CURLcode result) ABSL_LOCKS_EXCLUDED(mutex_)
+      ABSL_NO_THREAD_SAFETY_ANALYSIS;
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
@@ -71,6 +73,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   CURLcode InitializeHeaders(const HeaderList& extra_headers,
                              HttpRequest::Method method)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  // Creates the response from the parsed headers and fires the
+  // OnResponseStarted callback. Returns false if the callback wants to stop.
+  bool StartResponse() ABSL_NO_THREAD_SAFETY_ANALYSIS;
   // A helper function called _sequentially_ when a response header received.
   static size_t HeaderCallback(char* buffer, size_t size, size_t n_items,
                                void* user_data) ABSL_NO_THREAD_SAFETY_ANALYSIS;
@@ -89,7 +94,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
 
   mutable absl::Mutex mutex_;
   const std::unique_ptr<HttpRequest> request_ ABSL_GUARDED_BY(mutex_);
-  std::unique_ptr<HttpResponse> response_ ABSL_GUARDED_BY(mutex_);
+  // Used only by the thread that performs the request.
+  std::unique_ptr<HttpResponse> response_;
   const std::unique_ptr<CurlEasyHandle> easy_handle_ ABSL_GUARDED_BY(mutex_);
   // Used only in the HeaderCallback sequentially.
   CurlHeaderParser header_parser_{};
@@ -98,6 +104,12 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
+  // Set when a callback returned an error, in which case no further callbacks
+  // must be called. Used only by the thread that performs the request.
+  bool is_stopped_by_callback_;
+  // The error that ended the reading of the request body, if any. Used only by
+  // the thread that performs the request.
+  absl::Status read_status_;
   // The result of the initialization in the constructor.
   absl::Status init_status_ ABSL_GUARDED_BY(mutex_);
   char error_buffer_[CURL_ERROR_SIZE] ABSL_GUARDED_BY(mutex_){};
-- 
2.43.0


From 15c8e584f13a24c47cb190f51a8bb1bd51142cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:56 +0000
Subject: [PATCH 26/46] fix: evaluate every eligibility policy when several
 have the same name

---
 fcp/client/eligibility_decider.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fcp/client/eligibility_decider.cc b/fcp/client/eligibility_decider.cc
index c205afe..b2f9d24 100644
--- a/fcp/client/eligibility_decider.cc
+++ b/fcp/client/eligibility_decider.cc
@@ -419,15 +419,15 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // unfilled.
   TaskEligibilityInfo eligibility_result;
 
-  // Initialize map of policy name -> task names that use that policy, and check
-  // that the implementation versions for each policy are supported by the
+  // Initialize map of policy index -> task names that use that policy, and
+  // check that the implementation versions for each policy are supported by the
   // client.
-  // This map must only contain names of policies that are implemented.
-  absl::flat_hash_map<std::string, absl::flat_hash_set<std::string>>
-      policy_name_to_task_names;
+  // This map must only contain indices of policies that are implemented.
+  absl::flat_hash_map<int, absl::flat_hash_set<std::string>>
+      policy_index_to_task_names;
 
   // Track task names that use unimplemented policies. After we build the policy
-  // name -> task name map, we'll prune any task names that use unimplemented
+  // index -> task name map, we'll prune any task names that use unimplemented
   // policies. We can't do this until after we've built the whole map.
   absl::flat_hash_set<std::string> task_names_using_unimplemented_policies;
 
@@ -498,7 +498,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
     if (!policy_implemented) {
       continue;
     }
-    policy_name_to_task_names[policy_spec.name()] = task_names;
+    policy_index_to_task_names[policy_index] = task_names;
   }
 
   // Initialize the list of task names to compute eligibility for. Task names
@@ -524,7 +524,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // For each policy:
   // 1. If eligible tasks is now empty due to the previous iteration, quit
   // early.
-  // 2. Get task names from policy_name_to_task_names.
+  // 2. Get task names from policy_index_to_task_names.
   // 3. Intersect with eligible_tasks to get the set of tasks names that we
   // should use to compute eligibility for this policy.
   // 4. Call compute x policy, get back a set of task names. This set will only
@@ -533,24 +533,27 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // 5. Remove all tasks from eligible_tasks that are not eligible according to
   // the policy computation.
 
-  for (const EligibilityPolicyEvalSpec& policy_spec :
-       population_eligibility_spec.eligibility_policies()) {
+  for (int policy_index = 0;
+       policy_index < population_eligibility_spec.eligibility_policies_size();
+       policy_index++) {
+    const EligibilityPolicyEvalSpec& policy_spec =
+        population_eligibility_spec.eligibility_policies(policy_index);
     // Check if there are no more eligible tasks due to previous policy
     // computations. If so, there's no point in continuing to evaluate policies.
     if (eligible_tasks.empty()) {
       break;
     }
 
-    // policy_name_to_task_names contains our map of *implemented* policies to
+    // policy_index_to_task_names contains our map of *implemented* policies to
     // the tasks that use them. First check if it's in the map. If not, there's
     // no point in evaulating this policy.
-    if (!policy_name_to_task_names.contains(policy_spec.name())) {
+    if (!policy_index_to_task_names.contains(policy_index)) {
       continue;
     }
 
     // The task names this policy applies to.
     absl::flat_hash_set<std::string> policy_task_names =
-        policy_name_to_task_names.at(policy_spec.name());
+        policy_index_to_task_names.at(policy_index);
     // Remove those tasks that already aren't eligible anymore.
     absl::erase_if(policy_task_names,
                    [&eligible_tasks](const std::string& policy_task_name) {
-- 
2.43.0


From 5f66140afa736b27bc558506d654d88d0347c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:11 +0000
Subject: [PATCH 27/46] fix: record initialization errors under the matching
 event kind

---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From 5e18f2e3ec8902b05809a0651d66836a395ecb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:29 +0000
Subject: [PATCH 28/46] fix: report a cancellation made while a bodiless
 response is started

---
 .../http/curl/curl_http_request_handle.cc     | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index f6febe6..5d55837 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -225,12 +225,26 @@ void CurlHttpRequestHandle::Cancel() {
 
 void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
   absl::Status status;
+  bool start_response;
   {
     absl::MutexLock lock(&mutex_);
     FCP_CHECK(callback_ != nullptr);
     if (is_completed_) {
       return;
     }
+    start_response = result == CURLE_OK && !is_cancelled_ &&
+                     response_ == nullptr &&
+                     header_parser_.GetStatusCode() != -1;
+  }
+
+  // The callbacks are called without holding the lock, since they may use this
+  // handle.
+  if (start_response) {
+    StartResponse();
+  }
+
+  {
+    absl::MutexLock lock(&mutex_);
     is_completed_ = true;
     if (is_cancelled_) {
       status = absl::CancelledError();
@@ -241,17 +255,11 @@ void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
     }
   }
 
-  // The callbacks are called without holding the lock, since they may use this
-  // handle.
   if (is_stopped_by_callback_) {
     return;
   }
   if (status.ok() && response_ == nullptr) {
-    if (header_parser_.GetStatusCode() == -1) {
-      status = absl::InternalError("No response received");
-    } else if (!StartResponse()) {
-      return;
-    }
+    status = absl::InternalError("No response received");
   }
   if (response_ == nullptr) {
     callback_->OnResponseError(*request_, status);
-- 
2.43.0


From 195ed646b8e8199b4eb57187025cb27bcdbb1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:54 +0000
Subject: [PATCH 29/46] fix: reject results of an unexpected format before an
 upload starts

A quantized tensor given as the result of a task that uses simple or
confidential aggregation was only noticed after the upload had been
started, by a failing variant access that ends the process. Return the
same error as for other unexpected formats instead.
---
 fcp/client/http/http_federated_protocol.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/http/http_federated_protocol.cc b/fcp/client/http/http_federated_protocol.cc
index 044f1b3..b23f95d 100644
--- a/fcp/client/http/http_federated_protocol.cc
+++ b/fcp/client/http/http_federated_protocol.cc
@@ -1199,6 +1199,11 @@ absl::Status HttpFederatedProtocol::ReportViaSimpleOrConfidentialAggregation(
           " computation produced FC Wire Format but this feature is "
           "not enabled."));
     }
+    if (!std::holds_alternative<TFCheckpoint>(result) &&
+        !std::holds_alternative<FCCheckpoint>(result)) {
+      return absl::InternalError(absl::StrCat(
+          aggregation_type_readable, " aggregands have unexpected format."));
+    }
   }
   auto start_upload_status = HandleStartDataAggregationUploadOperationResponse(
       PerformStartDataUploadRequestAndReportTaskResult(plan_duration,
-- 
2.43.0


From fd3c87594f7eb6ba222927186e936386bd361e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:51 +0000
Subject: [PATCH 30/46] fix: check the shape of a COSE_Sign signature before
 using it

---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From c3a4a31bb2acf091ad56da73048a2f209b3e38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:51 +0000
Subject: [PATCH 31/46] fix: refuse attested tokens without an algorithm or a
 public key

---
 .../attestation/oak_rust_attestation_verifier.cc       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fcp/client/attestation/oak_rust_attestation_verifier.cc b/fcp/client/attestation/oak_rust_attestation_verifier.cc
index d840655..eb248f6 100644
--- a/fcp/client/attestation/oak_rust_attestation_verifier.cc
+++ b/fcp/client/attestation/oak_rust_attestation_verifier.cc
@@ -112,11 +112,19 @@ absl::StatusOr<OkpKey> OakRustAttestationVerifier::Verify(
 
   // Ensure that the CWT is signed using the expected ECDSA256 signing
   // algorithm.
-  if (!cwt->algorithm.has_value() || *cwt->algorithm != kAlgorithmES256) {
+  if (!cwt->algorithm.has_value()) {
+    return absl::FailedPreconditionError("Missing COSE signing algorithm.");
+  }
+  if (*cwt->algorithm != kAlgorithmES256) {
     return absl::FailedPreconditionError(absl::Substitute(
         "Unsupported COSE signing algorithm ($0).", *cwt->algorithm));
   }
 
+  // Ensure that the CWT actually contains a public key.
+  if (!cwt->public_key.has_value()) {
+    return absl::FailedPreconditionError("Missing public key in CWT.");
+  }
+
   // Extract the protected parts of the CWT (the COSE Sig_structure), which are
   // the parts of the CWT that are covered by the signature.
   absl::StatusOr<std::string> cwt_sig_structure =
-- 
2.43.0


From 678fa1f2b780a417e73c6e0a8b0b81d9ce7ff113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:51 +0000
Subject: [PATCH 32/46] fix: refuse a token without a public key in the
 always-passing verifier

---
 fcp/client/attestation/attestation_verifier.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/attestation/attestation_verifier.cc b/fcp/client/attestation/attestation_verifier.cc
index ae502d3..8a30b2b 100644
--- a/fcp/client/attestation/attestation_verifier.cc
+++ b/fcp/client/attestation/attestation_verifier.cc
@@ -45,6 +45,9 @@ absl::StatusOr<OkpKey> AlwaysPassingAttestationVerifier::Verify(
         "Parsing confidential aggregation public key failed.";
     return absl::Status(cwt.status().code(), error_msg);
   }
+  if (!cwt->public_key.has_value()) {
+    return absl::FailedPreconditionError("Missing public key in CWT.");
+  }
   return *cwt->public_key;
 }
 
-- 
2.43.0


From d02497695f8f17aea42303e7bd4aeb73631a8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:51 +0000
Subject: [PATCH 33/46] fix: answer 400 to a gzip body that ends early

---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..a77ce06 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (EOFError, gzip.BadGzipFile, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 76f602301bc088ce4318edcb624575bfb8ba2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:51 +0000
Subject: [PATCH 34/46] fix: answer 400 to a missing, invalid or unmet
 Content-Length

---
 fcp/demo/http_actions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index a77ce06..cab2fa2 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -239,7 +239,16 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
 
     def _read_body(self) -> bytes:
       """Reads the body of the request."""
-      body = self.rfile.read(int(self.headers['Content-Length']))
+      try:
+        content_length = int(self.headers['Content-Length'])
+      except (TypeError, ValueError) as e:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
+      if content_length < 0:
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
+      body = self.rfile.read(content_length)
+      if len(body) != content_length:
+        # The connection was closed before the whole body was received.
+        raise HttpError(http.HTTPStatus.BAD_REQUEST)
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-- 
2.43.0


From f15bba19abd4d3865d5fa02b20f181aedc4bf66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:31 +0000
Subject: [PATCH 35/46] fix: clean up an aggregation session under the sessions
 lock

---
 fcp/demo/aggregations.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..34095e4 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -351,17 +351,18 @@ class Service:
     Args:
       state: The session state to clean up.
     """
-    state.authorization_tokens.clear()
-    for client_data in state.active_clients.values():
-      self._media_service.finalize_upload(client_data.resource_name)
-    state.active_clients.clear()
-    # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
-      status = self._get_session_status(state)
-      for data in state.pending_waits:
-        data.loop.call_soon_threadsafe(
-            functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
+    with self._sessions_lock:
+      state.authorization_tokens.clear()
+      for client_data in state.active_clients.values():
+        self._media_service.finalize_upload(client_data.resource_name)
+      state.active_clients.clear()
+      # Anyone waiting on the session should be notified that it's finished.
+      if state.pending_waits:
+        status = self._get_session_status(state)
+        for data in state.pending_waits:
+          data.loop.call_soon_threadsafe(
+              functools.partial(data.status_future.set_result, status))
+        state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From 72961683834758826934da8b12e00556faaf0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:31 +0000
Subject: [PATCH 36/46] fix: do not keep an upload for a session that finished
 during the request

---
 fcp/demo/aggregations.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 34095e4..cb36c2a 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -386,9 +386,16 @@ class Service:
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
-      state.active_clients[client_token] = _ActiveClientData(
-          client_id, upload_name
-      )
+      session_finished = request.aggregation_id not in self._sessions
+      if not session_finished:
+        state.active_clients[client_token] = _ActiveClientData(
+            client_id, upload_name
+        )
+    if session_finished:
+      # The session was cleaned up in the meantime, so the upload would never be
+      # finalized.
+      self._media_service.finalize_upload(upload_name)
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
 
     forwarding_info = self._forwarding_info()
     response = aggregations_pb2.StartAggregationDataUploadResponse(
-- 
2.43.0


From 85ee25020efa11aaa5e94f93e1279f1dd4edb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:31 +0000
Subject: [PATCH 37/46] fix: close clients that submit a result under the wrong
 resource name

---
 fcp/demo/aggregations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index cb36c2a..b28307d 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -430,6 +430,12 @@ class Service:
     # Ensure the client is using the resource name provided when they called
     # StartAggregationDataUpload.
     if request.resource_name != client_data.resource_name:
+      with contextlib.suppress(KeyError):
+        self._media_service.finalize_upload(client_data.resource_name)
+      status = absl_status.invalid_argument_error('Incorrect resource name')
+      state.agg_protocol.CloseClient(
+          client_data.client_id, status.message(), status.raw_code()
+      )
       raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
 
     # The aggregation protocol may have already closed the connect (e.g., if
-- 
2.43.0


From f4d100f394fbd6224cfbfa18913307c331d13c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 38/46] fix: write the bytes values of an example query result
 to the checkpoint

---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From fc10b02097c19c0b71833483bfb554a46b0abf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 39/46] fix: write every output of an example query that shares
 a vector with another

---
 .../engine/example_query_plan_engine.cc       | 35 +++++--------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index 8acd25e..8ba3bb9 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -76,21 +76,6 @@ absl::Status WriteSlice(tf::checkpoint::TensorSliceWriter& slice_writer,
   return slice_writer.Add(name, shape, slice, data);
 }
 
-// Returns a map of (vector name) -> tuple(output name, vector spec).
-absl::flat_hash_map<std::string,
-                    std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
-GetOutputVectorSpecs(const ExampleQuerySpec::ExampleQuery& example_query) {
-  absl::flat_hash_map<
-      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
-      map;
-  for (auto const& [output_name, output_vector_spec] :
-       example_query.output_vector_specs()) {
-    map[output_vector_spec.vector_name()] =
-        std::make_tuple(output_name, output_vector_spec);
-  }
-  return map;
-}
-
 absl::Status CheckOutputVectorDataType(
     const ExampleQuerySpec::OutputVectorSpec& output_vector_spec,
     const ExampleQuerySpec::OutputVectorSpec::DataType& expected_data_type) {
@@ -114,12 +99,10 @@ absl::Status WriteCheckpoint(
     const ExampleQueryResult& example_query_result = example_query_results[i];
     const ExampleQuerySpec::ExampleQuery& example_query =
         example_query_spec.example_queries()[i];
-    for (auto const& [vector_name, vector_tuple] :
-         GetOutputVectorSpecs(example_query)) {
-      std::string output_name = std::get<0>(vector_tuple);
-      ExampleQuerySpec::OutputVectorSpec output_vector_spec =
-          std::get<1>(vector_tuple);
-      auto it = example_query_result.vector_data().vectors().find(vector_name);
+    for (auto const& [output_name, output_vector_spec] :
+         example_query.output_vector_specs()) {
+      auto it = example_query_result.vector_data().vectors().find(
+          output_vector_spec.vector_name());
       if (it == example_query_result.vector_data().vectors().end()) {
         return absl::DataLossError(
             "Expected value not found in the example query result");
@@ -200,12 +183,10 @@ absl::Status GenerateAggregationTensors(
     const ExampleQueryResult& example_query_result = example_query_results[i];
     const ExampleQuerySpec::ExampleQuery& example_query =
         example_query_spec.example_queries()[i];
-    for (auto const& [vector_name, vector_tuple] :
-         GetOutputVectorSpecs(example_query)) {
-      std::string output_name = std::get<0>(vector_tuple);
-      ExampleQuerySpec::OutputVectorSpec output_vector_spec =
-          std::get<1>(vector_tuple);
-      auto it = example_query_result.vector_data().vectors().find(vector_name);
+    for (auto const& [output_name, output_vector_spec] :
+         example_query.output_vector_specs()) {
+      auto it = example_query_result.vector_data().vectors().find(
+          output_vector_spec.vector_name());
       if (it == example_query_result.vector_data().vectors().end()) {
         return absl::DataLossError(
             "Expected value not found in the example query result");
-- 
2.43.0


From 4c50442028044f9202020885b53365a8ea2bf3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 40/46] fix: do not run a task on a truncated input checkpoint

---
 fcp/client/fl_runner.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..eb0ce6d 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -849,6 +849,9 @@ absl::StatusOr<std::string> CreateInputCheckpointFile(
     return absl::InvalidArgumentError("Failed to write to file");
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InvalidArgumentError("Failed to write to file");
+  }
   return filename;
 }
 
-- 
2.43.0


From 7ab31d5c0246dec9a6d695597144d986c4edc51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 41/46] fix: do not count a task whose results could not be
 created as contributed

---
 fcp/client/fl_runner.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index eb0ce6d..638fc71 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1865,6 +1865,9 @@ RunPlanResults RunComputation(
             ? nullptr
             : &checkin_result->plan.phase().tensorflow_spec(),
         plan_result_and_checkpoint_file, flags);
+    if (!computation_results.ok()) {
+      outcome = engine::PlanOutcome::kTensorflowError;
+    }
   }
   LogComputationOutcome(
       plan_result_and_checkpoint_file.plan_result, computation_results.status(),
-- 
2.43.0


From 9824cf7e89833cb6d2adc46509b426da1abdf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 42/46] fix: do not hand out truncated federated select slices

---
 fcp/client/federated_select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..be2b3a6 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -285,6 +285,9 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
     }
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From 03c90c94629ad48f745d7895654ec136688d69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:00 +0000
Subject: [PATCH 43/46] fix: remove the scratch file when fetching federated
 select slices fails

---
 fcp/client/federated_select.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index be2b3a6..8a0dd42 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -204,6 +204,7 @@ HttpFederatedSelectExampleIteratorFactory::CreateExampleIterator(
   bytes_received_acc_ += bytes_received;
   if (!slices.ok()) {
     log_manager_.LogDiag(ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_FAILED);
+    std::filesystem::remove(*scratch_filename);
     return absl::Status(slices.status().code(),
                         absl::StrCat("Failed to fetch slice data: ",
                                      slices.status().message()));
-- 
2.43.0


From 92ed859bdfc152c645f66e4c9930f1183fced401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:53 +0000
Subject: [PATCH 44/46] fix: Do not overflow when looking up the token of a
 very negative id

---
 fcp/dictionary/dictionary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fcp/dictionary/dictionary.cc b/fcp/dictionary/dictionary.cc
index 3c94926..dd1d78f 100644
--- a/fcp/dictionary/dictionary.cc
+++ b/fcp/dictionary/dictionary.cc
@@ -108,6 +108,7 @@ class DictionaryImpl : public Dictionary {
   }
 
   std::string IdToToken(int32_t id) const override {
+    if (id <= max_special_id_) return "";
     return MapReverseLookup(*bimap_, id - (max_special_id_ + 1));
   }
 
-- 
2.43.0


From 95f728efa8524a900f88ff851c136c2064523213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:53 +0000
Subject: [PATCH 45/46] fix: Do not report negative ids as special ids of a
 dictionary

---
 fcp/dictionary/dictionary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/dictionary/dictionary.cc b/fcp/dictionary/dictionary.cc
index dd1d78f..3f9f240 100644
--- a/fcp/dictionary/dictionary.cc
+++ b/fcp/dictionary/dictionary.cc
@@ -113,7 +113,7 @@ class DictionaryImpl : public Dictionary {
   }
 
   bool IsSpecialId(int32_t token_id) const override {
-    return token_id <= max_special_id_;
+    return token_id >= 0 && token_id <= max_special_id_;
   }
 
   const std::vector<int32_t>& GetSortedOutputBlocklistIds() const override {
-- 
2.43.0


From a580fa84dbc857f540c9bcc7e1a40b87d60b6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:53 +0000
Subject: [PATCH 46/46] fix: Name the expectation that failed in errors of
 ExpectFalse

---
 fcp/base/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/base/result.h b/fcp/base/result.h
index 6d2bdd2..31502fa 100644
--- a/fcp/base/result.h
+++ b/fcp/base/result.h
@@ -323,7 +323,7 @@ struct ExpectFalse : public ExpectBase {
     if (!b) {
       return Unit{};
     } else {
-      return TraceExpectError("ExpectTrue");
+      return TraceExpectError("ExpectFalse");
     }
   }
 };
-- 
2.43.0

