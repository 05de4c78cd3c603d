From 07feaea11bec59816856bd99cb63a148d690e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:18 +0000
Subject: [PATCH 01/15] fix: reduce sums of field elements in Shamir
 reconstruction without overflowing 32 bits

---
 fcp/secagg/shared/shamir_secret_sharing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..493fa10 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -137,8 +137,10 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      // The sum of two field elements may not fit in 32 bits.
+      subsecrets[i] = static_cast<uint32_t>(AddMod(
+          subsecrets[i], MultiplyMod(subshare, coefficients[j], kPrime),
+          kPrime));
     }
   }
 
-- 
2.43.0


From 67d7c2888dfe86810c05ff19553183edb00e0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:06 +0000
Subject: [PATCH 02/15] fix: abandon a promise that is overwritten by move
 assignment

---
 fcp/base/future.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..e1de488 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -39,6 +39,7 @@
 #include <memory>
 #include <optional>
 #include <tuple>
+#include <utility>
 #include <variant>
 
 #include "absl/base/macros.h"
@@ -167,7 +168,12 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
+  Promise& operator=(Promise&& other) {
+    // The previous state ends up in a temporary, which abandons it.
+    Promise previous(std::move(other));
+    std::swap(state_, previous.state_);
+    return *this;
+  }
 
   ~Promise() {
     if (state_.has_value()) {
-- 
2.43.0


From 95dd60aff2902c326aa02e6ddbd39b4f849ea8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:26 +0000
Subject: [PATCH 03/15] fix: pad percent escapes of control characters to two
 digits

---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From 1c0cb370e49ad077748eabd90860c43993dd5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:20 +0000
Subject: [PATCH 04/15] fix: keep all 64 bits of a trace span identifier

---
 fcp/tracing/tracing_span_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/tracing/tracing_span_id.h b/fcp/tracing/tracing_span_id.h
index b737ccc..79525c5 100644
--- a/fcp/tracing/tracing_span_id.h
+++ b/fcp/tracing/tracing_span_id.h
@@ -29,7 +29,7 @@ struct TracingSpanId {
 
   // Generates next unique id
   static TracingSpanId NextUniqueId();
-  explicit constexpr TracingSpanId(int id) : value(id) {}
+  explicit constexpr TracingSpanId(std::int64_t id) : value(id) {}
 
  private:
   static std::atomic<std::int64_t> id_source;
-- 
2.43.0


From 4657e469c4c63e999ae25723e5a2f37ae02c2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:43 +0000
Subject: [PATCH 05/15] fix: keep header values that contain colons

---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From 691faa911557ceb0c79c67ab0e76fa2da1bfd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:43 +0000
Subject: [PATCH 06/15] fix: keep entries of earlier runs when the first commit
 of a run log fails

---
 fcp/client/opstats/opstats_logger_impl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..c64dba7 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,11 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // If the commit failed then there's no entry for this run yet, and a later
+  // commit must not replace the entry of an earlier run.
+  if (status.ok()) {
+    already_committed_ = true;
+  }
   return status;
 }
 
-- 
2.43.0


From 6d2e78eb8530907b7326cd72c68b2ea5f3fae34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:11 +0000
Subject: [PATCH 07/15] fix: Answer a truncated gzip request body with a client
 error

---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..ae04df9 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (gzip.BadGzipFile, EOFError, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 083cd1e93a17c6e42736458ef2575eb6bd63d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:42 +0000
Subject: [PATCH 08/15] fix: return an error when no share of a self-mask key
 is available

In sessions with a subgraph of neighbours, a client whose masked input was
collected may have no neighbour left that answers the unmasking request.
AesKey::CreateFromShares then terminated the server process on a failed
check. It now returns an error, as secret reconstruction does when shares
are missing, and the session is aborted.
---
 fcp/secagg/shared/aes_key.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index 721399f..e5ee336 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -46,7 +46,11 @@ StatusOr<AesKey> AesKey::CreateFromShares(
       FCP_CHECK(shares[i].data.empty());
     }
   }
-  FCP_CHECK(key_length != 0);
+  if (key_length == 0) {
+    return FCP_STATUS(FAILED_PRECONDITION)
+           << "No key shares were provided, but threshold was specified as "
+           << threshold;
+  }
   std::string reconstructed;
   FCP_ASSIGN_OR_RETURN(
       reconstructed, reconstructor.Reconstruct(threshold, shares, key_length));
-- 
2.43.0


From 1301a172d8721a0cb736accd81b4d5c2aaabbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:37 +0000
Subject: [PATCH 09/15] fix: reject unmasking responses with a wrong number of
 key shares

HandleUnmaskingResponse reads one key share per neighbour without checking
how many the client sent. A response with fewer shares made the server read
past the end of the message. Such a client is now aborted, as a client with
a wrong number of encrypted key shares already is.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..cfd5308 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,13 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  if (unmasking_response.noise_or_prf_key_shares().size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "The UnmaskingResponse does not contain the expected number of key "
+        "shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From 8bed4734ca7bc09fc63825b6c74e9198ffd09c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:59 +0000
Subject: [PATCH 10/15] fix: return an error when key shares have an invalid
 size

Key shares arrive from clients. A share of an unexpected size, or shares of
the same key with different sizes, failed a check while the server was
reconstructing keys and ended the process. Key reconstruction now returns an
error, so only the aggregation session is aborted.
---
 .../server/secagg_server_protocol_impl.cc     | 27 +++++++++++++++++++
 fcp/secagg/shared/aes_key.cc                  |  6 +++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cfd5308..4041e04 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -18,6 +18,7 @@
 
 #include <string>
 #include <utility>
+#include <vector>
 
 #include "absl/container/node_hash_map.h"
 #include "absl/status/status.h"
@@ -35,6 +36,30 @@ class EmptyExperiment : public fcp::secagg::ExperimentsInterface {
   bool IsEnabled(absl::string_view experiment_name) override { return false; }
 };
 
+// Key shares are sent by clients, so their sizes can't be relied upon. Returns
+// an error unless all shares that are present can belong to the same key.
+fcp::Status CheckKeyShareSizes(
+    const std::vector<fcp::secagg::ShamirShare>& shares) {
+  // A share consists of 4 byte values, nine of them for a 32 byte key.
+  static constexpr size_t kSubshareSize = 4;
+  static constexpr size_t kMaxShareSize = 36;
+  size_t share_size = 0;
+  for (const auto& share : shares) {
+    if (share.data.empty()) {
+      continue;
+    }
+    if (share_size == 0) {
+      share_size = share.data.size();
+    }
+    if (share.data.size() != share_size || share_size % kSubshareSize != 0 ||
+        share_size > kMaxShareSize) {
+      return ::absl::InvalidArgumentError(
+          "Unable to reconstruct a key from shares of invalid size");
+    }
+  }
+  return ::absl::OkStatus();
+}
+
 }  // namespace
 
 namespace fcp {
@@ -327,6 +352,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   ShamirSecretSharing reconstructor;
 
   for (const auto& item : *pairwise_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckKeyShareSizes(item.second));
     FCP_ASSIGN_OR_RETURN(std::string reconstructed_key,
                          reconstructor.Reconstruct(
                              minimum_surviving_neighbors_for_reconstruction(),
@@ -345,6 +371,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   }
 
   for (const auto& item : *self_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckKeyShareSizes(item.second));
     FCP_ASSIGN_OR_RETURN(
         AesKey reconstructed,
         AesKey::CreateFromShares(
diff --git a/fcp/secagg/shared/aes_key.cc b/fcp/secagg/shared/aes_key.cc
index e5ee336..ef2c8e5 100644
--- a/fcp/secagg/shared/aes_key.cc
+++ b/fcp/secagg/shared/aes_key.cc
@@ -41,9 +41,11 @@ StatusOr<AesKey> AesKey::CreateFromShares(
       key_length = kSize;
     } else if (shares[i].data.size() == 20) {
       key_length = kLegacyKeySize;  // May be 17 bytes or shorter, see below
-    } else {
+    } else if (!shares[i].data.empty()) {
       // Key share must be missing if it's not one of those lengths.
-      FCP_CHECK(shares[i].data.empty());
+      return FCP_STATUS(INVALID_ARGUMENT)
+             << "Share with index " << i << " has an invalid size of "
+             << shares[i].data.size();
     }
   }
   if (key_length == 0) {
-- 
2.43.0


From 0b1d2319231924242902dff9901d6c4eec5e49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:42 +0000
Subject: [PATCH 11/15] fix: refuse tokens whose first signature is malformed

OkpCwt::Decode did not check that the first entry of a COSE_Sign signature
list is an array, and checked the type of the protected header twice instead
of the type of the signature. A token with either element of another type
dereferenced a null pointer.
---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From 7c3304fa5ba2af66678648465a93cd2c43412b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:49 +0000
Subject: [PATCH 12/15] fix: report write errors that only surface when the
 file is closed

---
 fcp/base/platform.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..2dc5a87 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -94,6 +94,8 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  // Errors of the buffered writes may only surface when the file is closed.
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +118,12 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  // Errors of the buffered writes may only surface when the file is closed.
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 5831ee35839342cbd7a0836d9c0f24b0af9326bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:44 +0000
Subject: [PATCH 13/15] fix: report federated select slices that could not be
 stored completely

---
 fcp/client/federated_select.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..50e375f 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -284,7 +284,11 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
       return absl::InternalError("Failed to write slice to file");
     }
   }
+  // Errors of the buffered writes may only surface when the file is closed.
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From 221654119cec62b1954933f6f8b0b765fc152dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:47 +0000
Subject: [PATCH 14/15] fix: keep the minimum separation policy index of runs
 recorded per phase

Converting a per-phase operational statistics entry to the flat form dropped
the policy index, so the minimum separation policy was not applied to
those runs.
---
 fcp/client/opstats/opstats_utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..91be9d2 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,11 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      // The index is recorded once per run, and applies to all of its tasks.
+      if (op_stats.has_min_sep_policy_index()) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From 39d63c4e0f862784125ff58dfe3a72176ad61ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:47 +0000
Subject: [PATCH 15/15] fix: never serve a partial or outdated file from the
 resource cache

Storing a resource under an identifier that was already cached kept the old
content and metadata. A resource file whose write failed or was interrupted was
listed in the manifest and later returned as if complete.

The entry is now removed from the manifest first, the file is written, and the
entry is added once the file is complete.
---
 .../cache/file_backed_resource_cache.cc       | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..c5e6288 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -182,30 +182,24 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
+  // Write the manifest back to disk without this entry before we write the
+  // file, so that a write that fails or is interrupted never leaves behind an
+  // entry for a partial or outdated file.
+  manifest.mutable_cache()->erase(cache_id_str);
   FCP_RETURN_IF_ERROR(
-      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
+      WriteInternal(std::make_unique<CacheManifest>(manifest)));
 
-  // Write file if it doesn't exist.
-  std::error_code exists_error;
-  bool cached_file_exists =
-      std::filesystem::exists(cached_file_path, exists_error);
-  if (exists_error.value() != 0) {
-    log_manager_.LogDiag(
-        ProdDiagCode::RESOURCE_CACHE_PUT_FAILED_TO_CHECK_IF_FILE_EXISTS);
-    return absl::InternalError(absl::StrCat(
-        "Failed to check if cached resource already exists with error code: ",
-        exists_error.value()));
-  }
-  if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
-    if (!status.ok()) {
-      log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
-      return status;
-    }
+  // Write the file, overwriting any existing one.
+  auto status = WriteCordToFile(cached_file_path.string(), resource);
+  if (!status.ok()) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    return status;
   }
 
+  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
+  FCP_RETURN_IF_ERROR(
+      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
+
   return absl::OkStatus();
 }
 
-- 
2.43.0

