From 7b9254280439b5a42317862e3d651d1f39ccf715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 01/25] fix: fill the whole AESUniformBitGenerator buffer for
 odd buffer sizes

A refill writes buffer_size / 2 AES blocks, so with an odd buffer_size the last
element was never written: the generator returned the same stale value once per
refill, and its output depended on the buffer size.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..2ef021e 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -20,6 +20,11 @@ mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
   if (buffer_size < 2) {
     buffer_size = 2;
   }
+  // Each AES call produces two elements, so an odd buffer could never be filled
+  // completely.
+  if (buffer_size % 2 != 0) {
+    buffer_size++;
+  }
   AESUniformBitGenerator result(buffer_size);
   RETURN_IF_ERROR(result.seed(seed));
   return result;
-- 
2.43.0


From 11bc579a2b3e089ef78a24b2ae1388164d24b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 02/25] fix: read the AESUniformBitGenerator nonce without
 assuming alignment

seed() dereferenced a uint128 pointer into caller-provided bytes, which is
undefined behaviour (a misaligned load) unless they happen to be aligned.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 2ef021e..741008c 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -40,8 +41,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  // Use second 16 bytes of seed as nonce. `seed` may be unaligned.
+  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From 5dbb74cb3bc35482b9f58a4252d7210971191647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 03/25] fix: keep refusing output once the reseed interval is
 exhausted

The budget was checked after the buffer had been refilled, so the call that
exceeded it threw, but the following calls returned the elements generated
beyond the limit.
---
 .../aes_uniform_bit_generator.cpp               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 741008c..c464a28 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -55,6 +55,15 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     // separate vector for the nonces which allows the CPU to pipeline calls to
     // AES_encrypt.
     int64_t num_blocks = buffer_size / 2;
+    // Check if we would exceed the reseed interval. Since the return type of
+    // operator() is required to be result_type, we have to throw an exception
+    // here. Doing this before touching the buffer ensures that all subsequent
+    // calls fail as well, until seed() is called.
+    if (counter_ > kReseedInterval - num_blocks) {
+      throw std::runtime_error(
+          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
+                       " calls to this AESUniformBitGenerator"));
+    }
     std::vector<absl::uint128> nonces(num_blocks);
     for (int64_t i = 0; i < num_blocks; i++) {
       nonces[i] = nonce_;
@@ -66,14 +75,6 @@ AESUniformBitGenerator::result_type AESUniformBitGenerator::operator()() {
     }
     elements_used_ = 0;
     counter_ += num_blocks;
-    // Check if we exceeded the reseed interval. Since the return type of
-    // operator() is required to be result_type, we have to throw an exception
-    // here.
-    if (counter_ > kReseedInterval) {
-      throw std::runtime_error(
-          absl::StrCat("`seed()` must be called every ", 2 * kReseedInterval,
-                       " calls to this AESUniformBitGenerator"));
-    }
   }
   result_type result = buffer_[elements_used_];
   elements_used_++;
-- 
2.43.0


From 7582c8db09c11a6f93e094d5e7f3f7b16cc7949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 04/25] fix: validate all arguments of
 GGMTree::CreateFromSiblingWiseXOR

A negative missing_index, a number of keys different from arity and too many
levels in sibling_wise_xors were accepted and led to out-of-bounds accesses.
---
 distributed_vector_ole/ggm_tree.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..ba28254 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -134,6 +134,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   int num_levels = sibling_wise_xors.size() + 1;
   for (int i = 0; i < num_levels - 1; i++) {
     if (static_cast<int>(sibling_wise_xors[i].size()) != arity) {
@@ -148,6 +152,9 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError("`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
@@ -166,9 +173,12 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "Dimensions passed in `sibling_wise_xors` do not match `num_leaves`");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
-  assert(tree->num_levels() == num_levels);
 
   // Expand tree from the root. At each level, use sibling_wise_xors together
   // with already computed subtrees to compute all missing seeds but one, and
-- 
2.43.0


From 76bc8e7be4fec4296e75ca8dfb40513e6b0f27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 05/25] fix: reject repeated and out-of-range MPFSS indices

Repeated indices were only detected if they made cuckoo hashing fail, which
needs more copies of an index than there are hash functions; otherwise the
protocol silently computed shares of a different vector. An index equal to
output.size() and negative indices were accepted as well, and written to the
wrong bucket position or out of bounds.
---
 distributed_vector_ole/mpfss_known_indices.h | 23 ++++++++------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..bc95b7a 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,26 +190,21 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 || indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
   }
+  // Cuckoo hashing can succeed for repeating indices, as each element may be
+  // placed in several buckets. So we have to check for uniqueness explicitly.
+  absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
+  if (indices.size() != indices_set.size()) {
+    return mpc_utils::InvalidArgumentError("All `indices` must be unique");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
-  // Checking for uniqueness of `indices` takes time, so we only do that if
-  // cuckoo hashing fails.
-  auto status = hasher_->HashCuckoo(indices, num_buckets);
-  if (!status.ok() && mpc_utils::IsInternal(status.status()) &&
-      status.status().message() ==
-          "Failed to insert element, maximum number of tries exhausted") {
-    // Probably due to repeating indices.
-    absl::flat_hash_set<int64_t> indices_set(indices.begin(), indices.end());
-    if (indices.size() != indices_set.size()) {
-      return mpc_utils::InvalidArgumentError("All `indices` must be unique");
-    }
-  }
-  ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  ASSIGN_OR_RETURN(auto hashed_inputs,
+                   hasher_->HashCuckoo(indices, num_buckets));
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From bc3a0952f54ed9fb8b37a8dbbec09f8b86ad37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 06/25] fix: check the sizes of the VOLE correlation and output
 passed to MPFSS

u, v and w that do not match the number of buckets, and an output shorter than
y_len on the value provider's side, were used unchecked, leading to
out-of-bounds reads. A negative output size made UpdateBuckets throw.
---
 distributed_vector_ole/mpfss_known_indices.cpp |  4 ++++
 distributed_vector_ole/mpfss_known_indices.h   | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index d7d6cbc..9fe4d76 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -67,6 +67,10 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
 
 mpc_utils::Status MPFSSKnownIndices::UpdateBuckets(int64_t output_size,
                                                    int num_indices) {
+  if (output_size < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`output_size` must not be negative");
+  }
   bool needs_update =
       !cached_output_size_ || *cached_output_size_ != output_size ||
       !cached_num_indices_ || *cached_num_indices_ != num_indices;
diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index bc95b7a..073783b 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -143,8 +143,16 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   if (y_len < 1) {
     return mpc_utils::InvalidArgumentError("`y_len` must be positive");
   }
+  if (static_cast<int64_t>(output.size()) < y_len) {
+    return mpc_utils::InvalidArgumentError(
+        "`output` must have at least `y_len` elements");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size equal to NumBuckets(y_len)");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -203,6 +211,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
   }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y.size()));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(u.size()) != num_buckets ||
+      static_cast<int64_t>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size equal to NumBuckets(y.size())");
+  }
   ASSIGN_OR_RETURN(auto hashed_inputs,
                    hasher_->HashCuckoo(indices, num_buckets));
 
-- 
2.43.0


From 500edc4732a262efb4f73852980c923d9c0a5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 07/25] fix: make cuckoo hashing of small inputs succeed as
 often as promised

With the number of buckets returned by GetOptimalNumberOfBuckets, HashCuckoo
failed with probability up to 2^-6 instead of 2^-40 for small inputs (e.g. 1.5%
of the seeds for two inputs). An element stored in an empty bucket was retried
with the first hash function on eviction, which may be the bucket it was evicted
from, and the number of tries was limited by the number of inputs, which leaves
a single eviction for two inputs.
---
 distributed_vector_ole/cuckoo_hasher.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 0f3eef3..9b64c35 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -43,6 +43,8 @@ namespace distributed_vector_ole {
 class CuckooHasher {
  public:
   static const int kDefaultHashFunctions = 3;
+  // Lower bound on the number of tries to insert an element in HashCuckoo.
+  static constexpr int64_t kMinInsertionTries = 256;
   // Creates a new hasher with `num_hash_functions` hash functions, using the
   // passed `seed`.
   //
@@ -76,7 +78,7 @@ class CuckooHasher {
   // Returns INVALID_ARGUMENT if `num_buckets` is not  positive or
   // `inputs.size()` is larger than `num_buckets`.
   // Returns INTERNAL if insertion fails after trying to insert an element
-  // `inputs.size()` times.
+  // max(`inputs.size()`, kMinInsertionTries) times.
   template <typename T>
   mpc_utils::StatusOr<std::vector<int64_t>> HashCuckoo(
       absl::Span<const T> inputs, int64_t num_buckets);
@@ -198,7 +200,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
   }
   std::vector<int64_t> buckets(num_buckets, -1);
   std::vector<int> next_hash_function(num_buckets, 0);
-  int64_t num_tries = inputs.size();
+  // Small inputs need proportionally more tries to find an assignment.
+  int64_t num_tries =
+      std::max(static_cast<int64_t>(inputs.size()), kMinInsertionTries);
 
   // Hash all elements.
   ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));
@@ -214,8 +218,11 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
       }
       int64_t index = hashes[current_element][current_hash_function];
       if (buckets[index] == -1) {
-        // Bucket empty -> simply insert.
+        // Bucket empty -> simply insert, and have the element continue with the
+        // next hash function should it be evicted.
         buckets[index] = current_element;
+        next_hash_function[index] =
+            (current_hash_function + 1) % num_hash_functions_;
         break;
       } else {
         // Bucket full -> evict element and increment hash function counter.
-- 
2.43.0


From 5a10d376845a9cf60f35112945cda5334b90c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 08/25] fix: compute the number of hash values in
 CanBeHashedInto correctly

For hash_bits < 128 the largest hash value was computed as max / 2^hash_bits
instead of max / 2^(128 - hash_bits), so e.g. 96-bit hashes were considered
uniform modulo 12-byte moduli far from a power of two. Moduli above 2^128 were
compared by their low 128 bits only.
---
 distributed_vector_ole/internal/scalar_helpers.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..8846514 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -123,15 +123,18 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
+    if (NTL::NumBits(NTL::ZZ_p::modulus() - 1) > 128) {
+      return false;  // 128-bit values cannot cover all residue classes.
+    }
     uint64_t modulus_low = NTL::conv<uint64_t>(NTL::ZZ_p::modulus());
     uint64_t modulus_high = NTL::conv<uint64_t>(NTL::ZZ_p::modulus() >> 64);
     absl::uint128 modulus = absl::MakeUint128(modulus_high, modulus_low);
-    if (modulus == 0) {  // Modulus is a multiple of 2**128
-      return true;
+    if (modulus == 0) {  // Modulus is 2**128
+      return hash_bits >= 128;
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +160,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value >>= 128 - hash_bits;
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 23f3065da1977cb2cfb6d74cf52a2a68c760a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 09/25] fix: reject negative sizes in
 DistributedVectorOLE::Run*

A negative size passed the cache-size comparison and was handed to Eigen, which
reads before the start of the cache.
---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..895283d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -537,6 +537,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +588,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From 6feb0c86b8c7ba59d864b5853d615b16fa3a8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 10/25] fix: check the size of vectors received from the other
 party

The vectors exchanged by SPFSS, MPFSS and the VOLE bootstrap were indexed with
locally computed sizes, so that a mismatch between the parties' arguments (or a
misbehaving peer) caused out-of-bounds reads instead of an error.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 distributed_vector_ole/mpfss_known_indices.h    | 4 ++++
 distributed_vector_ole/spfss_known_index.h      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 895283d..2a44728 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -315,6 +315,10 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   RETURN_IF_ERROR(
       gilboa_->RunValueProvider(delta, absl::MakeSpan(receiver_cached_.w)));
   channel_->recv(w2);
+  if (w2.size() != receiver_cached_.w.size()) {
+    return mpc_utils::InvalidArgumentError(
+        "Received a seed of unexpected size from the other party");
+  }
   receiver_cached_.w += w2;
 
   ASSIGN_OR_RETURN(receiver_vole_seed_, GetReceiverCached(vole_seed_size_));
diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 073783b..028ab5f 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -158,6 +158,10 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   // as (u+y)x-w.
   Vector<T> y_masked;
   channel_->recv(y_masked);
+  if (y_masked.size() != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "Received a vector of unexpected size from the other party");
+  }
   Vector<T> val_share =
       y_masked * x - Eigen::Map<const Vector<T>>(w.data(), w.size());
 
diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..8ca0bed 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -158,6 +158,10 @@ mpc_utils::Status SPFSSKnownIndex::RunIndexProviderBatched(
     }
   }
   channel_->recv(sums_server);
+  if (static_cast<int>(sums_server.size()) != len) {
+    return mpc_utils::InvalidArgumentError(
+        "Received a vector of unexpected size from the other party");
+  }
   for (int j = 0; j < len; j++) {
     if (outputs[j].empty()) {
       continue;
-- 
2.43.0


From 76c22772aacade40ffe5acf88085500a29a36e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 11/25] fix: ignore the index for empty outputs in
 AllButOneRandomOT, as documented

---
 distributed_vector_ole/all_but_one_random_ot.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..e11422c 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -57,8 +57,8 @@ class AllButOneRandomOT {
   // If `output` is empty, `index` is ignored.
   template <typename T>
   mpc_utils::Status RunReceiver(int64_t index, absl::Span<T> output) {
-    if (index < 0 ||
-        (index >= static_cast<int64_t>(output.size()) && output.size() != 0)) {
+    if (output.size() != 0 &&
+        (index < 0 || index >= static_cast<int64_t>(output.size()))) {
       return mpc_utils::InvalidArgumentError("`index` out of range");
     }
     return RunReceiverBatched(absl::MakeConstSpan(&index, 1),
@@ -96,9 +96,9 @@ class AllButOneRandomOT {
           "`indices` and `outputs` must have the same size");
     }
     for (int i = 0; i < static_cast<int>(outputs.size()); i++) {
-      if (indices[i] < 0 ||
-          (indices[i] >= static_cast<int64_t>(outputs[i].size()) &&
-           outputs[i].size() != 0)) {
+      if (outputs[i].size() != 0 &&
+          (indices[i] < 0 ||
+           indices[i] >= static_cast<int64_t>(outputs[i].size()))) {
         return mpc_utils::InvalidArgumentError(
             absl::StrCat("`indices[", i, "]` out of range"));
       }
-- 
2.43.0


From 3752815323183086c2738e9e66794e7ef47b016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 12/25] fix: reject negative sizes in SPFSSKnownIndex instead
 of throwing

---
 distributed_vector_ole/spfss_known_index.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 8ca0bed..ec81eb7 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -60,6 +60,9 @@ class SPFSSKnownIndex {
   template <typename T>
   mpc_utils::StatusOr<std::vector<T>> RunValueProvider(T val_share,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(RunValueProvider<T>(val_share, absl::MakeSpan(output)));
     return output;
@@ -82,6 +85,9 @@ class SPFSSKnownIndex {
   mpc_utils::StatusOr<std::vector<T>> RunIndexProvider(T val_share,
                                                        int64_t index,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(
         RunIndexProvider<T>(val_share, index, absl::MakeSpan(output)));
-- 
2.43.0


From 0d36002baa1c0ab5919c477b80538f80604aa0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 13/25] hooks: observation points for the VOLE expansion
 (DVOLE_VERIF_HOOKS)

---
 .../distributed_vector_ole.h                   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 2a44728..57b75ef 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -30,6 +30,18 @@
 #include "distributed_vector_ole/mpfss_known_indices.h"
 #include "mpc_utils/boost_serialization/eigen.hpp"
 
+// Observation points for runtime monitors. They do nothing unless
+// DVOLE_VERIF_HOOKS is defined, in which case the build has to provide
+// dvole_verif_hooks.h with the definitions of the two hooks.
+#ifdef DVOLE_VERIF_HOOKS
+#include "dvole_verif_hooks.h"
+#else
+#define DVOLE_VERIF_SENDER_EXPANSION(instance, generator, vole_seed, \
+                                     mpfss_seed, noise)
+#define DVOLE_VERIF_RECEIVER_EXPANSION(instance, generator, vole_seed, \
+                                       mpfss_seed)
+#endif
+
 namespace distributed_vector_ole {
 
 // Security parameters. These are defined in distributed_vector_ole.cpp.
@@ -459,6 +471,9 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandSender(
     mu[indices[i]] = y[i];
   }
 
+  DVOLE_VERIF_SENDER_EXPANSION(this, code_generator_, sender_vole_seed_,
+                               sender_mpfss_seed_, mu);
+
   // Compute expansion and append it to the cache.
   sender_cached_.u.conservativeResize(sender_cached_.u.size() + output_size);
   sender_cached_.v.conservativeResize(sender_cached_.v.size() + output_size);
@@ -486,6 +501,9 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(
     return mpc_utils::InternalError("Code generator has the wrong dimensions");
   }
 
+  DVOLE_VERIF_RECEIVER_EXPANSION(this, code_generator_, receiver_vole_seed_,
+                                 receiver_mpfss_seed_);
+
   // Compute MPFSS and expand seed, appending to the cache.
   receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
                                         output_size);
-- 
2.43.0


From 5641456cac242fbbc574cf583217f070e888a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 14/25] hooks: allow monitors to reduce the reseed interval
 (DVOLE_VERIF_RESEED_INTERVAL)

---
 distributed_vector_ole/aes_uniform_bit_generator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.h b/distributed_vector_ole/aes_uniform_bit_generator.h
index 7aa65ed..d62539e 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.h
+++ b/distributed_vector_ole/aes_uniform_bit_generator.h
@@ -23,7 +23,12 @@ namespace distributed_vector_ole {
 class AESUniformBitGenerator {
  public:
   using result_type = uint64_t;
+#ifdef DVOLE_VERIF_RESEED_INTERVAL
+  // Reduced interval for runtime monitors.
+  static const int64_t kReseedInterval = DVOLE_VERIF_RESEED_INTERVAL;
+#else
   static const int64_t kReseedInterval = (1ll << 48);
+#endif
   static const int kStateSize = 32;
   static const int kDefaultBufferSize = (1 << 20) / sizeof(result_type);
 
-- 
2.43.0


From 50fca50d5825cf69652fb12dbddb5d335dcdf8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 15/25] fix: do not send the value share of an empty vector in
 SPFSS

---
 distributed_vector_ole/spfss_known_index.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index ec81eb7..7105a3a 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -124,6 +124,10 @@ mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched(
     context.restore();
 #pragma omp for schedule(guided)
     for (int j = 0; j < len; j++) {
+      if (outputs[j].empty()) {
+        sums_data[j] = T(0);  // There is nothing that masks the share.
+        continue;
+      }
       for (int64_t i = 0; i < static_cast<int64_t>(outputs[j].size()); ++i) {
         sums_data[j] += outputs[j][i];
         outputs[j][i] = -outputs[j][i];
-- 
2.43.0


From c66b689dbe6db398705e6ff08e61ae799a130b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 16/25] fix: reject a negative arity in GGMTree::Create instead
 of throwing

---
 distributed_vector_ole/ggm_tree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..ba22af4 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -40,6 +40,7 @@
 
 #include "absl/numeric/int128.h"
 #include "absl/types/span.h"
+#include "mpc_utils/canonical_errors.h"
 #include "mpc_utils/statusor.h"
 #include "openssl/aes.h"
 #include "openssl/rand.h"
@@ -60,6 +61,9 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
+    if (arity < 2) {
+      return mpc_utils::InvalidArgumentError("arity must be at least 2");
+    }
     std::vector<Block> keys(arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
-- 
2.43.0


From 79adc2c13cffefd2478a0e0114d6b2da327054fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 17/25] fix: refuse unsuitable moduli on the receiver side of
 AllButOneRandomOT, too

---
 .../all_but_one_random_ot.h                   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index e11422c..367c8ff 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -108,6 +108,8 @@ class AllButOneRandomOT {
     for (int i = 0; i < static_cast<int>(outputs.size()); i++) {
       sizes[i] = outputs[i].size();
     }
+    // The sender refuses unsuitable moduli, and we would wait for it forever.
+    RETURN_IF_ERROR(CheckModulus<T>(sizes));
     ASSIGN_OR_RETURN(auto trees, ReceiveTrees(sizes, indices, 2));
     NTLContext<T> context;
     context.save();
@@ -131,6 +133,11 @@ class AllButOneRandomOT {
       std::unique_ptr<mpc_utils::CommChannelEMPAdapter> channel_adapter,
       double statistical_security);
 
+  // Returns INVALID_ARGUMENT if reducing the leaves of trees of the given sizes
+  // modulo `T::modulus()` would not ensure the statistical security.
+  template <typename T>
+  mpc_utils::Status CheckModulus(absl::Span<const int64_t> num_leaves);
+
   // For each element of `num_leaves`, constructs a GGMTree and obliviously
   // sends it to the client, except for the values on the path to an index
   // chosen by the client. If T is a NTL modular integer, ensures that when the
@@ -153,9 +160,8 @@ class AllButOneRandomOT {
 };
 
 template <typename T>
-mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
-AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
-  int num_trees = static_cast<int>(num_leaves.size());
+mpc_utils::Status AllButOneRandomOT::CheckModulus(
+    absl::Span<const int64_t> num_leaves) {
   // Check the modulus to satisfy statistical security.
   int64_t total_num_leaves =
       std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
@@ -168,6 +174,14 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
         absl::StrCat("Cannot ensure statistical security of ",
                      statistical_security_, "bits with the given modulus"));
   }
+  return mpc_utils::OkStatus();
+}
+
+template <typename T>
+mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
+AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
+  int num_trees = static_cast<int>(num_leaves.size());
+  RETURN_IF_ERROR(CheckModulus<T>(num_leaves));
 
   std::vector<std::unique_ptr<GGMTree>> trees(num_trees);
   std::vector<emp::block> opt0, opt1;
-- 
2.43.0


From dc6439ad76825ed289bd0ad48016467fad5b93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 18/25] fix: start over after a failed VOLE precomputation
 instead of running with its leftovers

---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 57b75ef..8c8a777 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -252,6 +252,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // If anything fails below, the next run has to start over.
+  sender_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -315,6 +317,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // If anything fails below, the next run has to start over.
+  receiver_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From 382f5e0fdecd2216c24e46a09f1056122731fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 19/25] fix: huge batch sizes overflowed in the choice of VOLE
 parameters

---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 8c8a777..41d424e 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -276,8 +276,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + mpfss_seed_size_ + vole_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
@@ -343,8 +343,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + vole_seed_size_ + mpfss_seed_size_) {
+    if (VOLEParameters::output_size[i] - vole_seed_size_ - mpfss_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
-- 
2.43.0


From e4c3382e67ba00b3aeddfdcd905b6a270d9d935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 20/25] fix: a failed VOLE expansion left unfilled elements in
 the cache of the receiver

---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 41d424e..ec07d75 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -509,12 +509,12 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(
                                  receiver_mpfss_seed_);
 
   // Compute MPFSS and expand seed, appending to the cache.
-  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
-                                        output_size);
   Vector<T> v1(output_size);
   RETURN_IF_ERROR(mpfss_->RunValueProviderVectorOLE<T>(
       receiver_mpfss_seed_.delta, num_noise_indices_, receiver_mpfss_seed_.w,
       absl::MakeSpan(v1)));
+  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
+                                        output_size);
   receiver_cached_.w.tail(output_size) =
       receiver_vole_seed_.w * code_generator_ + v1;
 
-- 
2.43.0


From 4fdb32f6b7634b34ba338c4c05ba4a34f777bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 21/25] fix: refuse a statistical security that is not a number
 or, for hashing, infinite

---
 distributed_vector_ole/all_but_one_random_ot.cpp        | 2 +-
 distributed_vector_ole/cuckoo_hasher.cpp                | 4 ++++
 distributed_vector_ole/distributed_vector_ole.h         | 2 +-
 distributed_vector_ole/mpfss_known_indices.cpp          | 2 +-
 distributed_vector_ole/scalar_vector_gilboa_product.cpp | 2 +-
 distributed_vector_ole/spfss_known_index.cpp            | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.cpp b/distributed_vector_ole/all_but_one_random_ot.cpp
index c98edae..2589c03 100644
--- a/distributed_vector_ole/all_but_one_random_ot.cpp
+++ b/distributed_vector_ole/all_but_one_random_ot.cpp
@@ -43,7 +43,7 @@ AllButOneRandomOT::Create(mpc_utils::comm_channel* channel,
   if (!channel) {
     return mpc_utils::InvalidArgumentError("`channel` must not be NULL");
   }
-  if (statistical_security < 0) {
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
     return mpc_utils::InvalidArgumentError(
         "`statistical_security` must not be negative.");
   }
diff --git a/distributed_vector_ole/cuckoo_hasher.cpp b/distributed_vector_ole/cuckoo_hasher.cpp
index f9dc499..4b53bef 100644
--- a/distributed_vector_ole/cuckoo_hasher.cpp
+++ b/distributed_vector_ole/cuckoo_hasher.cpp
@@ -63,6 +63,10 @@ mpc_utils::StatusOr<int64_t> CuckooHasher::GetOptimalNumberOfBuckets(
   if (num_inputs == 0) {
     return 1;  // num_buckets must be positive in other CuckooHasher functions.
   }
+  if (!std::isfinite(statistical_security_)) {
+    return mpc_utils::InvalidArgumentError(
+        "`statistical_security` must be finite");
+  }
 
   int stash_size =
       0;  // We curently don't support a stash, but we might in the future.
diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index ec07d75..12c429b 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -219,7 +219,7 @@ DistributedVectorOLE<T>::Create(comm_channel *channel,
   if (!channel) {
     return mpc_utils::InvalidArgumentError("`channel` must not be NULL");
   }
-  if (statistical_security < 0) {
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
     return mpc_utils::InvalidArgumentError(
         "`statistical_security` must not be negative.");
   }
diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index 9fe4d76..fdacbef 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -33,7 +33,7 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
   if (!channel) {
     return mpc_utils::InvalidArgumentError("`channel` must not be NULL");
   }
-  if (statistical_security < 0) {
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
     return mpc_utils::InvalidArgumentError(
         "`statistical_security` must not be negative.");
   }
diff --git a/distributed_vector_ole/scalar_vector_gilboa_product.cpp b/distributed_vector_ole/scalar_vector_gilboa_product.cpp
index e473a25..c886017 100644
--- a/distributed_vector_ole/scalar_vector_gilboa_product.cpp
+++ b/distributed_vector_ole/scalar_vector_gilboa_product.cpp
@@ -33,7 +33,7 @@ ScalarVectorGilboaProduct::Create(mpc_utils::comm_channel* channel,
   if (!channel) {
     return mpc_utils::InvalidArgumentError("`channel` must not be NULL");
   }
-  if (statistical_security < 0) {
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
     return mpc_utils::InvalidArgumentError(
         "`statistical_security` must not be negative.");
   }
diff --git a/distributed_vector_ole/spfss_known_index.cpp b/distributed_vector_ole/spfss_known_index.cpp
index 7c4c1af..c4d3892 100644
--- a/distributed_vector_ole/spfss_known_index.cpp
+++ b/distributed_vector_ole/spfss_known_index.cpp
@@ -28,7 +28,7 @@ mpc_utils::StatusOr<std::unique_ptr<SPFSSKnownIndex>> SPFSSKnownIndex::Create(
   if (!channel) {
     return mpc_utils::InvalidArgumentError("`channel` must not be NULL");
   }
-  if (statistical_security < 0) {
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
     return mpc_utils::InvalidArgumentError(
         "`statistical_security` must not be negative.");
   }
-- 
2.43.0


From 5a1c0d20539b8684bfb0380e6f267896d4ba21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 22/25] fix: refuse statistical securities that hashing cannot
 provide

GetOptimalNumberOfBuckets computed a number of buckets for securities above 128
bits, which HashSimple and HashCuckoo then refuse for any number of buckets: the
number overflowed, or made DistributedVectorOLE allocate vectors of a negative
or huge size, and for two hash functions the search never ended. It also
overflowed for numbers of inputs close to 2^63. A negative security was accepted
by Create and led to fewer buckets than inputs.
---
 distributed_vector_ole/cuckoo_hasher.cpp | 30 +++++++++++++++++++-----
 distributed_vector_ole/cuckoo_hasher.h   |  7 ++++--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.cpp b/distributed_vector_ole/cuckoo_hasher.cpp
index 4b53bef..714dd9e 100644
--- a/distributed_vector_ole/cuckoo_hasher.cpp
+++ b/distributed_vector_ole/cuckoo_hasher.cpp
@@ -19,10 +19,23 @@
 #include <cmath>
 
 #include "absl/memory/memory.h"
+#include "absl/strings/str_cat.h"
 #include "openssl/err.h"
 
 namespace distributed_vector_ole {
 
+namespace {
+
+// Rounds an estimated number of buckets up, if the result can be represented.
+mpc_utils::StatusOr<int64_t> ToNumberOfBuckets(double estimate) {
+  if (!(estimate <= std::ldexp(1, 62))) {
+    return mpc_utils::InvalidArgumentError("`num_inputs` is too large");
+  }
+  return static_cast<int64_t>(std::ceil(estimate));
+}
+
+}  // namespace
+
 CuckooHasher::CuckooHasher(AES_KEY expanded_seed, int num_hash_functions,
                            double statistical_security)
     : expanded_seed_(expanded_seed),
@@ -35,6 +48,10 @@ mpc_utils::StatusOr<std::unique_ptr<CuckooHasher>> CuckooHasher::Create(
     return mpc_utils::InvalidArgumentError(
         "`num_hash_functions` must be positive");
   }
+  if (!(statistical_security >= 0)) {  // Also refuses NaN.
+    return mpc_utils::InvalidArgumentError(
+        "`statistical_security` must not be negative.");
+  }
   // Expand seed as AES key.
   AES_KEY expanded_seed;
   if (0 != AES_set_encrypt_key(reinterpret_cast<uint8_t *>(&seed),
@@ -63,9 +80,11 @@ mpc_utils::StatusOr<int64_t> CuckooHasher::GetOptimalNumberOfBuckets(
   if (num_inputs == 0) {
     return 1;  // num_buckets must be positive in other CuckooHasher functions.
   }
-  if (!std::isfinite(statistical_security_)) {
-    return mpc_utils::InvalidArgumentError(
-        "`statistical_security` must be finite");
+  // No number of buckets is enough if the hash function is too short.
+  if (!(statistical_security_ <= 128)) {
+    return mpc_utils::InvalidArgumentError(absl::StrCat(
+        "The desired statistical security of ", statistical_security_,
+        " bits is not possible with 128-bit hashes"));
   }
 
   int stash_size =
@@ -90,8 +109,7 @@ mpc_utils::StatusOr<int64_t> CuckooHasher::GetOptimalNumberOfBuckets(
     // the expansion factor. Therefore we have that
     //
     //   e = (statistical_security_ - b) / a.
-    return static_cast<int64_t>(
-        std::ceil((statistical_security_ - b) / a * num_inputs));
+    return ToNumberOfBuckets((statistical_security_ - b) / a * num_inputs);
   } else if (num_hash_functions_ == 2) {
     const double a = -0.8, b = 3.3, c = 2.5, d = 14, f = 5, g = 0.65;
 
@@ -112,7 +130,7 @@ mpc_utils::StatusOr<int64_t> CuckooHasher::GetOptimalNumberOfBuckets(
       s = sec(e);
     }
 
-    return static_cast<int64_t>(std::ceil(e * num_inputs));
+    return ToNumberOfBuckets(e * num_inputs);
   }
   return mpc_utils::UnimplementedError(
       "Automatic estimation of the number of buckets only implemented for 2 or "
diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 9b64c35..7a1ecba 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -48,7 +48,8 @@ class CuckooHasher {
   // Creates a new hasher with `num_hash_functions` hash functions, using the
   // passed `seed`.
   //
-  // Returns INVALID_ARGUMENT if `num_hash_functions` is not postive.
+  // Returns INVALID_ARGUMENT if `num_hash_functions` is not postive or
+  // `statistical_security` is negative.
   static mpc_utils::StatusOr<std::unique_ptr<CuckooHasher>> Create(
       absl::uint128 seed, int num_hash_functions = kDefaultHashFunctions,
       double statistical_security = 40);
@@ -89,7 +90,9 @@ class CuckooHasher {
   // in this paper: https://eprint.iacr.org/2018/579.pdf
   //
   // Returns UNIMPLEMENTED if the number of hash functions is not 2 or 3.
-  // Returns INVALID_ARGUMENT if num_inputs is negative.
+  // Returns INVALID_ARGUMENT if num_inputs is negative or so large that the
+  // result cannot be represented, or if the statistical security is larger than
+  // the number of bits of the hash function.
   mpc_utils::StatusOr<int64_t> GetOptimalNumberOfBuckets(int64_t num_inputs);
 
  private:
-- 
2.43.0


From d292e8f24f9caccdb7f528f141a3e5618889b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 23/25] fix: do not truncate the number of buckets of an MPFSS

NumBuckets returned negative numbers for more than about 1.3e9 indices.
---
 distributed_vector_ole/mpfss_known_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 028ab5f..be66816 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -64,7 +64,7 @@ class MPFSSKnownIndices {
 
   // Returns the number of buckets used for cuckoo hashing the given number of
   // indices.
-  mpc_utils::StatusOr<int> NumBuckets(int num_indices) {
+  mpc_utils::StatusOr<int64_t> NumBuckets(int num_indices) {
     return hasher_->GetOptimalNumberOfBuckets(num_indices);
   }
 
-- 
2.43.0


From 6a40e8a054b78448fbd322272d87363ebdad4038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 24/25] fix: do not search the number of buckets for two hash
 functions linearly

The expansion factor grows exponentially with the statistical security, so that
GetOptimalNumberOfBuckets took minutes for 100 bits and practically did not end
for 128.
---
 distributed_vector_ole/cuckoo_hasher.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.cpp b/distributed_vector_ole/cuckoo_hasher.cpp
index 714dd9e..194259c 100644
--- a/distributed_vector_ole/cuckoo_hasher.cpp
+++ b/distributed_vector_ole/cuckoo_hasher.cpp
@@ -122,12 +122,23 @@ mpc_utils::StatusOr<int64_t> CuckooHasher::GetOptimalNumberOfBuckets(
              (b * std::log2(e) + a + log_n - (f * log_n + d) * std::pow(e, -c));
     };
 
-    // Increase e util we have large enough security.
+    // Find the smallest e with large enough security, which grows with e.
     double e = 1;
-    double s = 0;
-    while (s < statistical_security_) {
-      e += 1;
-      s = sec(e);
+    if (statistical_security_ > 0) {
+      double too_small = 1;
+      e = 2;
+      while (sec(e) < statistical_security_) {
+        too_small = e;
+        e *= 2;
+      }
+      while (e - too_small > 1) {
+        double middle = std::floor((e + too_small) / 2);
+        if (sec(middle) < statistical_security_) {
+          too_small = middle;
+        } else {
+          e = middle;
+        }
+      }
     }
 
     return ToNumberOfBuckets(e * num_inputs);
-- 
2.43.0


From 94a289cd02328decae353c46b6dcb18b3d885b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:15 +0000
Subject: [PATCH 25/25] fix: seed NTL's generator from OpenSSL

ScalarHelper::Randomize used NTL's generator for modular integers, which NTL
seeds with the time in seconds, the CPU time used so far and the process ID. The
other party can guess these, and with them the seeds of the vector OLE, the
random delta and the masks of the oblivious transfers. Parties started in the
same way also got the same values. The caller's own NTL generator is now left
alone.
---
 distributed_vector_ole/internal/scalar_helpers.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 8846514..566e52c 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -99,6 +99,20 @@ struct ScalarHelper<gf128> {
   }
 };
 
+// Lets NTL's random functions use a fresh seed from OpenSSL for the lifetime of
+// this object. NTL itself would start from the time and the process ID only.
+class NTLRandomSeed {
+ public:
+  NTLRandomSeed() {
+    uint8_t seed[32];
+    RAND_bytes(seed, sizeof(seed));
+    NTL::SetSeed(seed, sizeof(seed));
+  }
+
+ private:
+  NTL::RandomStreamPush previous_;  // Restored in the end.
+};
+
 // NTL modular integers.
 template <typename T, typename = int>
 struct ScalarHelperImpl {};
@@ -140,6 +154,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::ZZ_p> output) {
+    NTLRandomSeed seed;
     NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(output.size());
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
       output[i] = std::move(ntl_vec[i]);
@@ -166,6 +181,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::zz_p> output) {
+    NTLRandomSeed seed;
     NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
       output[i] = ntl_vec[i];
-- 
2.43.0

