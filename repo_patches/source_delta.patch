From 5d748087d0d52edfb0709d5aab8173731974ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:21 +0000
Subject: [PATCH 01/32] fix: splitting on a key that already is a boundary key
 never terminates

---
 include/diva.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..cdcaf4d 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -802,8 +802,10 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
 
     InfixStore& infix_store = *infix_store_ptr;
 
-    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
-        // Previous key was a partial key and a prefix of the new boundary key
+    if (prev_key == key
+            || (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits()))) {
+        // The new boundary key already is a boundary key, or the previous key
+        // was a partial key and a prefix of the new boundary key
         // Inserting using the simple method...
         InsertSimple(key);
         return;
-- 
2.43.0


From de7ee38905a9c32d92bc5943c870a9829a0a3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 02/32] fix: splitting next to a boundary key that is equal up
 to trailing zeros never terminates

---
 include/diva.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index cdcaf4d..f7026c8 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -856,6 +856,18 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
             {prev_key.str + shared_word_byte, prev_key.length < shared_word_byte ? 0 : prev_key.length - shared_word_byte},
             {edited_key.str + shared_word_byte, edited_key.length < shared_word_byte ? 0 : edited_key.length - shared_word_byte});
     shared_lt += shared_word_byte * 8;
+    auto [shared_gt, ignore_gt, implicit_size_gt] = GetSharedIgnoreImplicitLengths(
+            {edited_key.str + shared_word_byte, edited_key.length < shared_word_byte ? 0 : edited_key.length - shared_word_byte},
+            {next_key.str + shared_word_byte, next_key.length < shared_word_byte ? 0 : next_key.length - shared_word_byte});
+    shared_gt += shared_word_byte * 8;
+
+    // The new boundary key must be distinguishable from both of its neighbors
+    if (shared_lt >= std::min<uint32_t>(zero_pos, 8 * std::max(prev_key.length, edited_key.length))
+            || shared_gt >= std::min<uint32_t>(zero_pos, 8 * std::max(edited_key.length, next_key.length))) {
+        InsertSimple(key);
+        return;
+    }
+
     const int32_t shamt_lt = shared_lt + ignore_lt + implicit_size_lt - shared - ignore - implicit_size;
     const uint64_t prev_extraction_lt = ExtractPartialKey(prev_key, shared_lt, ignore_lt, implicit_size_lt, 0);
     const uint64_t extraction_lt = ExtractPartialKey(edited_key, shared_lt, ignore_lt, implicit_size_lt, 1);
@@ -864,10 +876,6 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                               | (edited_key.BitsAt(shared + ignore + implicit_size, shamt_lt) << infix_size_);
     const uint32_t total_implicit_lt = ((extraction_lt >> infix_size_) - (prev_extraction_lt >> infix_size_)) + 1;
 
-    auto [shared_gt, ignore_gt, implicit_size_gt] = GetSharedIgnoreImplicitLengths(
-            {edited_key.str + shared_word_byte, edited_key.length < shared_word_byte ? 0 : edited_key.length - shared_word_byte},
-            {next_key.str + shared_word_byte, next_key.length < shared_word_byte ? 0 : next_key.length - shared_word_byte});
-    shared_gt += shared_word_byte * 8;
     const int32_t shamt_gt = shared_gt + ignore_gt + implicit_size_gt - shared - ignore - implicit_size;
     const uint64_t extraction_gt = ExtractPartialKey(edited_key, shared_gt, ignore_gt, implicit_size_gt, 0);
     const uint64_t next_extraction_gt = ExtractPartialKey(next_key, shared_gt, ignore_gt, implicit_size_gt, 1);
@@ -877,11 +885,6 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                 | (next_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
     const uint32_t total_implicit_gt = ((next_extraction_gt >> infix_size_) - (extraction_gt >> infix_size_)) + 1;
 
-    if (zero_pos <= std::max(shared_lt, shared_gt)) {
-        InsertSimple(key);
-        return;
-    }
-
     const auto [left_list_len, left_exp] = GetExpandedInfixListLength(infix_list,
                                                                       split_pos,
                                                                       implicit_size,
@@ -1033,7 +1036,7 @@ Diva<int_optimized>::GetSharedIgnoreImplicitLengths(const InfiniteByteString key
         delta = __builtin_ia32_lzcnt_u64(read_1 ^ read_2);
         share += delta;
         ind++;
-    } while (delta == 64);
+    } while (delta == 64 && ind * sizeof(uint64_t) < std::max(key_1.length, key_2.length));
 
     ind--;
     do {
-- 
2.43.0


From b08b1fadbaf2b1ca46152f1f46e5b67ef31d8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:40 +0000
Subject: [PATCH 03/32] fix: deleting a key drops a partial boundary key that
 does not represent it

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f7026c8..a3dad3b 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1542,7 +1542,7 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     const uint64_t deletee = ((extraction | 1ULL) - (prev_implicit << infix_size_));
 
-    if (infix_store.IsPartialKey()) {
+    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
         const uint32_t longest_match_len = GetLongestMatchingInfixSize(infix_store, deletee);
         if (longest_match_len == 0 || 8 * prev_key.length - infix_store.GetInvalidBits() 
                                         > shared + ignore + implicit_size + longest_match_len - 1) {
-- 
2.43.0


From 34dd3ec1773d682b292c81ed123a651d0a639515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 04/32] fix: a delete at the end of an infix store moves a run
 past its canonical slot

---
 include/diva.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index a3dad3b..8c8c5eb 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2463,8 +2463,8 @@ inline void Diva<int_optimized>::DeleteRawFromInfixStore(InfixStore &store, cons
         }
         if (cur_runend < 0) {
             const uint32_t mapped_pos = GetMappedPos(cur_occupied, size_grade, implicit_scalar);
-            const int32_t first_empty_slot_before = FindEmptySlotBefore(store, runend_pos);
-            shift_start = (first_empty_slot_before < mapped_pos ? first_empty_slot_before : shift_start);
+            const int32_t runstart = FindEmptySlotBefore(store, runend_pos) + 1;
+            shift_start = (mapped_pos > runstart ? runstart : shift_start);
         }
     }
     else {
-- 
2.43.0


From f3b35f5f71b6fe3543b10aa31fbfe21aaae5e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 05/32] fix: bulk loading a multiple of 1024 keys plus one
 reads past the key range

When the last key already became a boundary key, the loop over the left-over
keys started one past it and never met its end.
---
 include/diva.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 8c8c5eb..f7aacef 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1799,7 +1799,7 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     int32_t i = 0;
     ++last_key_it;
-    while (last_key_it != key_it) {
+    while (add_last_key && last_key_it != key_it) {
         InfiniteByteString key;
         if constexpr (int_optimized) {
             int_opt_buf[2] = __builtin_bswap64(*last_key_it);
@@ -1887,7 +1887,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     int32_t i = 0;
     ++last_key_it;
-    while (last_key_it != key_it) {
+    while (add_last_key && last_key_it != key_it) {
         sv = *last_key_it;
         const InfiniteByteString key {reinterpret_cast<const uint8_t *>(sv.data()), 
                                       static_cast<uint32_t>(sv.size())};
-- 
2.43.0


From 5a6f8f2acd26608a41fe4474150ef0dca1ef0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 06/32] fix: streaming bulk load drops the last key when it is
 a pending boundary key

With one key, or a multiple of 1024 keys plus one, the pending left boundary was
freed without ever being added to the tree.
---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index f7aacef..5200424 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2001,6 +2001,8 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else if (bulk_load_left_key_.str != nullptr)
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From 3016d8aa773ba6ea46163dd0140df45bd85b7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 07/32] fix: a deserialised filter frees and modifies the
 caller's buffer

The stores of a deserialised filter pointed into the serialised image, while
resizing, splitting and destruction release them with delete[].
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5200424..ddce45c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1429,9 +1429,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = new uint64_t[word_count];
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 76a1fcf4a391914b4d081817ccd7e805227c4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 08/32] fix: Size() under-reports the serialised size of an
 integer filter

Serialize pads shortened boundary keys to 8 bytes, Size() did not count that.
---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ddce45c..aecba53 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1123,7 +1123,8 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            const uint32_t rounded_tree_key_len = ((tree_key_len + 7) / 8) * 8;
+            res += sizeof(rounded_tree_key_len) + rounded_tree_key_len;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From a2fa522ee40259d54f806e49dd39b44fc1825539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 09/32] fix: deserialising ignores the load factor the filter
 was built with

The slot counts of the stores depend on it, so that the image of a filter with
any load factor but 0.95 was read with the wrong layout.
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index aecba53..9f2731e 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -233,7 +233,7 @@ private:
     wormref_int *better_tree_int_;
     std::mt19937 rng_;
     uint32_t rng_seed_;
-    const float load_factor_ = 0.95;
+    float load_factor_ = 0.95;
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
@@ -1397,8 +1397,7 @@ inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     assert(buf32 == size_scalar_shrink_grow_sep && "Mismatched Diva version");
     res += sizeof(size_scalar_shrink_grow_sep);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_));
-    assert(buf_float == load_factor_ && "Mismatched Diva version");
+    memcpy(&load_factor_, deser_buf + res, sizeof(load_factor_));
     res += sizeof(load_factor_);
 
     memcpy(&buf_float, deser_buf + res, sizeof(load_factor_alt_));
-- 
2.43.0


From 29f07f4eec9d0cf083eb508731800f6bdfd7272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 10/32] fix: shrinking the infix size clears the last eight run
 ends of some stores

When the slot count is a multiple of eight, the mask for the last byte was zero.
---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 9f2731e..4d65720 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2699,7 +2699,8 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8 != 0)
+        new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From f6147bd1c4a80de12cca336c5ae88052a106ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 11/32] fix: slot accesses at the end of an infix store leave
 its allocation

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 4d65720..d53b4f1 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -180,7 +180,8 @@ private:
         }
 
         static uint32_t GetPtrWordCount(const uint32_t slot_count, const uint32_t slot_size) {
-            return 1 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
+            // One more word, as the slots are accessed eight bytes at a time
+            return 2 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
         }
 
         uint32_t GetElemCount() const {
-- 
2.43.0


From b06de25aa30acd8fcce966f5b3155a3444ebf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:59 +0000
Subject: [PATCH 12/32] fix: streaming bulk load wipes the first store when the
 smallest key is loaded

Finishing the load added the all-zero end marker over the boundary key and its
already filled store.
---
 include/diva.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index d53b4f1..7438efc 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1972,7 +1972,13 @@ template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
     memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    bool has_min_key;   // The smallest key may have been loaded as a boundary key
+    if constexpr (int_optimized)
+        has_min_key = wh_int_probe(better_tree_int_, key_copy, bulk_load_streaming_max_len_);
+    else
+        has_min_key = wh_probe(better_tree_, key_copy, bulk_load_streaming_max_len_);
+    if (!has_min_key)
+        AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
 
-- 
2.43.0


From f371fd59ed475b0e6e4ba04d520592ef3539270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:21 +0000
Subject: [PATCH 13/32] fix: keys at and beyond the first and the last boundary
 key crash

Deleting the smallest key, inserting or deleting the largest one, and inserting
or querying byte strings below the all-zero or above the all-ones end marker
dereferenced an iterator that had left the tree. Such keys become boundary keys.
---
 include/diva.hpp          | 44 +++++++++++++++++++++++++++++++++++----
 include/wormhole/wh.c     |  7 +++++++
 include/wormhole/wh_int.c |  7 +++++++
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 7438efc..5395872 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -506,6 +506,13 @@ inline void Diva<int_optimized>::InsertSimple(const InfiniteByteString key) {
             wormleaf_unlock_read(it.leaf);
     }
 
+    if (prev_key.str == nullptr || next_key.str == nullptr) {
+        // The key is the last boundary key or outside of all boundary keys
+        if (prev_key.str == nullptr || !(prev_key == key))
+            AddTreeKey(key.str, key.length);
+        return;
+    }
+
 #ifdef DEBUG
     assert(prev_key <= key);
     assert(key < next_key);
@@ -561,7 +568,7 @@ inline bool Diva<int_optimized>::RangeQuery(const uint8_t *input_l, const uint32
 
         wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                       reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key <= r_key) {
+        if (next_key.str != nullptr && next_key <= r_key) {
             if (it_int.leaf)
                 wormleaf_int_unlock_read(it_int.leaf);
             return true;
@@ -581,7 +588,7 @@ inline bool Diva<int_optimized>::RangeQuery(const uint8_t *input_l, const uint32
         wh_iter_seek(&it, l_key.str, l_key.length);
         wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                               reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key <= r_key) {
+        if (next_key.str != nullptr && next_key <= r_key) {
             if (it.leaf)
                 wormleaf_unlock_read(it.leaf);
             return true;
@@ -593,6 +600,9 @@ inline bool Diva<int_optimized>::RangeQuery(const uint8_t *input_l, const uint32
             wormleaf_unlock_read(it.leaf);
     }
     
+    if (prev_key.str == nullptr || next_key.str == nullptr)
+        return false;   // The range is outside of all boundary keys
+
     InfixStore& infix_store = *infix_store_ptr;
     if (infix_store.ptr == nullptr)
         return false;
@@ -674,7 +684,7 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
         wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                       reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key == key) {
+        if (next_key.str != nullptr && next_key == key) {
             if (it_int.leaf)
                 wormleaf_int_unlock_read(it_int.leaf);
             return true;
@@ -695,7 +705,7 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
         wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                               reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key == key) {
+        if (next_key.str != nullptr && next_key == key) {
             if (it.leaf)
                 wormleaf_unlock_read(it.leaf);
             return true;
@@ -707,6 +717,9 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
             wormleaf_unlock_read(it.leaf);
     }
     
+    if (prev_key.str == nullptr || next_key.str == nullptr)
+        return false;   // The key is outside of all boundary keys
+
 #ifdef DEBUG
     assert(prev_key <= key);
     assert(key < next_key);
@@ -796,6 +809,13 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
             wormleaf_unlock_read(it.leaf);
     }
 
+    if (prev_key.str == nullptr || next_key.str == nullptr) {
+        // The key is the last boundary key or outside of all boundary keys
+        if (prev_key.str == nullptr || !(prev_key == key))
+            AddTreeKey(key.str, key.length);
+        return;
+    }
+
 #ifdef DEBUG
     assert(prev_key <= key);
     assert(key < next_key);
@@ -1528,6 +1548,19 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
         }
     }
 
+    if (prev_key.str == nullptr || next_key.str == nullptr) {
+        // The key is outside of all boundary keys
+        if constexpr (int_optimized) {
+            if (it_int.leaf)
+                wormleaf_int_unlock_read(it_int.leaf);
+        }
+        else {
+            if (it.leaf)
+                wormleaf_unlock_read(it.leaf);
+        }
+        return;
+    }
+
 #ifdef DEBUG
     assert(prev_key <= key);
     assert(key < next_key);
@@ -1604,6 +1637,9 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
             wormleaf_unlock_read(it->leaf);
     }
 
+    if (left_key.str == nullptr || right_key.str == nullptr)
+        return;     // The first and the last boundary key have no neighbor to merge with
+
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
 
     uint32_t total_elem_count = store_l->GetElemCount() + store_r->GetElemCount();
diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..85e6575 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -3829,6 +3829,13 @@ wh_iter_peek_ref(struct wormhole_iter * const iter,
     const void ** kbuf_out, u32 * const klen_out,
     void ** vbuf_out, u32 * const vlen_out)
 {
+    if (!wormhole_iter_valid(iter)) {
+        *kbuf_out = NULL;
+        *klen_out = 0;
+        *vbuf_out = NULL;
+        *vlen_out = 0;
+        return;
+    }
     struct kvref ref;
     wormhole_iter_kvref(iter, &ref);
     *kbuf_out = ref.kptr;
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..6cb95ac 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -3318,6 +3318,13 @@ wh_int_iter_peek_ref(struct wormhole_int_iter * const iter,
     const void ** kbuf_out, u32 * const klen_out,
     void ** vbuf_out, u32 * const vlen_out)
 {
+    if (!wormhole_int_iter_valid(iter)) {
+        *kbuf_out = NULL;
+        *klen_out = 0;
+        *vbuf_out = NULL;
+        *vlen_out = 0;
+        return;
+    }
     *kbuf_out = &(iter->leaf->kvs[iter->is].key);
     *klen_out = iter->leaf->kvs[iter->is].key_size;
     *vbuf_out = &(iter->leaf->kvs[iter->is].store);
-- 
2.43.0


From c22435b42cc704ad59f5303d832d8e2a1a5c4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:27 +0000
Subject: [PATCH 14/32] fix: a second copy of the last boundary key is
 forgotten

---
 include/diva.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5395872..804a1b7 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -510,6 +510,14 @@ inline void Diva<int_optimized>::InsertSimple(const InfiniteByteString key) {
         // The key is the last boundary key or outside of all boundary keys
         if (prev_key.str == nullptr || !(prev_key == key))
             AddTreeKey(key.str, key.length);
+        else if constexpr (!int_optimized) {
+            // Make room for another copy of the last boundary key
+            uint8_t end_key[key.length + 1];
+            memcpy(end_key, key.str, key.length);
+            end_key[key.length] = 0xFF;
+            AddTreeKey(end_key, key.length + 1);
+            InsertSimple(key);
+        }
         return;
     }
 
@@ -810,9 +818,7 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     }
 
     if (prev_key.str == nullptr || next_key.str == nullptr) {
-        // The key is the last boundary key or outside of all boundary keys
-        if (prev_key.str == nullptr || !(prev_key == key))
-            AddTreeKey(key.str, key.length);
+        InsertSimple(key);
         return;
     }
 
-- 
2.43.0


From c31456f2d09c30f1ae7c1733159a5dbfd9083e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:12 +0000
Subject: [PATCH 15/32] fix: a partial boundary key with a trailing zero byte
 hides a key that is its prefix

With keys of different lengths, a key represented by the infix that a split
turns into a partial boundary key may sort before that boundary key, where
queries for it do not look.
---
 include/diva.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 804a1b7..f2e9f81 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -139,6 +139,13 @@ private:
             return false;
         }
 
+        // Whether appending zero bytes to this key gives `other`
+        bool IsZeroExtendedTo(const InfiniteByteString& other) const {
+            if (length >= other.length || memcmp(str, other.str, length) != 0)
+                return false;
+            return std::all_of(other.str + length, other.str + other.length, [](uint8_t byte) { return byte == 0; });
+        }
+
         bool operator<(const InfiniteByteString& rhs) const {
             int32_t cmp_result = memcmp(str, rhs.str, std::min(length, rhs.length));
             return cmp_result < 0 || (cmp_result == 0 && length < rhs.length);
@@ -596,7 +603,8 @@ inline bool Diva<int_optimized>::RangeQuery(const uint8_t *input_l, const uint32
         wh_iter_seek(&it, l_key.str, l_key.length);
         wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                               reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key.str != nullptr && next_key <= r_key) {
+        if (next_key.str != nullptr && (next_key <= r_key
+                || (infix_store_ptr->IsPartialKey() && r_key.IsZeroExtendedTo(next_key)))) {
             if (it.leaf)
                 wormleaf_unlock_read(it.leaf);
             return true;
@@ -713,7 +721,8 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
         wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                               reinterpret_cast<void **>(&infix_store_ptr), &dummy_val);
-        if (next_key.str != nullptr && next_key == key) {
+        if (next_key.str != nullptr && (next_key == key
+                || (infix_store_ptr->IsPartialKey() && key.IsZeroExtendedTo(next_key)))) {
             if (it.leaf)
                 wormleaf_unlock_read(it.leaf);
             return true;
@@ -1547,6 +1556,12 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
                                   reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
             wh_iter_skip1_rev(&it);
         }
+        else if (next_key.str != nullptr && infix_store_ptr->IsPartialKey() && key.IsZeroExtendedTo(next_key)) {
+            // The next key may represent this key, alone or together with others
+            if (it.leaf)
+                wormleaf_unlock_read(it.leaf);
+            return;
+        }
         else {
             wh_iter_skip1_rev(&it);
             wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&prev_key.str), &prev_key.length,
-- 
2.43.0


From d3409968e1562e0d3bbc44da2fc28d7fabf4f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:45 +0000
Subject: [PATCH 16/32] fix: shrinking the infix size writes the slots of
 resized stores to the wrong place

The new store was given the default size grade, from which the position of its
slots is computed, instead of the grade of the store it replaces.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f2e9f81..cdf619f 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2757,7 +2757,7 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
-- 
2.43.0


From 6898ff95890b4aaf0a7d6d5aeb5bd5ec7ed40099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 17/32] fix: destroying a filter leaks its reference to the
 index and unfinished streaming loads

---
 include/diva.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index cdf619f..b438036 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1378,6 +1378,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it_int.leaf)
             wormleaf_int_unlock_read(it_int.leaf);
+        wh_int_unref(better_tree_int_);
         wh_int_destroy(wh_int_);
     }
     else {
@@ -1393,8 +1394,13 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it.leaf)
             wormleaf_unlock_read(it.leaf);
+        wh_unref(better_tree_);
         wh_destroy(wh_);
     }
+
+    delete[] bulk_load_left_key_.str;
+    for (const InfiniteByteString& key : bulk_load_key_list_)
+        delete[] key.str;
 }
 
 
-- 
2.43.0


From 9df831d817b742633eacedfe7a64e9ec82caec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 18/32] fix: loading the first or the last key of the key space
 leaks a store

The end markers are added after the keys, and only if no key took their place.
---
 include/diva.hpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index b438036..d280b52 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -367,13 +367,13 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoadFixedLength(begin, end, key_len);
+
     uint8_t key[key_len];
     memset(key, 0x00, key_len);
     AddTreeKey(key, key_len);
     memset(key, 0xFF, key_len);
     AddTreeKey(key, key_len);
-
-    BulkLoadFixedLength(begin, end, key_len);
 }
 
 
@@ -401,11 +401,11 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoad(begin, end);
+
     uint8_t key[8];
     memset(key, 0x00, 8);
     AddTreeKey(key, 8);
-
-    BulkLoad(begin, end);
 }
 
 
@@ -761,6 +761,14 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t key_len) {
+    bool has_key;   // Keep the store of a key that already is a boundary key
+    if constexpr (int_optimized)
+        has_key = wh_int_probe(better_tree_int_, key, key_len);
+    else
+        has_key = wh_probe(better_tree_, key, key_len);
+    if (has_key)
+        return;
+
     InfixStore infix_store(scaled_sizes_[size_scalar_shrink_grow_sep], infix_size_);
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, key, key_len, &infix_store, sizeof(infix_store));
@@ -2033,18 +2041,6 @@ inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uin
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
-    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
-    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    bool has_min_key;   // The smallest key may have been loaded as a boundary key
-    if constexpr (int_optimized)
-        has_min_key = wh_int_probe(better_tree_int_, key_copy, bulk_load_streaming_max_len_);
-    else
-        has_min_key = wh_probe(better_tree_, key_copy, bulk_load_streaming_max_len_);
-    if (!has_min_key)
-        AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
                                                 bulk_load_key_list_[bulk_load_streaming_ind_ - 1].length};
@@ -2073,6 +2069,13 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     else if (bulk_load_left_key_.str != nullptr)
         AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
 
+    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
+    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
+
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
     bulk_load_left_key_ = {};
-- 
2.43.0


From 7861174f916d262c9cd5741d62d30428c6458e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:12 +0000
Subject: [PATCH 19/32] fix: splitting next to a very close boundary key shifts
 words by more than their size

---
 include/diva.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index d280b52..94e2e6a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -119,7 +119,7 @@ private:
 
         __attribute__((always_inline))
         uint64_t BitsAt(const uint32_t bit_pos, const uint32_t res_width) const {
-            if (bit_pos / 8 >= length)
+            if (bit_pos / 8 >= length || res_width + bit_pos % 8 > 8 * sizeof(uint64_t))
                 return 0;
             uint64_t res = 0;
             memcpy(&res, str + bit_pos / 8, std::min<uint32_t>(sizeof(res), length - bit_pos / 8));
@@ -912,20 +912,22 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         return;
     }
 
+    // The limits are of no use to lists that would be shifted out of a word, as those are empty
+    const auto shift_left = [](const uint64_t value, const uint32_t shamt) { return shamt < 64 ? value << shamt : 0; };
     const int32_t shamt_lt = shared_lt + ignore_lt + implicit_size_lt - shared - ignore - implicit_size;
     const uint64_t prev_extraction_lt = ExtractPartialKey(prev_key, shared_lt, ignore_lt, implicit_size_lt, 0);
     const uint64_t extraction_lt = ExtractPartialKey(edited_key, shared_lt, ignore_lt, implicit_size_lt, 1);
     const uint64_t left_start = prev_key.BitsAt(shared + ignore + implicit_size, shamt_lt) << infix_size_;
-    const uint64_t left_end = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_lt))
+    const uint64_t left_end = shift_left((extraction >> infix_size_) - (prev_extraction >> infix_size_), infix_size_ + shamt_lt)
                               | (edited_key.BitsAt(shared + ignore + implicit_size, shamt_lt) << infix_size_);
     const uint32_t total_implicit_lt = ((extraction_lt >> infix_size_) - (prev_extraction_lt >> infix_size_)) + 1;
 
     const int32_t shamt_gt = shared_gt + ignore_gt + implicit_size_gt - shared - ignore - implicit_size;
     const uint64_t extraction_gt = ExtractPartialKey(edited_key, shared_gt, ignore_gt, implicit_size_gt, 0);
     const uint64_t next_extraction_gt = ExtractPartialKey(next_key, shared_gt, ignore_gt, implicit_size_gt, 1);
-    const uint64_t right_start = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_gt))
+    const uint64_t right_start = shift_left((extraction >> infix_size_) - (prev_extraction >> infix_size_), infix_size_ + shamt_gt)
                                 | (edited_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
-    const uint64_t right_end = (((next_extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_gt))
+    const uint64_t right_end = shift_left((next_extraction >> infix_size_) - (prev_extraction >> infix_size_), infix_size_ + shamt_gt)
                                 | (next_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
     const uint32_t total_implicit_gt = ((next_extraction_gt >> infix_size_) - (extraction_gt >> infix_size_)) + 1;
 
-- 
2.43.0


From 641797d07e40bf473dee610bce76687c87cf4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:06 +0000
Subject: [PATCH 20/32] fix: restoring a filter with a boundary key of 20000
 bytes or more overflows the stack

---
 include/diva.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 94e2e6a..f2d28af 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1338,18 +1338,13 @@ inline Diva<int_optimized>::Diva(char *deser_buf):
     }
     SetupScaleFactors();
 
-    const uint32_t max_key_length = 20000;
-    char key[max_key_length];
     uint32_t key_length;
     InfixStore store;
 
     memcpy(&key_length, deser_buf + ind, sizeof(key_length));
     ind += sizeof(key_length);
     while (key_length != std::numeric_limits<uint32_t>::max()) {
-#ifdef DEBUG
-        assert(key_length < max_key_length);
-#endif
-        memcpy(key, deser_buf + ind, key_length);
+        const char *key = deser_buf + ind;
         const uint32_t rounded_key_len = ((key_length + 7) / 8) * 8;
         ind += rounded_key_len;
         ind += DeserializeInfixStore(deser_buf + ind, store);
-- 
2.43.0


From e6ea3443e5df79a32d432180304f91aababf1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:08 +0000
Subject: [PATCH 21/32] fix: leaf nodes of the byte-string index are not
 aligned for the pointers to them

With 32 keys per node a leaf is 352 bytes long, so that every second leaf is only
32-byte aligned, while the metadata of the index stores the left-most leaf in a
pointer whose low six bits hold other data. Merging such a leaf left stale
metadata behind and later operations used the freed leaf.
---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 85e6575..5e9bb80 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -62,7 +62,7 @@ struct wormleaf {
 
   struct entry13 hs[WH_KPN]; // sorted by hashes
   u8 ss[WH_KPN]; // sorted by keys
-};
+} __attribute__((aligned(64))); // the metadata keeps other data in the low six bits of leaf pointers
 
 struct wormslot { u16 t[WH_BKT_NR]; };
 static_assert(sizeof(struct wormslot) == 16, "sizeof(wormslot) != 16");
-- 
2.43.0


From 4eda09cc150a635d22b615a36e722cf78a40ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 22/32] fix: the integer index does not find keys that are not
 sorted yet

Looking up, replacing and deleting a key searched only the sorted part of a leaf
(and the first key behind it), so that a key that was inserted out of order was
not found, was inserted a second time and could not be deleted until an iterator
happened to sort the leaf.
---
 include/wormhole/wh_int.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 6cb95ac..b04967c 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1436,8 +1436,13 @@ wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref
     lo = cmp <= 0 ? lo : i;
     hi = cmp <= 0 ? i : hi;
   }
-  u32 res = (hi < leaf->nr_keys && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0) ? hi : WH_KPN;
-  return res;
+  if (hi < leaf->nr_sorted && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0)
+    return hi;
+  // the keys behind the sorted ones are in no particular order
+  for (u32 i = leaf->nr_sorted; i < leaf->nr_keys; i++)
+    if (compare_int_isp(search_key, key->len, leaf->kvs + i) == 0)
+      return i;
+  return WH_KPN;
 }
 
 
-- 
2.43.0


From bb3c60475b044130cf8c01a3c4e499d28cfdf076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 23/32] fix: merging two leaf nodes of the integer index counts
 the sorted keys twice

Inserting the keys of the right leaf into the left one already counts them as
sorted; adding their number once more made the leaf claim more sorted keys than
it has keys.
---
 include/wormhole/wh_int.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index b04967c..fa6069f 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1866,12 +1866,10 @@ wormhole_split_leaf(struct wormhole_int * const map, struct wormleaf_int * const
 wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const leaf2)
 {
   debug_assert((leaf1->nr_keys + leaf2->nr_keys) <= WH_KPN);
-  const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
 
+  // insert_isp maintains nr_sorted
   for (u32 i = 0; i < leaf2->nr_keys; i++)
     wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
-  if (leaf1_sorted)
-    leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
 }
 
-- 
2.43.0


From e116730e3465e3f9a3b68a0b1fa9b4edbaf84e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 24/32] fix: reading a value from the integer index calls a
 null function pointer

The integer index has no in-place read function; wh_int_get() called it all the
same. It copies the value out instead.
---
 include/wormhole/wh_int.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index fa6069f..ac1276b 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -3209,8 +3209,11 @@ wh_int_get(struct wormref_int * const ref, const void * const kbuf, const u32 kl
   struct kref kref;
   kref_ref_hash32(&kref, kbuf, klen);
   struct wh_inp_info info = {vbuf_out, vlen_out, vbuf_size};
-  // use the inplace read function to get the value if it exists
-  return wh_api->inpr(ref, &kref, wh_inp_copy_value, &info);
+  // there is no inplace read function: the values are not stored as kvs
+  u8 buf[sizeof(struct kv) + sizeof(u64) + sizeof(struct store_sim_hack)] __attribute__((aligned(8)));
+  struct kv * const kv = wh_api->get(ref, &kref, (struct kv *)buf);
+  wh_inp_copy_value(kv, &info);
+  return kv != NULL;
 }
 
   bool
-- 
2.43.0


From 0100fa3a226ed8b7187ad9797f1ada63720f44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 25/32] fix: peeking through an integer index iterator at the
 end dereferences null

---
 include/wormhole/wh_int.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index ac1276b..5a5792d 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2825,6 +2825,10 @@ wormhole_int_iter_prev(struct wormhole_int_iter * const iter, struct kv * const
 wormhole_int_iter_inp(struct wormhole_int_iter * const iter, kv_inp_func uf, void * const priv)
 {
   struct int_store_pair * const kv = wormhole_int_iter_current(iter);
+  if (kv == NULL) {
+    uf(NULL, priv); // call uf even if (kv == NULL)
+    return false;
+  }
   uint8_t buf[sizeof(struct kv) + kv->key_size + sizeof(kv->store)];
   struct kv * res = (struct kv *) buf;
   res->klen = kv->key_size;
@@ -2832,8 +2836,8 @@ wormhole_int_iter_inp(struct wormhole_int_iter * const iter, kv_inp_func uf, voi
   res->vlen = sizeof(kv->store);
   memcpy(res->kv + kv->key_size, kv->store, res->vlen);
 
-  uf(res, priv); // call uf even if (kv == NULL)
-  return kv != NULL;
+  uf(res, priv);
+  return true;
 }
 
   void
-- 
2.43.0


From d9cb75033b13bba8d52b60c16920f91394ae93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:28 +0000
Subject: [PATCH 26/32] fix: reading zero bits of a byte string shifts a word
 by its own width

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f2d28af..d39130f 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -119,7 +119,7 @@ private:
 
         __attribute__((always_inline))
         uint64_t BitsAt(const uint32_t bit_pos, const uint32_t res_width) const {
-            if (bit_pos / 8 >= length || res_width + bit_pos % 8 > 8 * sizeof(uint64_t))
+            if (bit_pos / 8 >= length || res_width == 0 || res_width + bit_pos % 8 > 8 * sizeof(uint64_t))
                 return 0;
             uint64_t res = 0;
             memcpy(&res, str + bit_pos / 8, std::min<uint32_t>(sizeof(res), length - bit_pos / 8));
-- 
2.43.0


From ad2eb6532ee42fcbf94b1d448690adb250209198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:07 +0000
Subject: [PATCH 27/32] fix: a thread that resumes its reference to the index
 is not seen by a concurrent qsbr_wait

---
 include/wormhole/lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 06d45f6..c48fe7e 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2966,7 +2966,8 @@ qsbr_resume(struct qsbr_ref * const qref)
 #ifdef QSBR_DEBUG
   ref->status = 0xf; // resumed
 #endif
-  cpu_cfence();
+  // the waiter must see this thread before it reads anything that is protected by the qsbr
+  cpu_mfence();
 }
 
 // waiters needs external synchronization
-- 
2.43.0


From 895106ad79a4196398bf98882384454bed201f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:07 +0000
Subject: [PATCH 28/32] fix: qsbr_wait dereferences the null pointer of a slot
 that is being registered

---
 include/wormhole/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index c48fe7e..f3cdb72 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2866,6 +2866,10 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // qsbr_wait may look at a slot whose bit is set before its user has stored the pointer
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
   return q;
 }
 
-- 
2.43.0


From f61acb98bc9719dcf34a00856f65e49c51e3eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:07 +0000
Subject: [PATCH 29/32] fix: an integer index lookup misses keys while another
 reader sorts the leaf node

---
 include/wormhole/wh_int.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 5a5792d..71fcc12 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1576,6 +1576,18 @@ wormleaf_int_sync_sorted(struct wormleaf_int * const leaf)
   leaf->nr_sorted = n;
 }
 
+// safe iter: safe sort with read-lock acquired
+// unsafe iter: allow concurrent seek/skip
+  static void
+wormhole_int_iter_leaf_sync_sorted(struct wormleaf_int * const leaf)
+{
+  if (unlikely(leaf->nr_keys != leaf->nr_sorted)) {
+    spinlock_lock(&(leaf->sortlock));
+    wormleaf_int_sync_sorted(leaf);
+    spinlock_unlock(&(leaf->sortlock));
+  }
+}
+
 // shift a sequence of entries on hs and update the corresponding ss values
   static void
 wormleaf_int_shift_inc(struct wormleaf_int * const leaf, const u32 to, const u32 from, const u32 nr)
@@ -1906,6 +1918,8 @@ wormleaf_split_undo(struct wormhole_int * const map, struct wormleaf_int * const
 wormhole_int_get(struct wormref_int * const ref, const struct kref * const key, struct kv * const out)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  // another reader may move the unsorted keys
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   const u32 i = wormleaf_int_search_eq(leaf, key);
   if (i >= WH_KPN) {
       wormleaf_int_unlock_read(leaf);
@@ -1952,6 +1966,8 @@ whunsafe_int_get(struct wormhole_int * const map, const struct kref * const key,
 wormhole_int_probe(struct wormref_int * const ref, const struct kref * const key)
 {
   struct wormleaf_int * const leaf = wormhole_jump_leaf_read(ref, key);
+  // another reader may move the unsorted keys
+  wormhole_int_iter_leaf_sync_sorted(leaf);
   const u32 i = wormleaf_int_search_eq(leaf, key);
   wormleaf_int_unlock_read(leaf);
   return i < WH_KPN;
@@ -2635,18 +2651,6 @@ whunsafe_int_delr(struct wormhole_int * const map, const struct kref * const sta
 // }}} del
 
 // iter {{{
-// safe iter: safe sort with read-lock acquired
-// unsafe iter: allow concurrent seek/skip
-  static void
-wormhole_int_iter_leaf_sync_sorted(struct wormleaf_int * const leaf)
-{
-  if (unlikely(leaf->nr_keys != leaf->nr_sorted)) {
-    spinlock_lock(&(leaf->sortlock));
-    wormleaf_int_sync_sorted(leaf);
-    spinlock_unlock(&(leaf->sortlock));
-  }
-}
-
   struct wormhole_int_iter *
 wormhole_int_iter_create(struct wormref_int * const ref)
 {
-- 
2.43.0


From 4fe6873bf49ef376497e24f7139abc649128fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 30/32] fix: merging stores of infixes wider than 22 bits loses
 the leading bit

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index d39130f..150fd6a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1766,7 +1766,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
                                                              : (infix_list[i] >> (old_infix_size - new_infix_size))
                                                                     | (infix_list[i] & 1ULL));
             uint32_t recovered_bit_cnt = 1, recovery_bits = 1;
-            uint64_t recovered_infix = left_key.GetBit(shared) << (new_infix_size - recovered_bit_cnt);
+            uint64_t recovered_infix = static_cast<uint64_t>(left_key.GetBit(shared)) << (new_infix_size - recovered_bit_cnt);
             
             recovery_bits = std::min(old_shared - shared - ignore - 1, new_infix_size - recovered_bit_cnt);
             recovered_bit_cnt += recovery_bits;
-- 
2.43.0


From 9dbf3b64e152c8183a3fad62bddf5877472fe5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 31/32] fix: a boundary key that ends before its infix does
 matches keys with other last bits

---
 include/diva.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 150fd6a..e0fb893 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -886,8 +886,10 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     uint32_t copied_key_len = key.length;
     uint8_t copied_key_str[copied_key_len];
     memcpy(copied_key_str, key.str, key.length);
+    uint32_t invalid_bits = 0;
     if (zero_pos != -1 && copied_key_len > (zero_pos - 1) / 8) {
-        copied_key_str[(zero_pos - 1) / 8] &= ~BITMASK(7 - (zero_pos - 1) % 8);
+        invalid_bits = 7 - (zero_pos - 1) % 8;
+        copied_key_str[(zero_pos - 1) / 8] &= ~BITMASK(invalid_bits);
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
@@ -970,7 +972,7 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     if (zero_pos != -1) {
         const uint64_t key_extraction = ExtractPartialKey(key, shared_gt, ignore_gt, implicit_size_gt, 0);
         InsertRawIntoInfixStore(store_gt, key_extraction & BITMASK(infix_size_) | 1, total_implicit_gt);
-        store_gt.SetInvalidBits(7 - (zero_pos - 1) % 8);
+        store_gt.SetInvalidBits(invalid_bits);
         store_gt.SetPartialKey(true);
         if constexpr (int_optimized)
             wh_int_put(better_tree_int_, edited_key.str, edited_key.length, &store_gt, sizeof(InfixStore));
-- 
2.43.0


From 986af88aa80ca25c4ce6a2dfb4f2d07e90af9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:58 +0000
Subject: [PATCH 32/32] fix: the key buffer of the byte-string index is too
 small for the longest anchors

---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 5e9bb80..0ff0646 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -1108,7 +1108,7 @@ wormhole_create_internal(const struct kvmap_mm * const mm, const u32 nh)
   map->mm = mm ? (*mm) : kvmap_mm_dup;
 
   // pbuf for meta-merge
-  map->pbuf = yalloc(1lu << 16); // 64kB
+  map->pbuf = yalloc(sizeof(struct kv) + (1lu << 16)); // 64kB key
   if (map->pbuf == NULL)
     goto fail;
 
-- 
2.43.0

