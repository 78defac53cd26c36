From d87eb31cd43132dc6ec5ac98465733938fe4137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 01/24] fix: reject tombstone bitmaps whose word count exceeds
 the addressable range

n_words * 64 wrapped for huge counts, so no chunk was allocated and the
word loop stored through a null chunk pointer.
---
 include/index/graph/diskann/tombstone_bitmap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/diskann/tombstone_bitmap.hpp b/include/index/graph/diskann/tombstone_bitmap.hpp
index 9cf8904..c3c94da 100644
--- a/include/index/graph/diskann/tombstone_bitmap.hpp
+++ b/include/index/graph/diskann/tombstone_bitmap.hpp
@@ -194,6 +194,9 @@ class TombstoneBitmap {
     if (!in || magic != kMagic) {
       throw std::runtime_error("TombstoneBitmap::deserialize: bad magic/truncated");
     }
+    if (n_words > kMaxChunks * kChunkWords) {
+      throw std::runtime_error("TombstoneBitmap::deserialize: word count beyond addressable range");
+    }
     reset(0);
     ensure_capacity(n_words * 64);
     uint64_t recount = 0;
-- 
2.43.0


From d25578e04b0f31e426446b1abbd8a54b4dd34ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 02/24] fix: check the free list length against the file before
 allocating it

A corrupt count made SlotAllocator::load allocate and zero up to 2^64
entries before noticing that the file is too short.
---
 include/index/graph/diskann/slot_allocator.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/index/graph/diskann/slot_allocator.hpp b/include/index/graph/diskann/slot_allocator.hpp
index 1926593..4e9741d 100644
--- a/include/index/graph/diskann/slot_allocator.hpp
+++ b/include/index/graph/diskann/slot_allocator.hpp
@@ -123,6 +123,13 @@ class SlotAllocator {
     if (!in || magic != kMagic) {
       throw std::runtime_error("SlotAllocator::load: bad magic/truncated " + path);
     }
+    const auto list_begin = in.tellg();
+    in.seekg(0, std::ios::end);
+    const auto remaining = static_cast<uint64_t>(in.tellg() - list_begin);
+    in.seekg(list_begin);
+    if (!in || n_free > remaining / sizeof(uint32_t)) {
+      throw std::runtime_error("SlotAllocator::load: free list truncated " + path);
+    }
     free_list_.assign(n_free, 0);
     if (n_free > 0) {
       in.read(reinterpret_cast<char *>(free_list_.data()),
-- 
2.43.0


From 0afa1f59419d12541d2ee7ae9258d7d7c597804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 03/24] fix: decode stored bools from any byte value without
 undefined behaviour

---
 include/utils/scalar_data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/utils/scalar_data.hpp b/include/utils/scalar_data.hpp
index 12bc529..69058e2 100644
--- a/include/utils/scalar_data.hpp
+++ b/include/utils/scalar_data.hpp
@@ -377,8 +377,7 @@ struct ScalarData {
         return deserialize_string(data, offset);
       }
       case 3: {  // bool
-        bool v;
-        std::memcpy(&v, data + offset, sizeof(v));
+        bool v = data[offset] != 0;
         offset += sizeof(v);
         return v;
       }
@@ -423,8 +422,7 @@ struct ScalarData {
           offset = size + 1;
           return int64_t{0};
         }
-        bool v;
-        std::memcpy(&v, data + offset, sizeof(v));
+        bool v = data[offset] != 0;
         offset += sizeof(v);
         return v;
       }
-- 
2.43.0


From a64ed6091db0fc8b5d1b4c8f90421667a2549d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 04/24] fix: index lookups by string value no longer match
 longer values that contain an underscore

---
 include/storage/rocksdb_storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/storage/rocksdb_storage.hpp b/include/storage/rocksdb_storage.hpp
index 76cff7d..9f5ddb1 100644
--- a/include/storage/rocksdb_storage.hpp
+++ b/include/storage/rocksdb_storage.hpp
@@ -561,6 +561,10 @@ class RocksDBStorage {
       if (!key.starts_with(prefix)) {
         break;
       }
+      // Only the id may follow: a longer string value containing '_' shares the prefix too
+      if (key.find('_', prefix.size()) != std::string::npos) {
+        continue;
+      }
       IDType id = index_encoding::extract_id_from_key<IDType>(key);
       ids.push_back(id);
     }
-- 
2.43.0


From 1bff135ce3cac54b2e5ff78377191c7560468926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 05/24] fix: indexed double ranges include the infinities

---
 include/utils/metadata_filter_matcher.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/utils/metadata_filter_matcher.hpp b/include/utils/metadata_filter_matcher.hpp
index b374b53..ed4fb98 100644
--- a/include/utils/metadata_filter_matcher.hpp
+++ b/include/utils/metadata_filter_matcher.hpp
@@ -196,7 +196,7 @@ class MetadataFilterExecutor {
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
                                                    std::get<double>(cond.value),
-                                                   std::numeric_limits<double>::max());
+                                                   std::numeric_limits<double>::infinity());
         }
         return std::nullopt;
       case FilterOp::GT:
@@ -210,11 +210,12 @@ class MetadataFilterExecutor {
                                                 std::numeric_limits<int64_t>::max());
         }
         if (std::holds_alternative<double>(cond.value)) {
+          constexpr auto kInf = std::numeric_limits<double>::infinity();
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::nextafter(value, std::numeric_limits<double>::max()),
-                                        std::numeric_limits<double>::max());
+          if (value == kInf) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field, std::nextafter(value, kInf), kInf);
         }
         return std::nullopt;
       case FilterOp::LE:
@@ -225,7 +226,7 @@ class MetadataFilterExecutor {
         }
         if (std::holds_alternative<double>(cond.value)) {
           return storage_->get_ids_by_double_range(cond.field,
-                                                   std::numeric_limits<double>::lowest(),
+                                                   -std::numeric_limits<double>::infinity(),
                                                    std::get<double>(cond.value));
         }
         return std::nullopt;
@@ -240,12 +241,12 @@ class MetadataFilterExecutor {
                                                 value - 1);
         }
         if (std::holds_alternative<double>(cond.value)) {
+          constexpr auto kInf = std::numeric_limits<double>::infinity();
           auto value = std::get<double>(cond.value);
-          return storage_
-              ->get_ids_by_double_range(cond.field,
-                                        std::numeric_limits<double>::lowest(),
-                                        std::nextafter(value,
-                                                       std::numeric_limits<double>::lowest()));
+          if (value == -kInf) {
+            return std::vector<IDType>{};
+          }
+          return storage_->get_ids_by_double_range(cond.field, -kInf, std::nextafter(value, -kInf));
         }
         return std::nullopt;
       default:
-- 
2.43.0


From 9d50a0569fb657595e3f3c409b58bec40a730fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 06/24] fix: negative zero and zero share one index key

---
 include/utils/index_encoding.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/index_encoding.hpp b/include/utils/index_encoding.hpp
index 250a75a..822dc74 100644
--- a/include/utils/index_encoding.hpp
+++ b/include/utils/index_encoding.hpp
@@ -51,6 +51,9 @@ inline auto decode_int64(const std::string &s) -> int64_t {
 inline auto encode_double(double value) -> std::string {
   uint64_t bits;
   std::memcpy(&bits, &value, sizeof(bits));
+  if (bits == (1ULL << 63)) {
+    bits = 0;  // -0.0 and 0.0 are the same value and share one key
+  }
   if ((bits >> 63) != 0U) {
     bits = ~bits;  // Negative: flip all bits
   } else {
-- 
2.43.0


From 447a6eaced6774ff1ff3799ac3eaca0d34040739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 07/24] fix: ids beyond the storage capacity are invalid
 instead of read out of bounds

---
 include/storage/sequential_storage.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/storage/sequential_storage.hpp b/include/storage/sequential_storage.hpp
index dd63300..9931243 100644
--- a/include/storage/sequential_storage.hpp
+++ b/include/storage/sequential_storage.hpp
@@ -58,6 +58,9 @@ struct SequentialStorage {
   }
 
   auto is_valid(IDType index) const -> bool {
+    if (static_cast<size_t>(index) >= capacity_) {
+      return false;
+    }
     return bitmap_[index / kBitEveryByte] & (1 << (index % kBitEveryByte));
   }
 
-- 
2.43.0


From 56d0faad7fd7554e88e34544964378fad67bf336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 08/24] fix: a rejected insert into a full RawSpace does not
 count as an item

---
 include/space/raw_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 5ac04a0..2d10af6 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -163,6 +163,9 @@ class RawSpace {
    */
   auto insert(const DataType *data, const ScalarDataType *scalar_data = nullptr) -> IDType {
     auto id = data_storage_.insert(data);
+    if (id == static_cast<IDType>(-1)) {
+      return id;
+    }
     item_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_data != nullptr && scalar_storage_ != nullptr) {
-- 
2.43.0


From 43715ec4d6572dc9aa2cbeec2274a04d4cc118c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 09/24] fix: removing an absent id does not change the deleted
 count

---
 include/space/raw_space.hpp | 6 +++++-
 include/space/sq4_space.hpp | 6 +++++-
 include/space/sq8_space.hpp | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 2d10af6..12e0d95 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -183,13 +183,17 @@ class RawSpace {
    * @param id the id of the data point to delete
    */
   auto remove(IDType id) -> IDType {
+    auto removed = data_storage_.remove(id);
+    if (removed == static_cast<IDType>(-1)) {
+      return removed;
+    }
     delete_cnt_++;
     if constexpr (has_scalar_data) {
       if (scalar_storage_ != nullptr) {
         scalar_storage_->remove(id);
       }
     }
-    return data_storage_.remove(id);
+    return removed;
   }
 
   auto remove(const std::string &item_id) -> IDType {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index ec50c9f..cde1aa8 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -308,6 +308,10 @@ class SQ4Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    auto removed = data_storage_.remove(id);
+    if (removed == static_cast<IDType>(-1)) {
+      return removed;
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
@@ -317,7 +321,7 @@ class SQ4Space {
       }
     }
 
-    return data_storage_.remove(id);
+    return removed;
   }
 
   /**
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index b8808ba..d1f879f 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -307,6 +307,10 @@ class SQ8Space {
    * @return IDType The ID of the deleted data point
    */
   auto remove(IDType id) -> IDType {
+    auto removed = data_storage_.remove(id);
+    if (removed == static_cast<IDType>(-1)) {
+      return removed;
+    }
     delete_cnt_++;
 
     // Remove ScalarData if present
@@ -316,7 +320,7 @@ class SQ8Space {
       }
     }
 
-    return data_storage_.remove(id);
+    return removed;
   }
 
   /**
-- 
2.43.0


From 44cdaa00313ec300556be62463a68d4ba9e83905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 10/24] fix: fitting more than 2^32 vector components no longer
 wraps the source offset

---
 include/space/raw_space.hpp | 2 +-
 include/space/sq4_space.hpp | 2 +-
 include/space/sq8_space.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/space/raw_space.hpp b/include/space/raw_space.hpp
index 12e0d95..e33055f 100644
--- a/include/space/raw_space.hpp
+++ b/include/space/raw_space.hpp
@@ -138,7 +138,7 @@ class RawSpace {
     }
     item_cnt_ = item_cnt;
     for (IDType i = 0; i < item_cnt_; ++i) {
-      data_storage_.insert(data + (i * dim_));
+      data_storage_.insert(data + (static_cast<size_t>(i) * dim_));
     }
     if constexpr (has_scalar_data) {
       if (scalar_data == nullptr) {
diff --git a/include/space/sq4_space.hpp b/include/space/sq4_space.hpp
index cde1aa8..e9c51d2 100644
--- a/include/space/sq4_space.hpp
+++ b/include/space/sq4_space.hpp
@@ -136,7 +136,7 @@ class SQ4Space {
     quantizer_.fit(data, item_cnt);
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
-      quantizer_.encode(data + (i * dim_), data_storage_[id]);
+      quantizer_.encode(data + (static_cast<size_t>(i) * dim_), data_storage_[id]);
     }
 
     // Store ScalarData with synchronized IDs (0, 1, 2, ...)
diff --git a/include/space/sq8_space.hpp b/include/space/sq8_space.hpp
index d1f879f..267409c 100644
--- a/include/space/sq8_space.hpp
+++ b/include/space/sq8_space.hpp
@@ -135,7 +135,7 @@ class SQ8Space {
     quantizer_.fit(data, item_cnt);
     for (IDType i = 0; i < item_cnt; i++) {
       auto id = data_storage_.reserve();
-      quantizer_.encode(data + (i * dim_), data_storage_[id]);
+      quantizer_.encode(data + (static_cast<size_t>(i) * dim_), data_storage_[id]);
     }
 
     // Store ScalarData with synchronized IDs (0, 1, 2, ...)
-- 
2.43.0


From d931d6f1d4608b1258649ed70a75cc4a93391ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 11/24] fix: records appended to a WAL with a torn tail are
 replayable

---
 include/recovery/write_ahead_log.hpp | 40 ++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index e11752c..affae5d 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -294,9 +294,49 @@ class WriteAheadLog {
            static_cast<uintmax_t>(payload_size) <= remaining_bytes - kTrailerSize;
   }
 
+  /**
+   * @brief Cuts the file back to its last complete frame before new frames are appended.
+   *
+   * Replay stops at the first incomplete frame, so frames appended behind the torn tail of a
+   * crashed write would never be replayed.
+   */
+  auto trim_incomplete_tail() const -> void {
+    std::error_code ec;
+    const auto wal_file_size = fs::file_size(path_, ec);
+    if (ec || wal_file_size == 0) {
+      return;
+    }
+    std::ifstream input(path_, std::ios::binary);
+    if (!input.is_open()) {
+      throw std::runtime_error("Failed to open WAL file at " + path_.string());
+    }
+    uintmax_t valid_end = 0;
+    while (auto header = read_frame_header(input)) {
+      if (!payload_size_is_plausible(input, wal_file_size, header->payload_size_)) {
+        break;
+      }
+      input.seekg(static_cast<std::streamoff>(header->payload_size_), std::ios::cur);
+      uint32_t trailer = 0;
+      input.read(reinterpret_cast<char *>(&trailer), sizeof(trailer));
+      if (!input || trailer != kWalTrailerMagic) {
+        break;
+      }
+      valid_end = static_cast<uintmax_t>(input.tellg());
+    }
+    input.close();
+    if (valid_end < wal_file_size) {
+      LOG_WARN("WAL tail is incomplete, trimming {} from {} to {} bytes",
+               path_.string(),
+               wal_file_size,
+               valid_end);
+      fs::resize_file(path_, valid_end);
+    }
+  }
+
   auto ensure_stream_open() const -> void {
     if (!wal_stream_.is_open()) {
       fs::create_directories(path_.parent_path());
+      trim_incomplete_tail();
       wal_stream_.open(path_, std::ios::binary | std::ios::app);
       if (!wal_stream_.is_open()) {
         throw std::runtime_error("Failed to open WAL file for append at " + path_.string());
-- 
2.43.0


From 6130ab25a9f415b076bccb72009d83b60100913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 12/24] fix: a WAL frame that could not be written is reported

---
 include/recovery/write_ahead_log.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/recovery/write_ahead_log.hpp b/include/recovery/write_ahead_log.hpp
index affae5d..a3c2407 100644
--- a/include/recovery/write_ahead_log.hpp
+++ b/include/recovery/write_ahead_log.hpp
@@ -390,6 +390,13 @@ class WriteAheadLog {
 
     wal_stream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
     wal_stream_.flush();
+    if (!wal_stream_) {
+      // Reopen (and trim the partial frame) before the next append.
+      wal_stream_.clear();
+      wal_stream_.close();
+      wal_stream_.clear();
+      throw std::runtime_error("Failed to append WAL frame to " + path_.string());
+    }
 
     // Only fsync on COMMIT frames. PREPARE frames are durable enough after
     // flush — a crash between PREPARE and COMMIT leaves an uncommitted record
-- 
2.43.0


From 17029e9eb7d97151cf9bd3951f36cd8f27676b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 13/24] fix: the next operation id stays above the ids covered
 by the snapshot

---
 include/recovery/recovery_manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index e142eb9..c6fe010 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -58,7 +58,7 @@ class RecoveryManager {
     if (manifest.has_value()) {
       max_seen = manifest->applied_through_op_id_;
     }
-    (void)wal_.replayable_records(0, &max_seen);
+    (void)wal_.replayable_records(max_seen, &max_seen);
     return max_seen + 1;
   }
 
-- 
2.43.0


From f258e31e1a3dafd60a22ea582405da5ea682b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 14/24] fix: two snapshots taken within one millisecond get
 different directories

---
 include/recovery/recovery_manager.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index c6fe010..744aaad 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -65,10 +65,11 @@ class RecoveryManager {
   [[nodiscard]] auto create_snapshot_dir() const -> fs::path {
     ensure_layout();
     auto now = SnapshotManifest::current_unix_ms();
-    std::ostringstream name;
-    name << "snapshot-" << now;
-    auto snapshot_dir = snapshots_dir_ / name.str();
-    fs::create_directories(snapshot_dir);
+    // Never reuse a directory: two snapshots can be taken within one millisecond.
+    auto snapshot_dir = snapshots_dir_ / ("snapshot-" + std::to_string(now));
+    while (!fs::create_directories(snapshot_dir)) {
+      snapshot_dir = snapshots_dir_ / ("snapshot-" + std::to_string(++now));
+    }
     return snapshot_dir;
   }
 
-- 
2.43.0


From 6e53b17f4ba53ca9c82648ceb721938d745e4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 15/24] fix: merge_shards rejects a shard graph whose neighbor
 list is cut short

The read of a node's neighbors was not checked: the missing entries stayed
zero and were merged as edges to the shard's first point.
---
 include/index/graph/vamana/shard_merger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 9ba43e3..4280f06 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -303,6 +303,10 @@ inline uint64_t merge_shards(const std::vector<std::filesystem::path> &shard_gra
         std::vector<uint32_t> local_nbrs(k);
         readers[s].read(reinterpret_cast<char *>(local_nbrs.data()),
                         static_cast<std::streamsize>(k) * sizeof(uint32_t));
+        if (!readers[s].good()) {
+          throw std::runtime_error("merge_shards: short read on shard " + std::to_string(s) +
+                                   " at shard-local id " + std::to_string(shard_cursor[s]));
+        }
         for (uint32_t lnb : local_nbrs) {
           if (lnb >= idmaps[s].size()) {
             throw std::runtime_error("merge_shards: out-of-range shard-local neighbor " +
-- 
2.43.0


From 635748ea4024469cc4ede166f016aff49f5179de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 16/24] fix: compute_medoid_streaming rejects a vector file
 shorter than its header says

A short read left zeros or the previous block in the buffer, which were
averaged and compared as if they were vectors of the file.
---
 include/index/graph/vamana/shard_merger.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/graph/vamana/shard_merger.hpp b/include/index/graph/vamana/shard_merger.hpp
index 4280f06..ae4a4aa 100644
--- a/include/index/graph/vamana/shard_merger.hpp
+++ b/include/index/graph/vamana/shard_merger.hpp
@@ -87,6 +87,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("compute_medoid_streaming: short read: " + fbin_path.string());
+    }
     for (size_t p = 0; p < cur; ++p) {
       const float *v = buf.data() + p * dim;
       for (uint32_t d = 0; d < dim; ++d) {
@@ -111,6 +114,9 @@ inline uint32_t compute_medoid_streaming(const std::filesystem::path &fbin_path,
     const size_t cur = std::min(block_size, N - read_so_far);
     in.read(reinterpret_cast<char *>(buf.data()),
             static_cast<std::streamsize>(cur) * dim * sizeof(float));
+    if (!in.good()) {
+      throw std::runtime_error("compute_medoid_streaming: short read: " + fbin_path.string());
+    }
 
     double local_best = std::numeric_limits<double>::max();
     uint32_t local_id = 0;
-- 
2.43.0


From eee3187908d7caf0130d866fc5386d70e2463e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 17/24] fix: shard_data_by_centroids reports failed writes of
 its shard files

It is documented to throw on any I/O error, but a full disk left cut-short
shard files behind and returned normally.
---
 include/index/graph/vamana/shard_assigner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/index/graph/vamana/shard_assigner.hpp b/include/index/graph/vamana/shard_assigner.hpp
index 1c06160..ea6cd1f 100644
--- a/include/index/graph/vamana/shard_assigner.hpp
+++ b/include/index/graph/vamana/shard_assigner.hpp
@@ -87,6 +87,9 @@ struct ShardOutputStreams {
     idmap_os.seekp(0, std::ios::beg);
     idmap_os.write(reinterpret_cast<const char *>(&count), sizeof(uint32_t));
     idmap_os.close();
+    if (!data_os || !idmap_os) {
+      throw std::runtime_error("shard_assigner: write error on a shard file");
+    }
   }
 };
 
-- 
2.43.0


From 3b8aff01a779cde7a0ef6314019a2ccb58e3df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 18/24] fix: disk search results with NaN distances are ordered
 in Release builds

-Ofast folds std::isnan to false, so a NaN among the distances gave std::sort
an inconsistent order and finite hits came back out of order.
---
 include/index/disk/disk_collection.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index ea44831..19dc2ac 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -654,9 +654,11 @@ inline auto load_max_pending_bytes_from_manifest(const CollectionManifest &manif
   return static_cast<size_t>(value);
 }
 
+// NaN is recognized by its bits (is_nan_f32): Release builds use -Ofast, which
+// folds std::isnan to false and leaves std::sort without a strict weak order.
 inline auto disk_search_distance_less(float a, float b) -> bool {
-  const bool a_nan = std::isnan(a);
-  const bool b_nan = std::isnan(b);
+  const bool a_nan = is_nan_f32(a);
+  const bool b_nan = is_nan_f32(b);
   if (a_nan || b_nan) {
     return !a_nan && b_nan;
   }
@@ -664,7 +666,12 @@ inline auto disk_search_distance_less(float a, float b) -> bool {
 }
 
 inline auto disk_search_distance_equal_for_order(float a, float b) -> bool {
-  return (std::isnan(a) && std::isnan(b)) || a == b;
+  const bool a_nan = is_nan_f32(a);
+  const bool b_nan = is_nan_f32(b);
+  if (a_nan || b_nan) {
+    return a_nan && b_nan;
+  }
+  return a == b;
 }
 
 }  // namespace detail
-- 
2.43.0


From 7a6838ccc5bbbafd7172f68aaaae11625fd14c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 19/24] fix: a disk_vamana collection with a seed above 32 bits
 can be reopened

The constructor stores the 64-bit seed in the manifest; open parsed it as a
32-bit number and rejected the collection.
---
 include/index/disk/disk_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 19dc2ac..954e1f2 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -599,7 +599,7 @@ inline auto load_vamana_params_from_manifest(const CollectionManifest &manifest)
   params.R = parse_u32_extra(manifest, "x_vamana_R", params.R);
   params.L = parse_u32_extra(manifest, "x_vamana_L", params.L);
   params.alpha = parse_float_extra(manifest, "x_vamana_alpha", params.alpha);
-  params.seed = parse_u32_extra(manifest, "x_vamana_seed", static_cast<uint32_t>(params.seed));
+  params.seed = parse_u64_extra(manifest, "x_vamana_seed", params.seed);
   params.num_threads = parse_u32_extra(manifest, "x_vamana_num_threads", params.num_threads);
   return params;
 }
-- 
2.43.0


From b0c26453d6e21c6314e3ceed0b04c9f38298608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 20/24] fix: a reopened disk_vamana collection keeps its alpha

std::to_string keeps six decimals; nine significant digits identify every float.
---
 include/index/disk/disk_collection.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 954e1f2..13cab62 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -633,7 +633,9 @@ inline auto store_vamana_params_in_manifest(CollectionManifest &manifest,
                                             const VamanaSegmentBuildParams &params) -> void {
   manifest.x_extras["x_vamana_R"] = std::to_string(params.R);
   manifest.x_extras["x_vamana_L"] = std::to_string(params.L);
-  manifest.x_extras["x_vamana_alpha"] = std::to_string(params.alpha);
+  char alpha[32];
+  std::snprintf(alpha, sizeof(alpha), "%.9g", static_cast<double>(params.alpha));
+  manifest.x_extras["x_vamana_alpha"] = alpha;
   manifest.x_extras["x_vamana_seed"] = std::to_string(params.seed);
   manifest.x_extras["x_vamana_num_threads"] = std::to_string(params.num_threads);
 }
-- 
2.43.0


From d3bf2ea8081ad4eec45bbf00c2e86dce0f7dd357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 21/24] fix: opening a disk collection rejects segments of
 another dimension or engine

A listed segment whose manifest has a larger dim than the collection made every
search read past the end of the caller's query.
---
 include/index/disk/disk_collection.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 13cab62..7baadb0 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1272,6 +1272,12 @@ class DiskCollection {
                                  seg_dir.string());
       }
       auto searcher = load_segment_from_manifest(seg_dir);
+      // search() hands every segment a query of the collection's dimension.
+      if (searcher->dim() != manifest_.dim || searcher->type() != manifest_.index_type) {
+        throw std::runtime_error(
+            "DiskCollection: segment dim or index_type disagrees with the collection manifest: " +
+            seg_dir.string());
+      }
       segments_.push_back(std::move(searcher));
       segment_dirs_.push_back(seg_dir);
     }
-- 
2.43.0


From b348d624f6d9743e13e359613505672ffe6ad098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 22/24] fix: a multi-segment disk search with a very large
 top_k does not exhaust memory

The buffer was reserved for top_k hits per segment however few rows exist, so
top_k = UINT32_MAX threw bad_alloc once a second segment was flushed.
---
 include/index/disk/disk_collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/index/disk/disk_collection.hpp b/include/index/disk/disk_collection.hpp
index 7baadb0..eeaef60 100644
--- a/include/index/disk/disk_collection.hpp
+++ b/include/index/disk/disk_collection.hpp
@@ -1079,7 +1079,7 @@ class DiskCollection {
 
     const bool preserve_laser_rank = segments_[0]->type() == DiskIndexType::Laser;
     std::vector<Tagged> all;
-    all.reserve(segments_.size() * opts.top_k);
+    all.reserve(std::min<uint64_t>(segments_.size() * static_cast<uint64_t>(opts.top_k), size()));
     for (uint32_t s = 0; s < segments_.size(); ++s) {
       auto seg_hits = segments_[s]->search(query, opts);
       for (size_t rank = 0; rank < seg_hits.size(); ++rank) {
-- 
2.43.0


From 048c98a66a3a1be120f9ef4fe9f882cb7c5fe844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:33 +0000
Subject: [PATCH 23/24] fix: a snapshot whose manifest could not be written was
 published and the log truncated

---
 include/recovery/recovery_manager.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/recovery/recovery_manager.hpp b/include/recovery/recovery_manager.hpp
index 744aaad..7e4d43d 100644
--- a/include/recovery/recovery_manager.hpp
+++ b/include/recovery/recovery_manager.hpp
@@ -255,6 +255,9 @@ class RecoveryManager {
       output.write(content.data(), static_cast<std::streamsize>(content.size()));
       output.flush();
       output.close();
+      if (!output) {
+        throw std::runtime_error("Failed to write " + tmp_path.string());
+      }
     }
 
     platform::sync_file(tmp_path);
-- 
2.43.0


From 4901bc9a4d300add1d1730d90eee00631ed93cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:49 +0000
Subject: [PATCH 24/24] fix: a disk layout header with wrapping sizes is
 rejected instead of dividing by zero

---
 include/index/graph/diskann/disk_layout.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/index/graph/diskann/disk_layout.hpp b/include/index/graph/diskann/disk_layout.hpp
index bf43d0b..1f2a66a 100644
--- a/include/index/graph/diskann/disk_layout.hpp
+++ b/include/index/graph/diskann/disk_layout.hpp
@@ -321,6 +321,16 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (h.num_points == 0 || h.dim == 0) {
     throw std::runtime_error("read_disk_layout_header: zero num_points/dim in " + path);
   }
+  std::error_code ec;
+  const auto actual = std::filesystem::file_size(path, ec);
+  if (ec) {
+    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
+  }
+  // Bound dim and num_points by the file size before deriving anything from
+  // them, so that the geometry arithmetic cannot wrap around.
+  if (h.dim > static_cast<uint64_t>(actual) / sizeof(float)) {
+    throw std::runtime_error("read_disk_layout_header: dim exceeds the file size in " + path);
+  }
   const DiskLayoutGeometry geom = DiskLayoutGeometry::compute(h.dim, h.max_degree);
   if (h.node_len != geom.node_len) {
     throw std::runtime_error("read_disk_layout_header: node_len mismatch (header " +
@@ -333,17 +343,15 @@ inline DiskLayoutHeader read_disk_layout_header(const std::string &path) {
   if (h.medoid >= h.num_points) {
     throw std::runtime_error("read_disk_layout_header: medoid out of range in " + path);
   }
+  if (h.num_points > static_cast<uint64_t>(actual) / geom.node_len) {
+    throw std::runtime_error("read_disk_layout_header: num_points exceeds the file size in " + path);
+  }
   const uint64_t expected = geom.total_file_size(h.num_points);
   if (h.total_file_size != expected) {
     throw std::runtime_error("read_disk_layout_header: header total_file_size " +
                              std::to_string(h.total_file_size) + " != expected " +
                              std::to_string(expected));
   }
-  std::error_code ec;
-  const auto actual = std::filesystem::file_size(path, ec);
-  if (ec) {
-    throw std::runtime_error("read_disk_layout_header: cannot stat " + path);
-  }
   if (static_cast<uint64_t>(actual) != h.total_file_size) {
     throw std::runtime_error("read_disk_layout_header: on-disk size " + std::to_string(actual) +
                              " != header total_file_size " + std::to_string(h.total_file_size));
-- 
2.43.0

