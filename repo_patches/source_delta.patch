From 9a8604cf71df270d054cbc711e2d361adc0ccc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 01/30] fix: respect the view offset in positional access to
 one-dimensional arrays

---
 eisvogel/core/impl/NDVecArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..9d90b1f 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + ComputeFlatInd(ind_t{ind}));
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
-- 
2.43.0


From bbccac4175582428a2b060c5f284e4c433b7472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 02/30] fix: copy the elements of the view, not of its parent's
 origin, when copying array views

---
 eisvogel/core/impl/NDVecArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..57740df 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -82,10 +82,10 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
 
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
-    
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+
+    // `other` may be a view and can therefore have a different memory layout
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
-- 
2.43.0


From 8e2b8de63031f78f0650ebe44bf1487ed887e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 03/30] fix: append exactly the elements of the view when
 appending an array view

---
 eisvogel/core/impl/NDVecArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index 57740df..0ee4ad1 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -217,16 +217,16 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  ind_t app_start(0);
+  app_start[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
   new_shape[axis] += other.m_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data (note: `other` may be a view and thus not contiguous in memory)
+  fill_from(other, ind_t(0), other.m_shape, app_start);
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 3452dc5f48758142561a07552c72fe21dd4822c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 04/30] fix: handle look-up, update and bulk reorganisation of
 an empty R*-tree

---
 eisvogel/core/impl/RStarTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..6847009 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -562,6 +562,11 @@ template <typename CoordT, std::size_t dims, class PayloadT>
 void RStarTree<CoordT, dims, PayloadT>::UpdateBoundingBox(const Vector<CoordT, dims>& elem_coords,
 							  const Vector<CoordT, dims>& updated_start_coords, const Vector<CoordT, dims>& updated_end_coords) {
 
+  // Nothing to update in an empty tree
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return;
+  }
+
   // Traverse the tree starting from the root node, updating the root node if required
   if(search_entry_update_bbox(m_root_slot, elem_coords, updated_start_coords, updated_end_coords)) {
     recalculate_bbox(m_root_slot);
@@ -1069,6 +1074,11 @@ std::size_t RStarTree<CoordT, dims, PayloadT>::split(std::size_t node_slot) {
 template <typename CoordT, std::size_t dims, class PayloadT>
 PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>& coords) {
 
+  // An empty tree contains no entries
+  if(m_root_slot == NodePool::INVALID_SLOT) {
+    return nullptr;
+  }
+
   // First check if we're asked to search for the same entry again ...
   if(m_last_accessed_entry_slot != EntryPool::INVALID_SLOT) {
 
@@ -1331,6 +1341,11 @@ void RStarTree<CoordT, dims, PayloadT>::RebuildSTR() {
   m_entries.reset();
   m_last_accessed_entry_slot = EntryPool::INVALID_SLOT;
 
+  // Nothing to rebuild if the tree is empty
+  if(entries.empty()) {
+    return;
+  }
+
   // std::cout << "starting to rebuild tree for " << entries.size() << " entries" << std::endl;
 
   std::vector<std::size_t> node_slots;
-- 
2.43.0


From a1724fbc78455572841d23ab189800e32319bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 05/30] fix: refuse to append slices that the on-disk layout
 cannot represent

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..2eae668 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -251,6 +251,24 @@ namespace stor {
     return false;
   }
   
+  // tests if a slice that is appended along `axis` can simply be serialized after an existing array with `array_shape`
+  template <std::size_t dims>
+  bool ser_chunks_permit_concatenation(const Vector<std::size_t, dims>& array_shape, const Vector<std::size_t, dims>& ser_chunk_shape, std::size_t axis) {
+
+    // must have no partial chunks and no automatically-growing chunks along the concatenation axis
+    if((ser_chunk_shape[axis] > array_shape[axis]) || (array_shape[axis] % ser_chunk_shape[axis] != 0)) {
+      return false;
+    }
+
+    // concatenation axis must not come after the outermost axis along which there is more than one chunk
+    for(std::size_t ind = 0; ind < axis; ind++) {
+      if(ser_chunk_shape[ind] < array_shape[ind]) {
+	return false;
+      }
+    }
+    return true;
+  }
+  
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
@@ -270,28 +288,12 @@ namespace stor {
       throw std::runtime_error("Error: dimensions not compatible for concatenation!");
     }
 
-    // --------
-    // TODO: Finish implementing checks
-    // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
-
-    // Better conditions:
-    // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
-    // 2) concat dimension must not be after the outermost changing dimension
-    // --------
-    
-    // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
-    // if(!chunk_is_slice(meta.array_shape, meta.ser_chunk_shape)) {
-    //   throw std::runtime_error("Error: serialization chunk is not a slice, cannot append!");
-    // }
-    
-    // // need to make sure that the serialization axis is the same as the axis for appending the new slice
-    // if(!ser_axis_matches_insertion_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
-    //   throw std::runtime_error("Error: serialization axis does not match requested insertion axis!");
-    // }
+    // need to make sure that iterating over the serialization chunks of the existing array and then over those of `slice` is the same as
+    // iterating over the serialization chunks of the concatenated array
+    if(!ser_chunks_permit_concatenation(meta.array_shape, meta.ser_chunk_shape, axis)) {
+      throw std::runtime_error("Error: serialization chunk shape not compatible with appending along this axis!");
+    }
 
-    // --------
-        
     // update metadata
     // check if the passed `slice` fits exactly into one or more serialization chunks; no further modifications are allowed if it doesn't
     meta.access_mode = permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) ? AccessMode::modification_allowed : AccessMode::modification_not_allowed;
-- 
2.43.0


From f2d9bc201640c2d2d73c021b13abcf61322c08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 06/30] fix: reserve space for the trailing null character of
 the chunk file name

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..360196e 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -516,7 +516,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[UUID_STR_LEN]; // includes the trailing null character
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From 4dc6d85cf6c1ef511b7e294660010f57568523cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/30] fix: do not hand out the ids of existing chunks again
 after reopening an array

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 360196e..fb591b6 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -719,6 +719,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
 
   for(metadata_t& cur_meta : chunk_list) {
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
+
+    // make sure that chunks added later do not reuse the id of an existing chunk
+    m_next_chunk_id = std::max(m_next_chunk_id, static_cast<id_t>(cur_meta.chunk_id + 1));
   }  
 }
 
-- 
2.43.0


From 01c034f2b6f303918c2b92d7ece76ceac870b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 08/30] fix: include the overlap in the shape of retrieved
 all-null chunks

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index fb591b6..6f334ab 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -288,8 +288,8 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
-    // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    // Make sure the cache element has the correct shape (including the overlap) ...
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From 2751e39ba9e6f8bf683179d4b124d26875007b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/30] fix: make the rebuild overloads without overlap usable

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6f334ab..57bb4ff 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1181,7 +1181,7 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    const ind_t& requested_chunk_shape, std::filesystem::path outdir, const ChunkHints& hints) {
 
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
@@ -1368,7 +1368,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape,
 								     std::filesystem::path tmpdir, const ChunkHints& hints) {
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
-- 
2.43.0


From 97fed2e405aa26de80a87e30429dc13fefd06c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/30] fix: iterate over and rebuild the full index range of
 an array, and refuse to rebuild arrays with gaps

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 57bb4ff..83009c3 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1051,8 +1051,8 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 template <class CallableT>
 constexpr void ChunkLibrary<ArrayT, T, dims, vec_dims>::index_loop_over_elements(CallableT&& worker) {
-  Vector<std::size_t, dims> start_ind(0);
-  index_loop_over_elements(start_ind, m_index.GetShape(), worker);
+  ind_t start_ind = m_index.get_start_ind();
+  index_loop_over_elements(start_ind, start_ind + m_index.GetShape(), worker);
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -1347,10 +1347,15 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 template <class BoundaryCallableT>
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape, std::filesystem::path tmpdir, std::size_t overlap,
 								     BoundaryCallableT&& boundary_evaluator, const ChunkHints& hints) {
-  ind_t global_start_ind(0);
-  shape_t global_shape = m_library.GetShape();
+  ind_t global_start_ind = m_library.GetStartInd();
+  ind_t global_end_ind = m_library.GetEndInd();
+
+  // The contents of an array with gaps would be lost
+  if(global_start_ind + m_library.GetShape() != global_end_ind) {
+    throw std::runtime_error("Error: can only rebuild the chunks of a contiguous array!");
+  }
   
-  RebuildChunksPartial(global_start_ind, global_shape, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
-- 
2.43.0


From e5f43b43f8c071e82d0928233c7c01b1cc8fbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 11/30] fix: carry out a pending write of a chunk before
 appending along another axis

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 42 +++++++-------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 83009c3..a30556b 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -143,39 +143,25 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
   // Cache already contains the chunk, how to proceed depends on its status
   cache_entry_t& cached_chunk = m_cache.get(index);
   status_t& status = cached_chunk.op_to_perform;
-  if(std::holds_alternative<CacheStatus::Nothing>(status)) {
-    
-    // The chunk is in the cache, but is marked as being in sync with the information on disk.
-    // Remove it from the cache ...
-    m_cache.evict(index);
-    
-    // ... and insert it with `append` status, as done above
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
-  }
-  else if(std::holds_alternative<CacheStatus::Serialize>(status)) {
 
-    // std::cout << "AAA: concatenated in memory to serialize" << std::endl;
-    
-    // The cache already contains a chunk that is to be serialized from scratch; just concatenate in memory and write to disk whenever
-    // this chunk is evicted from the cache
+  // The cache either contains a chunk that is to be serialized from scratch or one that is scheduled for concatenation with the on-disk chunk
+  // along the same axis. In both cases, can just concatenate in memory (supported along the outermost axis) and write to disk whenever this
+  // chunk is evicted from the cache
+  bool concatenate_in_memory = (axis == 0) &&
+    (std::holds_alternative<CacheStatus::Serialize>(status) ||
+     (std::holds_alternative<CacheStatus::Append>(status) && (std::get<CacheStatus::Append>(status).axis == axis)));
+  
+  if(concatenate_in_memory) {
     cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);      
+    cached_chunk.chunk_data.template Append<axis>(slice);
   }
-  else if(std::holds_alternative<CacheStatus::Append>(status)) {
+  else {
 
-    // std::cout << "AAA: concatenated in memory to append" << std::endl;
+    // Carry out any outstanding operation and remove the chunk from the cache ...
+    descope_cache_element(m_cache.evict(index));
     
-    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk
-    if(std::get<CacheStatus::Append>(status).axis != axis) {
-      
-      // Concatenation axis changed, need to synchronize
-      sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
-    }
-
-    // Now have the fully up-to date chunk in the cache, can append
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);
+    // ... and insert it with `append` status, as done above
+    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
   }
 
   // Immediately synchronize to disk if we're asked to operate without cache
-- 
2.43.0


From cef6acf7263ef9c5f3a2ca135f08dedb6f178ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 12/30] fix: rewrite a chunk when its on-disk layout does not
 permit appending a slice

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 ++
 eisvogel/core/impl/DistributedNDVecArray.hxx | 43 ++++++++++++++++++--
 eisvogel/core/impl/NDVecArrayStreamer.hh     |  2 +
 eisvogel/core/impl/NDVecArrayStreamer.hxx    | 13 ++++++
 4 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 3004f0e..47365ec 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -278,6 +278,9 @@ private:
 
   void descope_cache_element(cache_entry_t& cache_entry);
 
+  // appends the data in `cache_entry` to the on-disk portion of the chunk, which is accessed through `iofs`
+  void append_to_disk(const cache_entry_t& cache_entry, std::fstream& iofs, const std::filesystem::path& chunk_path);
+
   std::filesystem::path get_abs_path(const std::filesystem::path& chunk_path);
   
 private:
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index a30556b..efa9bcc 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -334,8 +334,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
   if(std::holds_alternative<CacheStatus::Append>(status)) {
     
     // Append the cached chunk to the on-disk portion ...
-    m_streamer.append_slice(iofs, cache_entry.chunk_data, std::get<CacheStatus::Append>(status).axis,
-			    stor::StreamerMode::null_suppressed);
+    append_to_disk(cache_entry, iofs, chunk_path);
     
     // ... then rewind and deserialize the full chunk into the same cache location
     iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
@@ -347,6 +346,39 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
   cache_entry.op_to_perform = CacheStatus::Nothing();
 }
 
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+void ChunkCache<ArrayT, T, dims, vec_dims>::append_to_disk(const cache_entry_t& cache_entry, std::fstream& iofs, const std::filesystem::path& chunk_path) {
+
+  std::size_t axis = std::get<CacheStatus::Append>(cache_entry.op_to_perform).axis;
+  
+  if(m_streamer.can_append_slice(iofs, axis)) {
+    [[likely]];
+    m_streamer.append_slice(iofs, cache_entry.chunk_data, axis, stor::StreamerMode::null_suppressed);
+    return;
+  }
+
+  if(!stor::is_serialization_chunk_well_formed(m_streamer_chunk_size)) {
+    throw std::runtime_error("Error: cannot append to this chunk without rewriting it, and no valid serialization chunk size is known!");
+  }
+
+  // The new data cannot just be put at the end of the existing file; need to read the existing chunk, concatenate in memory, and write it again
+  chunk_t on_disk_chunk(Vector<std::size_t, dims>(1));
+  m_streamer.deserialize(iofs, on_disk_chunk);
+
+  Vector<std::size_t, dims> slice_start(0);
+  slice_start[axis] = on_disk_chunk.GetShape()[axis];
+
+  chunk_t full_chunk(slice_start + cache_entry.chunk_data.GetShape());
+  full_chunk.fill_from(on_disk_chunk, Vector<std::size_t, dims>(0), on_disk_chunk.GetShape(), Vector<std::size_t, dims>(0));
+  full_chunk.fill_from(cache_entry.chunk_data, Vector<std::size_t, dims>(0), cache_entry.chunk_data.GetShape(), slice_start);
+
+  iofs.close();
+  iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary);
+  iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
+  m_streamer.serialize(iofs, full_chunk, m_streamer_chunk_size, stor::StreamerMode::null_suppressed);
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t& cache_entry) {
@@ -385,8 +417,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
     iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
     iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.append_slice(iofs, cache_entry.chunk_data, std::get<CacheStatus::Append>(status).axis,
-			    stor::StreamerMode::null_suppressed);
+    append_to_disk(cache_entry, iofs, chunk_path);
     iofs.close();
   }
   else if(std::holds_alternative<CacheStatus::Nothing>(status)) {
@@ -878,6 +909,10 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
     throw std::logic_error("Appending to non-fully-specified chunks (`ChunkType::specified`) not implemented yet!");
   }
 
+  if(meta -> overlap > 0) {
+    throw std::logic_error("Appending to chunks with overlap not implemented yet!");
+  }
+  
   // For now, restrict slice-appending to chunks that are fully specified on disk
   // TODO: to be implemented when the need arises (see above), this assertion to be removed once done
   assert(meta -> chunk_type == ChunkType::specified);
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hh b/eisvogel/core/impl/NDVecArrayStreamer.hh
index 7f3c3d3..b510479 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hh
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hh
@@ -57,6 +57,8 @@ namespace stor {
     void serialize(std::fstream& stream, const type& val, const shape_t& chunk_size, const StreamerMode& mode);
     void deserialize(std::fstream& stream, type& val);
 
+    // tests if slices can be appended along `axis` without having to write the array again
+    bool can_append_slice(std::fstream& stream, std::size_t axis);
     void append_slice(std::fstream& stream, const type& chunk, std::size_t axis, const StreamerMode& mode);
 
   private:
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index 2eae668..2b2bdf4 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -269,6 +269,19 @@ namespace stor {
     return true;
   }
   
+  template <template<typename, std::size_t, std::size_t> class ArrayT,
+	    typename T, std::size_t dims, std::size_t vec_dims>
+  bool NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::can_append_slice(std::fstream& stream, std::size_t axis) {
+
+    // read array-wide metadata and rewind
+    std::streampos init_pos = stream.tellg();
+    NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims> meta = Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::deserialize(stream);
+    stream.seekg(init_pos);
+
+    return (meta.access_mode != AccessMode::modification_not_allowed) &&
+      ser_chunks_permit_concatenation(meta.array_shape, meta.ser_chunk_shape, axis);
+  }
+  
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
-- 
2.43.0


From 25e40b49c5727b9c567ecf4128b0065f83dbd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 13/30] fix: clear the buffer before rebuilding each chunk

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index efa9bcc..446a2e9 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1262,7 +1262,8 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
     ind_t output_start = (fill_start_ind.template as_type<int>() - extended_chunk_start_ind).template as_type<std::size_t>();
     
     // fill rebuilt chunk into local buffer ...    
-    chunk_buffer.resize(extended_chunk_shape);    
+    chunk_buffer.resize(extended_chunk_shape);
+    chunk_buffer = (T)(0.0); // boundary evaluators may look at samples outside the original array, make sure they don't see the previous chunk
     FillArray(chunk_buffer, fill_start_ind, fill_end_ind, output_start);
 
     auto is_boundary_element = [&](Vector<int, dims>& boundary_ind) {
-- 
2.43.0


From eaf214f7746a9d69fa55f1327b45069df676ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 14/30] fix: skip the output samples covered by an empty chunk
 when evaluating a Green's function

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..7d4cbcc 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -431,6 +431,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+      // Nothing to accumulate from an empty chunk, but make sure to step over the samples that it covers
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From a6e48295d63bed7bd7042bb2a4d7e20b041e23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 15/30] fix: evaluate a Green's function only within the range
 covered by the loaded chunk

---
 eisvogel/core/impl/GreensFunction.hxx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 7d4cbcc..35ce158 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include "GreensFunction.hh"
 #include "Serialization.hh"
 #include "Interpolation.hh"
@@ -47,7 +49,9 @@ namespace {
       scalar_t frac_part = std::modf(global_ind[i], &tmp);
       std::size_t int_part = (std::size_t)tmp;
       
-      local_ind[i] = (scalar_t)(int_part - meta.loc_ind_offset[i]) + frac_part;
+      // Make sure that the result is not rounded up to the next integer: this could already be outside of the chunk
+      scalar_t local_int_part = (scalar_t)(int_part - meta.loc_ind_offset[i]);
+      local_ind[i] = std::min(local_int_part + frac_part, std::nextafter(local_int_part + 1, (scalar_t)0.0));
     }
     
     return local_ind;
@@ -386,17 +390,20 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-    // Check how many of the next samples are determined by the currently-loaded chunk
-    std::size_t chunk_num_samples = (std::size_t)((RZTIndexVector::t(meta -> end_ind) - cur_f_ind.t()) / t_samp_f_ind) + 1;
+    // Check how many of the next samples are determined by the currently-loaded chunk, i.e. lie before its (exclusive) end. The margin protects against
+    // samples whose position is rounded up to the end of the chunk; those are attributed to the next chunk.
+    const scalar_t chunk_end_f_ind = RZTIndexVector::t(meta -> end_ind);
+    const scalar_t end_margin_f_ind = 8 * std::numeric_limits<scalar_t>::epsilon() * chunk_end_f_ind;
+    const scalar_t chunk_num_samples_f = std::ceil((chunk_end_f_ind - end_margin_f_ind - cur_f_ind.t()) / t_samp_f_ind);
+    std::size_t chunk_num_samples = std::max(chunk_num_samples_f, (scalar_t)1.0);
 
     // std::cout << "chunk_num_samples = " << chunk_num_samples << std::endl;
     
     // Make sure to not request more samples than needed
     std::size_t samples_to_request = std::min(chunk_num_samples, num_samples - cur_sample_ind);
 
-    // Ensure that we're not going too far (interpolation end point `cur_t_end_f_ind` is exclusive,
-    // i.e. can reach up to and including the `end_ind` of the chunk)
-    assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind <= RZTIndexVector::t(meta -> end_ind));
+    // Ensure that we're not going too far: all requested samples need to be in this chunk
+    assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind < chunk_end_f_ind);
     
     // std::cout << "HHHHHHHHH" << std::endl;
     // std::cout << meta << std::endl;
-- 
2.43.0


From 83fa494846bb762fa5400ee28a47c6f1e79d511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 16/30] fix: reject or skip evaluation points outside of the
 domain of a Green's function

---
 eisvogel/core/impl/GreensFunction.hh  |  3 +++
 eisvogel/core/impl/GreensFunction.hxx | 35 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hh b/eisvogel/core/impl/GreensFunction.hh
index 79ce041..ca8b13e 100644
--- a/eisvogel/core/impl/GreensFunction.hh
+++ b/eisvogel/core/impl/GreensFunction.hh
@@ -109,6 +109,9 @@ private:
   RZCoordVector coords_to_index(const RZCoordVectorView rz_coords);
   RZTCoordVector coords_to_index(const RZTCoordVector& rzt_coords);
   
+  // Finds the chunk containing the location with (floating-point) array index `f_ind`, or returns a null pointer if there is none
+  const metadata_t* get_chunk_containing(const RZTVector<scalar_t>& f_ind);
+  
   // Used during (de)construction
   static std::filesystem::path move_path_from(Distributed_RZT_ErEz_Array&& data);
   void load_metadata();
diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 35ce158..27d4e44 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 #include "GreensFunction.hh"
 #include "Serialization.hh"
 #include "Interpolation.hh"
@@ -371,20 +372,27 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     cur_f_ind.t() = t_start_f_ind + cur_sample_ind * t_samp_f_ind;
     
     // Fetch the chunk that contains this current location ...
-    RZTIndexVector cur_ind = cur_f_ind.template as_type<std::size_t>();
-    const metadata_t* meta = m_index.GetChunk(cur_ind);
+    const metadata_t* meta = get_chunk_containing(cur_f_ind);
 
     // std::cout << "start_ind = " << m_index.get_start_ind() << std::endl;
     // std::cout << "end_ind = " << m_index.get_end_ind() << std::endl;
-    // std::cout << "cur_ind = " << cur_ind << std::endl;
+    // std::cout << "cur_f_ind = " << cur_f_ind << std::endl;
     // std::cout << "start_pos_rzt = " << m_meta.start_pos_rzt << std::endl;
     // std::cout << "end_pos_rzt = " << m_meta.end_pos_rzt << std::endl;
     // std::cout << "sample_interval_rzt = " << m_meta.sample_interval_rzt << std::endl;
     
-    // (Silently) ignore (part of) this track if this is what we're asked to do
-    if((oob_mode == Green::OutOfBoundsBehavior::Ignore) && (meta == nullptr)) {
-      // std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
-      return;
+    // This sample lies outside of the domain of this Green's function
+    if(meta == nullptr) {
+
+      // (Silently) ignore it if this is what we're asked to do
+      if(oob_mode == Green::OutOfBoundsBehavior::Ignore) {
+	// std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
+	std::advance(result, 1);
+	cur_sample_ind++;
+	continue;
+      }
+
+      throw std::out_of_range("Error: evaluation outside of the domain of the Green's function!");
     }
 
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
@@ -483,6 +491,19 @@ RZTCoordVector CylindricalGreensFunction::coords_to_index(const RZTCoordVector&
   return (rzt_coords - m_meta.start_pos_rzt) / m_meta.sample_interval_rzt;
 }
 
+const CylindricalGreensFunction::metadata_t* CylindricalGreensFunction::get_chunk_containing(const RZTVector<scalar_t>& f_ind) {
+
+  const RZTIndexVector start_ind = m_index.get_start_ind();
+  const RZTIndexVector end_ind = m_index.get_end_ind();
+  
+  for(std::size_t i = 0; i < Green::DimTraits<CylindricalGreensFunction>::dims; i++) {
+    if(!((f_ind[i] >= start_ind[i]) && (f_ind[i] < end_ind[i]))) {
+      return nullptr;
+    }
+  }
+  return m_index.GetChunk(f_ind.template as_type<std::size_t>());
+}
+
 void CylindricalGreensFunction::save_metadata() {
   std::fstream ofs;
   ofs.open(m_meta_path, std::ios::out | std::ios::binary);
-- 
2.43.0


From 201f3aa71c5198268be752b2ef3de677e7d19088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 17/30] fix: do not abort when a signal sample coincides with
 an integration time up to rounding

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 27d4e44..fa6ef5a 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -311,8 +311,8 @@ void CylindricalGreensFunction::apply_accumulate(const LineCurrentSegment& seg,
 	// Time of the first output sample that we are computing in this block
 	scalar_t block_t_sig_start = block_sample_ind_start * t_sig_samp + t_sig_start;
 	
-	// start time in integration block
-	scalar_t convolution_t_start = block_t_sig_start - t_p;
+	// start time in integration block; the first causal sample can coincide with `t_p`, make sure that rounding does not move it to negative times
+	scalar_t convolution_t_start = std::max(block_t_sig_start - t_p, (scalar_t)0.0);
 
 	// std::cout << " . . . . . . . . " << std::endl;
 	// std::cout << "start to call accumulate_inner_product" << std::endl;
-- 
2.43.0


From 4dde698d6da812a4025be7bf63b4ecb582950e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 18/30] fix: fill all samples of a requested block of a Green's
 function

Samples that lie in the last chunk beyond the (exclusive) end index, and blocks with a single sample along an axis, were left at zero.
---
 eisvogel/core/impl/GreensFunction.hxx | 46 +++++++++++++++++++--------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index fa6ef5a..7cd5d5c 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -122,11 +122,32 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
   // Convert `start_pos`, `end_pos` and `sample_interval` into floating-point array indices
   RZTVector start_f_ind = coords_to_index(start_pos);
   RZTVector end_f_ind = coords_to_index(end_pos);  
-  RZTVector stepsize_f_ind = (end_f_ind - start_f_ind) / (num_samples.template as_type<scalar_t>() - 1);
+  constexpr std::size_t dims = Green::DimTraits<CylindricalGreensFunction>::dims;
+  RZTVector<scalar_t> stepsize_f_ind(0.0f);
+  for(std::size_t i = 0; i < dims; i++) {
+    if(num_samples[i] > 1) {
+      stepsize_f_ind[i] = (end_f_ind[i] - start_f_ind[i]) / (num_samples[i] - 1);
+    }
+  }
+
+  // Number of output samples along each direction whose position lies before the array index `f_ind`. Samples whose position coincides with `f_ind` up to
+  // rounding are not counted.
+  auto number_samples_before = [&](const RZTVector<scalar_t>& f_ind) -> RZTIndexVector {
+    RZTIndexVector result(0);
+    for(std::size_t i = 0; i < dims; i++) {
+      scalar_t distance = f_ind[i] - 8 * std::numeric_limits<scalar_t>::epsilon() * f_ind[i] - start_f_ind[i];
+      if(distance <= 0) {
+	continue;
+      }
+      bool covers_all = distance > stepsize_f_ind[i] * (num_samples[i] - 1);
+      result[i] = covers_all ? num_samples[i] : std::min(num_samples[i], (std::size_t)std::ceil(distance / stepsize_f_ind[i]));
+    }
+    return result;
+  };
     
   // Get all chunks that contribute to the range spanned by `start_f_ind` and `end_f_ind`
   RZTIndexVector start_ind = start_f_ind.template as_type<std::size_t>();
-  RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>();
+  RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>() + 2;   // exclusive; includes samples that coincide with the start of the next chunk
   std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind);  
 
   // std::cout << "start_ind = " << start_ind << std::endl;
@@ -143,23 +164,22 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
       continue;
     }
     
-    const chunk_t& chunk = m_cache.RetrieveChunk(chunk_meta);
-    
     RZTVector<scalar_t> chunk_start_f_ind = chunk_meta.start_ind.template as_type<scalar_t>();
     RZTVector<scalar_t> chunk_end_f_ind = chunk_meta.end_ind.template as_type<scalar_t>();
 
-    // Find the output start and output end indices determined by this chunk
-    RZTVector<scalar_t> output_start_f_ind = (chunk_start_f_ind - start_f_ind) / stepsize_f_ind;
-    RZTVector<scalar_t> output_end_f_ind = (chunk_end_f_ind - start_f_ind) / stepsize_f_ind;
-    
-    RZTIndexVector output_start_ind = VectorUtils::ceil_nonneg(VectorUtils::max(output_start_f_ind, 0.0f));
-    RZTIndexVector output_end_ind = VectorUtils::floor_nonneg(VectorUtils::min(output_end_f_ind + 1, num_samples.template as_type<scalar_t>()));
+    // Find the output start (inclusive) and output end (exclusive) indices determined by this chunk
+    RZTIndexVector output_start_ind = number_samples_before(chunk_start_f_ind);
+    RZTIndexVector output_end_ind = number_samples_before(chunk_end_f_ind);
 
-    // std::cout << chunk_meta << std::endl;
+    // None of the output samples are in this chunk
+    if((output_start_ind.r() >= output_end_ind.r()) || (output_start_ind.z() >= output_end_ind.z()) || (output_start_ind.t() >= output_end_ind.t())) {
+      continue;
+    }
 
-    // std::cout << "provides output_start_f_ind = " << output_start_f_ind << std::endl;
-    // std::cout << "provides output_end_f_ind = " << output_end_f_ind << std::endl;
+    const chunk_t& chunk = m_cache.RetrieveChunk(chunk_meta);
     
+    // std::cout << chunk_meta << std::endl;
+
     // std::cout << "provides output_start_ind = " << output_start_ind << std::endl;
     // std::cout << "provides output_end_ind = " << output_end_ind << std::endl;
 
-- 
2.43.0


From dfb69b15533f63983abfd3c10185162ee3484632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 19/30] fix: raise an error instead of terminating for
 arguments outside of the domain of the incomplete gamma function

---
 eisvogel/core/impl/MathUtils.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/MathUtils.hxx b/eisvogel/core/impl/MathUtils.hxx
index 375e15e..d66f943 100644
--- a/eisvogel/core/impl/MathUtils.hxx
+++ b/eisvogel/core/impl/MathUtils.hxx
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <iostream>
+#include <stdexcept>
 
 namespace MathUtils {
 
@@ -65,7 +66,7 @@ namespace MathUtils {
   scalar_t incomplete_gamma(scalar_t a, scalar_t z, scalar_t rel_tol) {    
 
     if((a < 0) || (z < 0)) {
-      throw;
+      throw std::domain_error("Error: incomplete gamma function is only available for non-negative order and argument!");
     }
 
     if((z <= 1) || (z < a)) {
-- 
2.43.0


From e0921531c7407d28c7f34217bc3ef7d9699d1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 20/30] fix: use at least one sampling interval along each
 direction for analytic Green's functions

A region or time range shorter than the requested sampling interval resulted in a division by zero.
---
 eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx b/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
index 3b1cddd..c0502c1 100644
--- a/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
+++ b/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
@@ -130,9 +130,10 @@ namespace GreensFunctionCalculator::Analytic {
     RZTCoordVector start_coords_rzt{start_coords.r(), start_coords.z(), t_start};
     RZTCoordVector end_coords_rzt{end_coords.r(), end_coords.z(), t_end};
 
-    // Determine step size so that an integer number of samples fits into the domain of the Green's function
+    // Determine step size so that an integer number of samples (and at least one) fits into the domain of the Green's function
     RZTVector<scalar_t> stepsize_requested{delta_pos, delta_pos, delta_t};
     RZTVector<std::size_t> number_pts = ((end_coords_rzt - start_coords_rzt) / stepsize_requested).template as_type<std::size_t>();
+    number_pts = VectorUtils::max(number_pts, RZTVector<std::size_t>(1));
     RZTVector<scalar_t> stepsize = (end_coords_rzt - start_coords_rzt) / number_pts.template as_type<scalar_t>();
     
     // Resulting start- and end indices
-- 
2.43.0


From 06e27f573626289e7ccd00111d4709465590cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 21/30] fix: compare the simulated domain size with the rounded
 number of voxels

The preceding check accepts a size whose number of voxels is integral in single
precision, but the assertion compared it in double precision, so that e.g. a
radius of 0.3 at resolution 10 was accepted and then aborted.
---
 .../meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 76ba4da..bc049ba 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -512,8 +512,8 @@ namespace GreensFunctionCalculator::MEEP {
     };
 
     // Communicate back which region we are actually storing now
-    assert(calc_domain_shape.z() == m_geom.GetZSize() * resolution);
-    assert(calc_domain_shape.r() == m_geom.GetRSize() * resolution);
+    assert(calc_domain_shape.z() == (std::size_t)std::round(m_geom.GetZSize() * resolution));
+    assert(calc_domain_shape.r() == (std::size_t)std::round(m_geom.GetRSize() * resolution));
     
     ZRIndexVector storage_domain_end_ind = storage_domain_start_ind + storage_domain_shape;
 
-- 
2.43.0


From f7e260ccc84e402883cae7ca9a4c60ce7996995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 22/30] fix: leave a CylinderRegion unchanged when SetRegion
 refuses the new bounds

SetRegion stored the new bounds before checking them, so that a refused change
left behind a region with unphysical bounds.
---
 eisvogel/core/impl/Geometry.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/Geometry.hxx b/eisvogel/core/impl/Geometry.hxx
index 34c1cbe..fb19ca9 100644
--- a/eisvogel/core/impl/Geometry.hxx
+++ b/eisvogel/core/impl/Geometry.hxx
@@ -8,11 +8,7 @@ CylinderRegion::CylinderRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, s
 }
 
 void CylinderRegion::SetRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, scalar_t z_max) {
-  m_r_min = r_min;
-  m_r_max = r_max;
-  m_z_min = z_min;
-  m_z_max = z_max;
-  throw_if_unphysical();
+  *this = CylinderRegion(r_min, r_max, z_min, z_max);  // throws if the new region is unphysical
 }
 
 void CylinderRegion::throw_if_unphysical() {
-- 
2.43.0


From ba6aeccbee06c7e37768fa6adb40b3239e63d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 23/30] fix: use the randomly chosen shower profile when none
 is requested

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3f7c739..885956e 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -64,18 +64,18 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	if (i_shower < 0) {
 		std::random_device rand_dev;
 		std::default_random_engine generator(rand_dev());
-		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size());
+		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size() - 1);
 		shower_index = dist(generator);
 	} else {
 		shower_index = i_shower;
 	}
-        std::cout << "Pick shower " << i_shower << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
+        std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][i_shower],
+			ce_profiles[had][closest_energy][shower_index],
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0


From ab11aaaa524d3a898a324d6fbd23ea5379c56733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 24/30] fix: refuse shower profiles that are not available

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 885956e..3494517 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -52,6 +52,9 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 		int had,
 		int i_shower
 		) {
+	if (stored_energies[had].empty()) {
+		throw std::runtime_error("Error: no shower profile of the requested type is available!");
+	}
 	double closest_energy = stored_energies[had][0];
 	double energy_diff = std::abs(en - stored_energies[had][0]);
 	for (int i=1; i < stored_energies[had].size(); i++) {
@@ -69,6 +72,9 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	} else {
 		shower_index = i_shower;
 	}
+	if (shower_index >= ce_profiles[had][closest_energy].size()) {
+		throw std::runtime_error("Error: the requested shower profile does not exist!");
+	}
         std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
-- 
2.43.0


From 9351acf654d32142e71ddae5ced72d8f5c9dc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 25/30] fix: detect the end of a shower file, and refuse
 missing or incomplete ones

---
 .../shower_creator/shower_creator.cpp         | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3494517..b7ae665 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -19,6 +19,9 @@ showers::ShowerCreator::ShowerCreator(
 	int reading_complete = 0;
 	int N;
 	FILE * pFile = fopen(shower_file.c_str(), "rb");
+	if (pFile == NULL) {
+		throw std::runtime_error("Error: could not open shower file!");
+	}
 	ce_profiles[0] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	ce_profiles[1] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	
@@ -32,6 +35,9 @@ showers::ShowerCreator::ShowerCreator(
 				&profile.grammage,
 				&profile.charge_excess
 				);
+		if (reading_complete != 0) {
+			break;
+		}
 		int find_shower = ce_profiles[profile.hadronic].count(profile.energy);
 		if (find_shower == 0) {
 			ce_profiles[profile.hadronic][profile.energy] = std::vector<showers::ChargeExcessProfile>();
@@ -40,6 +46,9 @@ showers::ShowerCreator::ShowerCreator(
 		ce_profiles[profile.hadronic][profile.energy].push_back(profile);
 	}
 	fclose(pFile);
+	if (reading_complete == 2) {
+		throw std::runtime_error("Error: shower file is incomplete!");
+	}
 };
 
 
@@ -89,17 +98,19 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 
 int showers::ShowerCreator::read_shower(FILE *f, int *N, int *hadronic, double *E, std::vector<double> *grammage, std::vector<double> *q)
 {
-	if (fread(N, sizeof(uint32_t),1,f) == 0) return 1;
-	fread(hadronic, sizeof(uint32_t), 1, f);
-	fread(E, sizeof(double),1,f);
+	std::size_t bytes_read = fread(N, 1, sizeof(uint32_t), f);
+	if (bytes_read == 0) return 1;
+	if (bytes_read != sizeof(uint32_t)) return 2;
+	if (fread(hadronic, sizeof(uint32_t), 1, f) != 1) return 2;
+	if (fread(E, sizeof(double),1,f) != 1) return 2;
 	grammage -> resize(*N);
 	q -> resize(*N);
-	fread(&((*grammage)[0]), sizeof(double),*N,f);
+	if (fread(&((*grammage)[0]), sizeof(double),*N,f) != *N) return 2;
 	for (int i=0; i < (*grammage).size(); i++) {
 		(*grammage)[i] = (*grammage)[i] * units::kilogram / units::square_meter;
 		
 	}
-	fread(&((*q)[0]), sizeof(double), *N, f);
+	if (fread(&((*q)[0]), sizeof(double), *N, f) != *N) return 2;
         
 	return 0;
 }
-- 
2.43.0


From 4297d8c9850ffd0e7e4e0d551603d3b90ef71894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 26/30] fix: scale the first point of a shower profile to the
 requested energy

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index 6fdc400..d4a1ca3 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -61,7 +61,7 @@ void showers::Shower1D::get_shower(
 	(*x)[0] = start_position[0];
 	(*y)[0] = start_position[1];
 	(*z)[0] = start_position[2];
-	(*ce)[0] = charge_excess_profile.charge_excess[0];
+	(*ce)[0] = charge_excess_profile.charge_excess[0] * charge_excess_profile_scaling;
 	integrated_grammage = 0;
 	int grammage_i = 0;
 	double delta_ce;
-- 
2.43.0


From 7690a31ade5da53cb37e143a51082b2f58754dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 27/30] fix: report the radial extent of a shower

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index d4a1ca3..c1855cd 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -123,8 +123,8 @@ void showers::Shower1D::print_dimensions() {
   	std::vector<double> z;
   	std::vector<double> ce;
 	get_shower(1., &t, &x, &y, &z, &ce);
-	double r_max = sqrt(x[0] * x[0] + y[0] * y[0] + z[0] * z[0]);
-	double r_min = sqrt(x[0] * x[0] + y[0] * y[0] + z[0] * z[0]);
+	double r_max = sqrt(x[0] * x[0] + y[0] * y[0]);
+	double r_min = sqrt(x[0] * x[0] + y[0] * y[0]);
 	double z_max = z[0];
 	double z_min = z[0];
 	double r;
-- 
2.43.0


From 7b4c3c3da3addea9f2389b16f11e8ad71ced52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 28/30] fix: only write the chunk index when it was modified

Closing an array or a Green's function rewrote the (truncated) index file even if
it was only read, so that other readers could see an empty or partial index, which
they wrote back in turn, and a stale reader undid what a writer had flushed.
---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +++
 eisvogel/core/impl/DistributedNDVecArray.hxx | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 47365ec..d25121b 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -164,6 +164,9 @@ private:
   id_t m_next_chunk_id;
   std::filesystem::path m_index_path;
 
+  // Keeps track of whether the on-disk index needs to be (re)written
+  bool m_index_modified;
+
   // Overall metadata describing chunk index
   bool m_index_metadata_valid;
   shape_t m_shape;
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 446a2e9..cd028aa 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -514,12 +514,13 @@ namespace stor{
 
 template <std::size_t dims>
 ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_size) :
-  m_next_chunk_id(0), m_index_path(index_path), m_index_metadata_valid(false), m_shape(0), m_start_ind(0), m_end_ind(0),
+  m_next_chunk_id(0), m_index_path(index_path), m_index_modified(true), m_index_metadata_valid(false), m_shape(0), m_start_ind(0), m_end_ind(0),
   m_chunk_tree(init_size), m_last_accessed_ind(0) {
 
   // Already have an index file on disk, load it
   if(std::filesystem::exists(m_index_path)) {
     load_and_rebuild_index();
+    m_index_modified = false;
   }
 }
 
@@ -549,6 +550,7 @@ ChunkIndex<dims>::metadata_t& ChunkIndex<dims>::RegisterChunk(const Vector<std::
     
   // adding a new chunk invalidates the previous shape
   invalidate_cached_index_metadata();
+  m_index_modified = true;
   
   // build metadata object for this chunk
   id_t chunk_id = get_next_chunk_id();
@@ -581,6 +583,7 @@ void ChunkIndex<dims>::UpdateChunkInIndex(const Vector<std::size_t, dims>& previ
 
   // Simply mirror the new bounding box in the chunk tree
   m_chunk_tree.UpdateBoundingBox(previous_ind, updated_meta.start_ind, updated_meta.end_ind);
+  m_index_modified = true;
 }
 
 template <std::size_t dims>
@@ -591,6 +594,11 @@ void ChunkIndex<dims>::UpdateChunkInIndex(const metadata_t& previous_meta, const
 template <std::size_t dims>
 void ChunkIndex<dims>::FlushIndex() {
 
+  // Leave the on-disk index alone if it is up-to-date: it may be in use by other readers at the same time
+  if(!m_index_modified) {
+    return;
+  }
+
   // Fetch all tree entries for easy serialization
   std::vector<metadata_t> chunk_list;
   m_chunk_tree.GetAllEntries(chunk_list);
@@ -599,6 +607,8 @@ void ChunkIndex<dims>::FlushIndex() {
   ofs.open(m_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
+
+  m_index_modified = false;
 }
 
 template <std::size_t dims>
@@ -613,6 +623,7 @@ void ChunkIndex<dims>::MoveIndex(std::filesystem::path new_index_path) {
   
   // reset the path and flush the index to the new location
   m_index_path = new_index_path;  
+  m_index_modified = true;
   FlushIndex();
 }
 
@@ -625,6 +636,7 @@ void ChunkIndex<dims>::ClearIndex() {
 
   // reset and clear everything
   invalidate_cached_index_metadata();
+  m_index_modified = true;
   m_last_accessed_ind = 0;
   m_shape = 0;
   m_chunk_tree.Clear();
@@ -634,6 +646,7 @@ template <std::size_t dims>
 void ChunkIndex<dims>::ImportIndex(std::filesystem::path index_path, bool move) {
 
   invalidate_cached_index_metadata();
+  m_index_modified = true;
 
   // Load the new index entries
   std::vector<metadata_t> index_entries = load_index_entries(index_path);
@@ -711,6 +724,7 @@ void ChunkIndex<dims>::Map(CallableT&& worker) {
   std::swap(updated_tree, m_chunk_tree);
   
   invalidate_cached_index_metadata();
+  m_index_modified = true;
 }
 
 template <std::size_t dims>
-- 
2.43.0


From cff45423422eae78daf9ec95f0e9f58bc7d714d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 29/30] fix: report failures to write chunks, index, metadata
 and exported signals

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 20 ++++++++++++++++++--
 eisvogel/core/impl/GreensFunction.hxx        |  1 +
 eisvogel/core/impl/SignalExport.hxx          |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index cd028aa..1b0e3e6 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -38,7 +38,13 @@ ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir,
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 ChunkCache<ArrayT, T, dims, vec_dims>::~ChunkCache() {
-  FlushCache();
+  try {
+    FlushCache();
+  }
+  catch(const std::exception& e) {
+    // must not throw from the destructor; whoever wants to react to this needs to flush explicitly
+    std::cerr << "Error: could not write cached chunks to " << m_workdir << ": " << e.what() << std::endl;
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -325,6 +331,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
   assert(std::filesystem::exists(chunk_path));
   
   std::fstream iofs;
+  iofs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that failures are not ignored
   iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
   iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
 
@@ -401,6 +408,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
     
     // Serialize this chunk
     std::fstream ofs;
+    ofs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that failures are not ignored
     ofs.open(chunk_path, std::ios::out | std::ios::binary);
     ofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     m_streamer.serialize(ofs, cache_entry.chunk_data, m_streamer_chunk_size, stor::StreamerMode::null_suppressed);
@@ -414,6 +422,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
     
     // Need to append this to the on-disk chunk
     std::fstream iofs;
+    iofs.exceptions(std::ios::failbit | std::ios::badbit);
     iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
     iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
@@ -526,7 +535,13 @@ ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_
 
 template <std::size_t dims>
 ChunkIndex<dims>::~ChunkIndex() {
-  FlushIndex();
+  try {
+    FlushIndex();
+  }
+  catch(const std::exception& e) {
+    // must not throw from the destructor; whoever wants to react to this needs to flush explicitly
+    std::cerr << "Error: could not write index to " << m_index_path << ": " << e.what() << std::endl;
+  }
 }
 
 namespace {
@@ -604,6 +619,7 @@ void ChunkIndex<dims>::FlushIndex() {
   m_chunk_tree.GetAllEntries(chunk_list);
 
   std::fstream ofs;
+  ofs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that failures are not ignored
   ofs.open(m_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 7cd5d5c..f7a5cf9 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -526,6 +526,7 @@ const CylindricalGreensFunction::metadata_t* CylindricalGreensFunction::get_chun
 
 void CylindricalGreensFunction::save_metadata() {
   std::fstream ofs;
+  ofs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that failures are not ignored
   ofs.open(m_meta_path, std::ios::out | std::ios::binary);
   stor::Traits<CylindricalGreensFunctionMetadata>::serialize(ofs, m_meta);
   ofs.close();
diff --git a/eisvogel/core/impl/SignalExport.hxx b/eisvogel/core/impl/SignalExport.hxx
index d80ebf6..8bfeaa8 100644
--- a/eisvogel/core/impl/SignalExport.hxx
+++ b/eisvogel/core/impl/SignalExport.hxx
@@ -6,6 +6,7 @@ void ExportSignal(std::vector<scalar_t> signal_times, std::vector<scalar_t> sign
 		  std::string outpath, int time_prec, int value_prec) {
   
   std::ofstream outfile;
+  outfile.exceptions(std::ios::failbit | std::ios::badbit); // make sure that failures are not ignored
   outfile.open(outpath);
   for(int ind = 0; ind < signal_times.size(); ind++) {
     outfile << std::fixed << std::showpoint << std::setprecision(time_prec);
-- 
2.43.0


From 044e71de6cb0464b83652f49f59c64201af8e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:51 +0000
Subject: [PATCH 30/30] fix: refuse missing and truncated files when reading a
 stored array or Green's function

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 21 +++++++++++++-------
 eisvogel/core/impl/GreensFunction.hxx        |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 1b0e3e6..3ad028e 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -270,13 +270,19 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   
     // Directly deserialize into the cache element
     std::filesystem::path chunk_path = get_abs_path(chunk_meta.filepath);
-    assert(std::filesystem::exists(chunk_path));
-    
-    std::fstream ifs;
-    ifs.open(chunk_path, std::ios::in | std::ios::binary);
-    ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.deserialize(ifs, insert_location.chunk_data);
-    ifs.close();
+
+    try {
+      std::fstream ifs;
+      ifs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that a missing or truncated file is not ignored
+      ifs.open(chunk_path, std::ios::in | std::ios::binary);
+      ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
+      m_streamer.deserialize(ifs, insert_location.chunk_data);
+      ifs.close();
+    }
+    catch(...) {
+      m_cache.evict(index); // do not keep an incomplete chunk
+      throw;
+    }
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
@@ -749,6 +755,7 @@ std::vector<ChunkMetadata<dims>> ChunkIndex<dims>::load_index_entries(std::files
   std::cout << "loading index entries from " << index_path << std::endl;
   
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that a missing or truncated file is not ignored
   ifs.open(index_path, std::ios::in | std::ios::binary);
   std::vector<metadata_t> index_entries = stor::Traits<std::vector<metadata_t>>::deserialize(ifs);
   ifs.close();
diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index f7a5cf9..4fa554f 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -534,6 +534,7 @@ void CylindricalGreensFunction::save_metadata() {
 
 void CylindricalGreensFunction::load_metadata() {  
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit); // make sure that a missing or truncated file is not ignored
   ifs.open(m_meta_path, std::ios::in | std::ios::binary);
   m_meta = stor::Traits<CylindricalGreensFunctionMetadata>::deserialize(ifs);
   ifs.close();
-- 
2.43.0

