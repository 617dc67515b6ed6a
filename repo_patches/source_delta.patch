From 8ad5dc37f7fe1ae1b584e50e0b64c3791a07d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 01/43] fix: let point queries, updates and rebuilds of an
 empty R*-tree succeed

---
 eisvogel/core/impl/RStarTree.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..221892b 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -562,6 +562,11 @@ template <typename CoordT, std::size_t dims, class PayloadT>
 void RStarTree<CoordT, dims, PayloadT>::UpdateBoundingBox(const Vector<CoordT, dims>& elem_coords,
 							  const Vector<CoordT, dims>& updated_start_coords, const Vector<CoordT, dims>& updated_end_coords) {
 
+  // An empty tree has no entries that could be updated
+  if(Empty()) {
+    return;
+  }
+
   // Traverse the tree starting from the root node, updating the root node if required
   if(search_entry_update_bbox(m_root_slot, elem_coords, updated_start_coords, updated_end_coords)) {
     recalculate_bbox(m_root_slot);
@@ -1069,6 +1074,11 @@ std::size_t RStarTree<CoordT, dims, PayloadT>::split(std::size_t node_slot) {
 template <typename CoordT, std::size_t dims, class PayloadT>
 PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>& coords) {
 
+  // An empty tree has no entries that could be found
+  if(Empty()) {
+    return nullptr;
+  }
+
   // First check if we're asked to search for the same entry again ...
   if(m_last_accessed_entry_slot != EntryPool::INVALID_SLOT) {
 
@@ -1319,6 +1329,11 @@ bool RStarTree<CoordT, dims, PayloadT>::Empty() {
 template <typename CoordT, std::size_t dims, class PayloadT>
 void RStarTree<CoordT, dims, PayloadT>::RebuildSTR() {
 
+  // There is nothing to rebuild for an empty tree
+  if(Empty()) {
+    return;
+  }
+
   // Remove all tree nodes
   m_root_slot = NodePool::INVALID_SLOT;
   m_nodes.reset();
-- 
2.43.0


From 9e9c576ad5aac0368f7590b367d496da8ed306e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 02/43] fix: copy the elements of a view, not those at the same
 position in its parent array

---
 eisvogel/core/impl/NDVecArray.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..2c69b95 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -83,9 +83,9 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
     
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+    // `other` may be a view, i.e. have different strides and a different offset
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
-- 
2.43.0


From 8b1628acfa2cc59ff1fa807168cd072e3ff26338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/43] fix: respect the offset of one-dimensional views in
 operator[](std::size_t)

---
 eisvogel/core/impl/NDVecArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..40aecef 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + m_offset + vec_dims * ind);
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
-- 
2.43.0


From 1f32801e964a4ac06fd52b27825f63c1564821d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 04/43] fix: append only the elements of a view, not all data
 of its parent array

---
 eisvogel/core/impl/NDVecArray.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index 2c69b95..6c365c5 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -217,16 +217,18 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  ind_t app_ind(0u);
+  app_ind[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
   new_shape[axis] += other.m_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data (`other` may be a view, i.e. make up only a part of the memory it refers to)
+  if(other.GetNumberElements() > 0) {
+    fill_from(other, ind_t(0u), other.m_shape, app_ind);
+  }
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 229bf21fa9075a25935438f0f1e964d0bc267b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 05/43] fix: refuse to append slices that the serialization
 chunks do not admit

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..303bd6f 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -251,6 +251,25 @@ namespace stor {
     return false;
   }
   
+  // tests if a new slice can be appended along `axis` to an array with `array_shape`, i.e. if the serialization chunks of the existing array,
+  // followed by those of the new slice, are the serialization chunks of the enlarged array
+  template <std::size_t dims>
+  bool permits_appending_along_axis(const Vector<std::size_t, dims>& array_shape, const Vector<std::size_t, dims>& ser_chunk_shape, std::size_t axis) {
+
+    // there must not be any partial serialization chunks along the concatenation axis
+    if((ser_chunk_shape[axis] > array_shape[axis]) || (array_shape[axis] % ser_chunk_shape[axis] != 0)) {
+      return false;
+    }
+
+    // the concatenation axis must not lie after the outermost changing axis
+    for(std::size_t ind = 0; ind < axis; ind++) {
+      if(ser_chunk_shape[ind] < array_shape[ind]) {
+	return false;
+      }
+    }
+    return true;
+  }
+  
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
@@ -270,28 +289,11 @@ namespace stor {
       throw std::runtime_error("Error: dimensions not compatible for concatenation!");
     }
 
-    // --------
-    // TODO: Finish implementing checks
-    // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
-
-    // Better conditions:
-    // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
-    // 2) concat dimension must not be after the outermost changing dimension
-    // --------
-    
-    // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
-    // if(!chunk_is_slice(meta.array_shape, meta.ser_chunk_shape)) {
-    //   throw std::runtime_error("Error: serialization chunk is not a slice, cannot append!");
-    // }
+    // need to make sure that the existing serialization chunks followed by those of the new slice make up the concatenated array
+    if(!permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
+      throw std::runtime_error("Error: serialization chunks do not permit appending along this axis!");
+    }
     
-    // // need to make sure that the serialization axis is the same as the axis for appending the new slice
-    // if(!ser_axis_matches_insertion_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
-    //   throw std::runtime_error("Error: serialization axis does not match requested insertion axis!");
-    // }
-
-    // --------
-        
     // update metadata
     // check if the passed `slice` fits exactly into one or more serialization chunks; no further modifications are allowed if it doesn't
     meta.access_mode = permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) ? AccessMode::modification_allowed : AccessMode::modification_not_allowed;
-- 
2.43.0


From a636ed9b48b83a81b1c1e2e30bd8b07d4bc25d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 06/43] fix: report accesses outside all chunks of a
 distributed array as errors

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..b36f818 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1,5 +1,6 @@
 #include <uuid/uuid.h>
 #include <algorithm>
+#include <stdexcept>
 #include <utility>
 #include "DistributedNDVecArray.hh"
 #include "IteratorUtils.hh"
@@ -871,6 +872,9 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
   
   // Get the metadata describing that chunk
   metadata_t* meta = m_index.GetChunk(ind_existing_chunk);
+  if(meta == nullptr) {
+    throw std::out_of_range("Error: no chunk found to which the slice could be appended!");
+  }
 
   if(meta -> chunk_type != ChunkType::specified) {
 
@@ -916,6 +920,9 @@ ChunkLibrary<ArrayT, T, dims, vec_dims>::view_t ChunkLibrary<ArrayT, T, dims, ve
 
   // Find chunk that holds the element with the required index
   const metadata_t* meta = m_index.GetChunk(ind);
+  if(meta == nullptr) {
+    throw std::out_of_range("Error: no chunk contains the requested element!");
+  }
   
   // Retrieve the chunk
   const chunk_t& chunk = m_cache.RetrieveChunk(*meta);
-- 
2.43.0


From 960a9ea571cd45d8c216a2d939ad8ef16da045b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 07/43] fix: append slices correctly if the concatenation axis
 changes or is not the outermost one

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 23 ++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index b36f818..e95699b 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -153,7 +153,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     // ... and insert it with `append` status, as done above
     insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
   }
-  else if(std::holds_alternative<CacheStatus::Serialize>(status)) {
+  else if(std::holds_alternative<CacheStatus::Serialize>(status) && axis == 0) { // concatenation in memory is available only along this axis
 
     // std::cout << "AAA: concatenated in memory to serialize" << std::endl;
     
@@ -162,22 +162,23 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     cached_chunk.chunk_meta = chunk_meta;
     cached_chunk.chunk_data.template Append<axis>(slice);      
   }
-  else if(std::holds_alternative<CacheStatus::Append>(status)) {
+  else if(std::holds_alternative<CacheStatus::Append>(status) && std::get<CacheStatus::Append>(status).axis == axis && axis == 0) {
 
     // std::cout << "AAA: concatenated in memory to append" << std::endl;
     
-    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk
-    if(std::get<CacheStatus::Append>(status).axis != axis) {
-      
-      // Concatenation axis changed, need to synchronize
-      sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
-    }
-
-    // Now have the fully up-to date chunk in the cache, can append
+    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk along the same axis, can append
     cached_chunk.chunk_meta = chunk_meta;
     cached_chunk.chunk_data.template Append<axis>(slice);
   }
+  else {
+
+    // The cached data cannot be concatenated with the new slice: perform the outstanding operation and remove it from the cache ...
+    cache_entry_t& evicted_chunk = m_cache.evict(index);
+    descope_cache_element(evicted_chunk);
+
+    // ... so that only the new slice is inserted with `append` status, as done above
+    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
+  }
 
   // Immediately synchronize to disk if we're asked to operate without cache
   if(m_cache_size == 0) {      
-- 
2.43.0


From 13bc60514d6156f1d77e5f525841062c44c0adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 08/43] fix: keep chunk identifiers unique after an index has
 been loaded

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index e95699b..5ab9006 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -720,6 +720,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
   std::vector<metadata_t> chunk_list = load_index_entries(m_index_path);
 
   for(metadata_t& cur_meta : chunk_list) {
+
+    // Re-enumerate the loaded entries so that their identifiers cannot collide with those of chunks that are registered or imported later
+    cur_meta.chunk_id = get_next_chunk_id();
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
   }  
 }
-- 
2.43.0


From 8f8597b4d4879c1582466f0eddcb06907736feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 09/43] fix: make distributed arrays that are opened with
 default parameters writable

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 5ab9006..3fb57cd 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -8,6 +8,19 @@
 
 // --------------
 
+namespace {
+
+  // Serialization chunk that is used unless specified otherwise (at least one of its directions must be finite)
+  template <std::size_t dims>
+  Vector<std::size_t, dims> get_default_streamer_chunk_size() {
+    Vector<std::size_t, dims> streamer_chunk_size(stor::INFTY);
+    streamer_chunk_size[0] = 1;
+    return streamer_chunk_size;
+  }
+};
+
+// --------------
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 CacheEntry<ArrayT, T, dims, vec_dims>& CacheEntry<ArrayT, T, dims, vec_dims>::operator=(std::tuple<const metadata_t&, const chunk_t&, const status_t&> other) {
@@ -26,7 +39,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir, std::size_t cache_size, std::size_t init_cache_el_linear_size,
 						  std::size_t initial_buffer_size) :
   ChunkCache(workdir, cache_size, Vector<std::size_t, dims>(init_cache_el_linear_size),
-	     Vector<std::size_t, dims>(stor::INFTY), initial_buffer_size) { }
+	     get_default_streamer_chunk_size<dims>(), initial_buffer_size) { }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
@@ -817,7 +830,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 ChunkLibrary<ArrayT, T, dims, vec_dims>::ChunkLibrary(std::filesystem::path libdir, std::size_t cache_size,
 						      std::size_t init_cache_el_linear_size) :
   ChunkLibrary(libdir, cache_size, Vector<std::size_t, dims>(init_cache_el_linear_size),
-	       Vector<std::size_t, dims>(stor::INFTY)) { }
+	       get_default_streamer_chunk_size<dims>()) { }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 67c675d440396f3102078dbb8233d4066dbff614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 10/43] fix: make the overloads that rebuild chunks without
 overlap compile

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 3fb57cd..adfcbf7 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1202,7 +1202,7 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    const ind_t& requested_chunk_shape, std::filesystem::path outdir, const ChunkHints& hints) {
 
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
@@ -1389,7 +1389,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape,
 								     std::filesystem::path tmpdir, const ChunkHints& hints) {
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
-- 
2.43.0


From 0885bb1a92c70c79a410b65ca25f5c4bfe4025fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 11/43] fix: iterate over and rebuild arrays that do not start
 at the origin

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index adfcbf7..98f2699 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1072,8 +1072,8 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 template <class CallableT>
 constexpr void ChunkLibrary<ArrayT, T, dims, vec_dims>::index_loop_over_elements(CallableT&& worker) {
-  Vector<std::size_t, dims> start_ind(0);
-  index_loop_over_elements(start_ind, m_index.GetShape(), worker);
+  Vector<std::size_t, dims> start_ind = m_index.get_start_ind();
+  index_loop_over_elements(start_ind, start_ind + m_index.GetShape(), worker);
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -1368,10 +1368,10 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 template <class BoundaryCallableT>
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape, std::filesystem::path tmpdir, std::size_t overlap,
 								     BoundaryCallableT&& boundary_evaluator, const ChunkHints& hints) {
-  ind_t global_start_ind(0);
-  shape_t global_shape = m_library.GetShape();
+  ind_t global_start_ind = m_library.GetStartInd();
+  ind_t global_end_ind = m_library.GetEndInd();
   
-  RebuildChunksPartial(global_start_ind, global_shape, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
-- 
2.43.0


From 893cdfef2f861c673260a7298025d5c21660b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 12/43] fix: refuse to rebuild arrays with gaps instead of
 deleting their contents

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 98f2699..b1b2102 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1370,6 +1370,11 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t
 								     BoundaryCallableT&& boundary_evaluator, const ChunkHints& hints) {
   ind_t global_start_ind = m_library.GetStartInd();
   ind_t global_end_ind = m_library.GetEndInd();
+
+  // The original contents are replaced below, make sure that all of them are part of the rebuilt array
+  if(m_library.GetShape() != global_end_ind - global_start_ind) {
+    throw std::runtime_error("Error: only contiguous arrays can be rebuilt!");
+  }
   
   RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
 
-- 
2.43.0


From ff54f17864bc7bb88043352d9a15fa1b4962dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 13/43] fix: reserve space for the terminator of the textual
 chunk UUID

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index b1b2102..74feade 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -531,7 +531,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[37];
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From 70bc973561f837121a8b634e91cfcd97fc011328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 14/43] fix: give all-zero chunks with overlap their full
 extent when they are loaded

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 74feade..bfed4b3 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -304,7 +304,7 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
     // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From 5bdf30111c0b62c0181917c053594cc04f15079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 15/43] fix: skip the output samples covered by all-zero chunks
 of a Green's function

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..803eb6e 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -431,6 +431,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+      // No contribution from this chunk, skip the samples it covers
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From 79198a99749edf3f6eef5eb4c0aced34dea622cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 16/43] fix: report queries outside of the domain of a Green's
 function as errors

---
 eisvogel/core/impl/GreensFunction.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 803eb6e..db3f139 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <stdexcept>
 #include "GreensFunction.hh"
 #include "Serialization.hh"
 #include "Interpolation.hh"
@@ -383,6 +384,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
       return;
     }
 
+    // ... or complain
+    if(meta == nullptr) {
+      throw std::out_of_range("Error: track outside of Green's function domain!");
+    }
+
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-- 
2.43.0


From 13d421a6d44d0203ed9caae8dc0ec94d1e98e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 17/43] fix: do not drop the samples inside of the domain that
 follow samples before its beginning

---
 eisvogel/core/impl/GreensFunction.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index db3f139..d2172c2 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -381,6 +381,15 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // (Silently) ignore (part of) this track if this is what we're asked to do
     if((oob_mode == Green::OutOfBoundsBehavior::Ignore) && (meta == nullptr)) {
       // std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
+
+      // Samples before the beginning of the domain may be followed by samples inside
+      if(cur_f_ind.t() < 0) {
+	std::advance(result, 1);
+	cur_sample_ind++;
+	continue;
+      }
+
+      // All remaining samples are outside as well
       return;
     }
 
-- 
2.43.0


From 8403db65e9fd6accba62c806e44bcedf9f4d2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 18/43] fix: do not abort Green's function queries whose
 samples meet chunk boundaries up to rounding

---
 eisvogel/core/impl/GreensFunction.hxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index d2172c2..f49ce8e 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -401,17 +401,21 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
     assert(meta -> overlap >= KernelT::support);
     
-    // Check how many of the next samples are determined by the currently-loaded chunk
-    std::size_t chunk_num_samples = (std::size_t)((RZTIndexVector::t(meta -> end_ind) - cur_f_ind.t()) / t_samp_f_ind) + 1;
+    // Check how many of the next samples are determined by the currently-loaded chunk, i.e. are located before its (exclusive) end. The
+    // current sample always is; the number of further samples is corrected in case it is overestimated because of rounding.
+    scalar_t chunk_end_f_ind = RZTIndexVector::t(meta -> end_ind);
+    std::size_t chunk_num_samples = std::max<std::size_t>(std::ceil((chunk_end_f_ind - cur_f_ind.t()) / t_samp_f_ind), 1);
+    while((chunk_num_samples > 1) && (cur_f_ind.t() + (chunk_num_samples - 1) * t_samp_f_ind >= chunk_end_f_ind)) {
+      chunk_num_samples--;
+    }
 
     // std::cout << "chunk_num_samples = " << chunk_num_samples << std::endl;
     
     // Make sure to not request more samples than needed
     std::size_t samples_to_request = std::min(chunk_num_samples, num_samples - cur_sample_ind);
 
-    // Ensure that we're not going too far (interpolation end point `cur_t_end_f_ind` is exclusive,
-    // i.e. can reach up to and including the `end_ind` of the chunk)
-    assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind <= RZTIndexVector::t(meta -> end_ind));
+    // Ensure that we're not going too far
+    assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind <= chunk_end_f_ind);
     
     // std::cout << "HHHHHHHHH" << std::endl;
     // std::cout << meta << std::endl;
-- 
2.43.0


From 42c4553c818867b146182266e168caadca6a1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 19/43] fix: do not abort if a signal sample coincides with an
 integration point up to rounding

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index f49ce8e..bf83fcd 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -307,8 +307,8 @@ void CylindricalGreensFunction::apply_accumulate(const LineCurrentSegment& seg,
 	// Time of the first output sample that we are computing in this block
 	scalar_t block_t_sig_start = block_sample_ind_start * t_sig_samp + t_sig_start;
 	
-	// start time in integration block
-	scalar_t convolution_t_start = block_t_sig_start - t_p;
+	// start time in integration block (cannot be negative, except because of rounding)
+	scalar_t convolution_t_start = std::max<scalar_t>(block_t_sig_start - t_p, 0.0);
 
 	// std::cout << " . . . . . . . . " << std::endl;
 	// std::cout << "start to call accumulate_inner_product" << std::endl;
-- 
2.43.0


From a6ec397d0391e1bde900f857e26b93ebe0accdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 20/43] fix: fill all samples of a box when a Green's function
 is sampled onto a grid

---
 eisvogel/core/impl/GreensFunction.hxx | 40 +++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index bf83fcd..4a46639 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -118,12 +118,33 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
   // Convert `start_pos`, `end_pos` and `sample_interval` into floating-point array indices
   RZTVector start_f_ind = coords_to_index(start_pos);
   RZTVector end_f_ind = coords_to_index(end_pos);  
-  RZTVector stepsize_f_ind = (end_f_ind - start_f_ind) / (num_samples.template as_type<scalar_t>() - 1);
-    
+
+  // A single sample along any direction is taken at `start_pos`
+  RZTVector<scalar_t> stepsize_f_ind(0);
+  for(std::size_t i = 0; i < Green::DimTraits<CylindricalGreensFunction>::dims; i++) {
+    if(num_samples[i] > 1) {
+      stepsize_f_ind[i] = (end_f_ind[i] - start_f_ind[i]) / (num_samples[i] - 1);
+    }
+  }
+
+  // Index of the first output sample that is not located before the (floating-point) array index `f_ind`
+  auto first_output_ind = [&](const RZTVector<scalar_t>& f_ind) -> RZTIndexVector {
+    RZTIndexVector output_ind(0);
+    for(std::size_t i = 0; i < Green::DimTraits<CylindricalGreensFunction>::dims; i++) {
+      if(stepsize_f_ind[i] > 0) {
+	output_ind[i] = std::ceil(std::clamp<scalar_t>((f_ind[i] - start_f_ind[i]) / stepsize_f_ind[i], 0, num_samples[i]));
+      }
+      else if(start_f_ind[i] < f_ind[i]) {
+	output_ind[i] = num_samples[i]; // All samples are located at `start_pos`
+      }
+    }
+    return output_ind;
+  };
+
   // Get all chunks that contribute to the range spanned by `start_f_ind` and `end_f_ind`
   RZTIndexVector start_ind = start_f_ind.template as_type<std::size_t>();
   RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>();
-  std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind);  
+  std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind + 2); // `end_pos` is part of the range and known up to rounding
 
   // std::cout << "start_ind = " << start_ind << std::endl;
   // std::cout << "end_ind = " << end_ind << std::endl;
@@ -145,17 +166,11 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
     RZTVector<scalar_t> chunk_end_f_ind = chunk_meta.end_ind.template as_type<scalar_t>();
 
     // Find the output start and output end indices determined by this chunk
-    RZTVector<scalar_t> output_start_f_ind = (chunk_start_f_ind - start_f_ind) / stepsize_f_ind;
-    RZTVector<scalar_t> output_end_f_ind = (chunk_end_f_ind - start_f_ind) / stepsize_f_ind;
-    
-    RZTIndexVector output_start_ind = VectorUtils::ceil_nonneg(VectorUtils::max(output_start_f_ind, 0.0f));
-    RZTIndexVector output_end_ind = VectorUtils::floor_nonneg(VectorUtils::min(output_end_f_ind + 1, num_samples.template as_type<scalar_t>()));
+    RZTIndexVector output_start_ind = first_output_ind(chunk_start_f_ind);
+    RZTIndexVector output_end_ind = first_output_ind(chunk_end_f_ind);
 
     // std::cout << chunk_meta << std::endl;
 
-    // std::cout << "provides output_start_f_ind = " << output_start_f_ind << std::endl;
-    // std::cout << "provides output_end_f_ind = " << output_end_f_ind << std::endl;
-    
     // std::cout << "provides output_start_ind = " << output_start_ind << std::endl;
     // std::cout << "provides output_end_ind = " << output_end_ind << std::endl;
 
@@ -168,6 +183,9 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
 
     // Range of inner indices at that location in this chunk
     std::size_t num_inner_samples = output_end_ind.t() - output_start_ind.t();
+    if(num_inner_samples == 0) {
+      continue;
+    }
     scalar_t output_start_inner_f_ind = output_start_ind.t() * stepsize_f_ind.t() + start_f_ind.t();
 
     // Interplation buffer with enough space
-- 
2.43.0


From 65a1b79822d2b0770a246680149173544b63ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 21/43] fix: do not let stale values enter the overlap of
 chunks at r = 0

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index bfed4b3..675c3f3 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1262,7 +1262,10 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
     ind_t output_start = (fill_start_ind.template as_type<int>() - extended_chunk_start_ind).template as_type<std::size_t>();
     
     // fill rebuilt chunk into local buffer ...    
-    chunk_buffer.resize(extended_chunk_shape);    
+    chunk_buffer.resize(extended_chunk_shape);
+
+    // ... which still holds values from the previous chunk that must never be visible to the boundary evaluator
+    chunk_buffer.clear();
     FillArray(chunk_buffer, fill_start_ind, fill_end_ind, output_start);
 
     auto is_boundary_element = [&](Vector<int, dims>& boundary_ind) {
-- 
2.43.0


From baf280ff56d613452b68bc31af89df4d7ad91cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 22/43] fix: do not report signed indices below the start of a
 chunk as contained in it

---
 eisvogel/core/impl/ChunkUtils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/ChunkUtils.hh b/eisvogel/core/impl/ChunkUtils.hh
index faec53a..ac7a583 100644
--- a/eisvogel/core/impl/ChunkUtils.hh
+++ b/eisvogel/core/impl/ChunkUtils.hh
@@ -7,7 +7,7 @@ namespace ChunkUtils {
   template <typename T, std::size_t dims>
   bool contains(const Vector<T, dims>& chunk_start_ind, const Vector<T, dims>& chunk_shape, const Vector<T, dims>& ind) {
     for(std::size_t i = 0; i < dims; i++) {
-      if((ind[i] - chunk_start_ind[i]) >= chunk_shape[i]) {
+      if((ind[i] < chunk_start_ind[i]) || ((ind[i] - chunk_start_ind[i]) >= chunk_shape[i])) {
 	return false;
       }
     }
-- 
2.43.0


From 5e377e6529f2a26792587babfcd882dc4f39d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 23/43] fix: recognize ranges that are empty along some axes
 only

---
 eisvogel/core/impl/IteratorUtils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/IteratorUtils.hh b/eisvogel/core/impl/IteratorUtils.hh
index 4d950ce..d678fb2 100644
--- a/eisvogel/core/impl/IteratorUtils.hh
+++ b/eisvogel/core/impl/IteratorUtils.hh
@@ -102,7 +102,7 @@ namespace IteratorUtils {
   bool empty_range(const Vector<std::size_t, dims>& begin, const Vector<std::size_t, dims>& end) {
     
     for(std::size_t i = 0; i < dims; i++) {
-      if(begin >= end) {
+      if(begin[i] >= end[i]) {
 	return true;
       }
     }
-- 
2.43.0


From 637a9fb5366e4e4c63ef1b3ad6fc466f65f60267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 24/43] fix: let the (z, r) view of a (t, z, r) vector start at
 z

---
 eisvogel/core/impl/Vector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/Vector.hh b/eisvogel/core/impl/Vector.hh
index 6bed49d..ae14f10 100644
--- a/eisvogel/core/impl/Vector.hh
+++ b/eisvogel/core/impl/Vector.hh
@@ -356,7 +356,7 @@ struct TZRVector : public Vector3D<T> {
   T& z() { return this -> operator[](1); };
   T& r() { return this -> operator[](2); };
 
-  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin()); };
+  ZRVectorView<T> zr_view() { return ZRVectorView<T>( this -> begin() + 1); };
   ZRVector<T> zr() const { return ZRVector<T>{z(), r()}; };
 };
 
-- 
2.43.0


From 9129fc547d85921932dd20f04d2e73959502a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 25/43] fix: leave other contents of the temporary directory
 alone when chunks are rebuilt

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 675c3f3..4e84e44 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1379,17 +1379,24 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t
     throw std::runtime_error("Error: only contiguous arrays can be rebuilt!");
   }
   
-  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  // Work in a private directory in the temporary area, which might also contain other things
+  bool created_tmpdir = std::filesystem::create_directories(tmpdir);
+  std::filesystem::path workdir = tmpdir / get_chunkfile_path();
+
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, workdir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
 
   // ... pull in the contents of the rebuilt one ...
-  m_library.ImportLibrary(tmpdir);
+  m_library.ImportLibrary(workdir);
   m_library.FlushLibrary();
 
-  // ... and delete the temporary directory
-  std::filesystem::remove_all(tmpdir);
+  // ... and delete everything temporary that was created above
+  std::filesystem::remove_all(workdir);
+  if(created_tmpdir && std::filesystem::is_empty(tmpdir)) {
+    std::filesystem::remove(tmpdir);
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From 0eec04e8504e483f3411b365f12ded90b7bb4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 26/43] fix: do not rewrite the chunk index when nothing has
 changed

Every process that only reads an array truncated and rewrote the index file
when it closed the array. Others that opened the array at this moment found an
incomplete index, a reader that was killed at this moment destroyed it, and a
reader that was closed late undid what a writer had added in the meantime.
---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +++
 eisvogel/core/impl/DistributedNDVecArray.hxx | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 3004f0e..368cdf7 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -164,6 +164,9 @@ private:
   id_t m_next_chunk_id;
   std::filesystem::path m_index_path;
 
+  // Keeps track of whether there are changes that still need to be written to disk
+  bool m_modified;
+
   // Overall metadata describing chunk index
   bool m_index_metadata_valid;
   shape_t m_shape;
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 4e84e44..643a472 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -512,12 +512,13 @@ namespace stor{
 
 template <std::size_t dims>
 ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_size) :
-  m_next_chunk_id(0), m_index_path(index_path), m_index_metadata_valid(false), m_shape(0), m_start_ind(0), m_end_ind(0),
+  m_next_chunk_id(0), m_index_path(index_path), m_modified(true), m_index_metadata_valid(false), m_shape(0), m_start_ind(0), m_end_ind(0),
   m_chunk_tree(init_size), m_last_accessed_ind(0) {
 
   // Already have an index file on disk, load it
   if(std::filesystem::exists(m_index_path)) {
     load_and_rebuild_index();
+    m_modified = false;
   }
 }
 
@@ -547,6 +548,7 @@ ChunkIndex<dims>::metadata_t& ChunkIndex<dims>::RegisterChunk(const Vector<std::
     
   // adding a new chunk invalidates the previous shape
   invalidate_cached_index_metadata();
+  m_modified = true;
   
   // build metadata object for this chunk
   id_t chunk_id = get_next_chunk_id();
@@ -577,6 +579,8 @@ std::vector<std::reference_wrapper<const ChunkMetadata<dims>>> ChunkIndex<dims>:
 template <std::size_t dims>
 void ChunkIndex<dims>::UpdateChunkInIndex(const Vector<std::size_t, dims>& previous_ind, const metadata_t& updated_meta) {
 
+  m_modified = true;
+
   // Simply mirror the new bounding box in the chunk tree
   m_chunk_tree.UpdateBoundingBox(previous_ind, updated_meta.start_ind, updated_meta.end_ind);
 }
@@ -589,6 +593,11 @@ void ChunkIndex<dims>::UpdateChunkInIndex(const metadata_t& previous_meta, const
 template <std::size_t dims>
 void ChunkIndex<dims>::FlushIndex() {
 
+  // Do not touch the index file if it is already up-to-date: others may be reading it at the same time
+  if(!m_modified) {
+    return;
+  }
+
   // Fetch all tree entries for easy serialization
   std::vector<metadata_t> chunk_list;
   m_chunk_tree.GetAllEntries(chunk_list);
@@ -597,6 +606,8 @@ void ChunkIndex<dims>::FlushIndex() {
   ofs.open(m_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
+
+  m_modified = false;
 }
 
 template <std::size_t dims>
@@ -611,6 +622,7 @@ void ChunkIndex<dims>::MoveIndex(std::filesystem::path new_index_path) {
   
   // reset the path and flush the index to the new location
   m_index_path = new_index_path;  
+  m_modified = true;
   FlushIndex();
 }
 
@@ -623,6 +635,7 @@ void ChunkIndex<dims>::ClearIndex() {
 
   // reset and clear everything
   invalidate_cached_index_metadata();
+  m_modified = true;
   m_last_accessed_ind = 0;
   m_shape = 0;
   m_chunk_tree.Clear();
@@ -632,6 +645,7 @@ template <std::size_t dims>
 void ChunkIndex<dims>::ImportIndex(std::filesystem::path index_path, bool move) {
 
   invalidate_cached_index_metadata();
+  m_modified = true;
 
   // Load the new index entries
   std::vector<metadata_t> index_entries = load_index_entries(index_path);
@@ -709,6 +723,7 @@ void ChunkIndex<dims>::Map(CallableT&& worker) {
   std::swap(updated_tree, m_chunk_tree);
   
   invalidate_cached_index_metadata();
+  m_modified = true;
 }
 
 template <std::size_t dims>
-- 
2.43.0


From adf09e824845bafe67d3225795c910de0d06ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 27/43] fix: scale the charge at the first point of a shower
 with its energy like at all others

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index 6fdc400..d4a1ca3 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -61,7 +61,7 @@ void showers::Shower1D::get_shower(
 	(*x)[0] = start_position[0];
 	(*y)[0] = start_position[1];
 	(*z)[0] = start_position[2];
-	(*ce)[0] = charge_excess_profile.charge_excess[0];
+	(*ce)[0] = charge_excess_profile.charge_excess[0] * charge_excess_profile_scaling;
 	integrated_grammage = 0;
 	int grammage_i = 0;
 	double delta_ce;
-- 
2.43.0


From 7e318913ba4b32242cc254cb365c94f48ef8e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 28/43] fix: do not count the depth of a shower as radial
 extent of the required weighting field

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index d4a1ca3..c1855cd 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -123,8 +123,8 @@ void showers::Shower1D::print_dimensions() {
   	std::vector<double> z;
   	std::vector<double> ce;
 	get_shower(1., &t, &x, &y, &z, &ce);
-	double r_max = sqrt(x[0] * x[0] + y[0] * y[0] + z[0] * z[0]);
-	double r_min = sqrt(x[0] * x[0] + y[0] * y[0] + z[0] * z[0]);
+	double r_max = sqrt(x[0] * x[0] + y[0] * y[0]);
+	double r_min = sqrt(x[0] * x[0] + y[0] * y[0]);
 	double z_max = z[0];
 	double z_min = z[0];
 	double r;
-- 
2.43.0


From 38fabc5c1f1ab5203185fe57589120b4eed189ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 29/43] fix: do not store an uninitialized shower at the end of
 the shower file

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3f7c739..8b80d67 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -32,6 +32,9 @@ showers::ShowerCreator::ShowerCreator(
 				&profile.grammage,
 				&profile.charge_excess
 				);
+		if (reading_complete != 0) {
+			break;
+		}
 		int find_shower = ce_profiles[profile.hadronic].count(profile.energy);
 		if (find_shower == 0) {
 			ce_profiles[profile.hadronic][profile.energy] = std::vector<showers::ChargeExcessProfile>();
-- 
2.43.0


From 605bcfe757c103cb491be9ef728d00595d5b9561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 30/43] fix: use the shower that was drawn at random, and draw
 only stored ones

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 8b80d67..b41f498 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -67,18 +67,18 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	if (i_shower < 0) {
 		std::random_device rand_dev;
 		std::default_random_engine generator(rand_dev());
-		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size());
+		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size() - 1);
 		shower_index = dist(generator);
 	} else {
 		shower_index = i_shower;
 	}
-        std::cout << "Pick shower " << i_shower << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
+        std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][i_shower],
+			ce_profiles[had][closest_energy][shower_index],
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0


From 7cbb120c2603c47b33380e423fc76583971281c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 31/43] fix: report an error if the requested shower does not
 exist

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index b41f498..f2deb56 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -55,6 +55,9 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 		int had,
 		int i_shower
 		) {
+	if (stored_energies[had].empty()) {
+		throw std::runtime_error("Error: no showers of the requested type available!");
+	}
 	double closest_energy = stored_energies[had][0];
 	double energy_diff = std::abs(en - stored_energies[had][0]);
 	for (int i=1; i < stored_energies[had].size(); i++) {
@@ -78,7 +81,7 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][shower_index],
+			ce_profiles[had][closest_energy].at(shower_index),
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0


From 2da84396a9357ea208f48a1daa28312e92b7a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 32/43] fix: report an error if the shower file is missing or
 incomplete

---
 .../shower_creator/shower_creator.cpp         | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index f2deb56..f0b79ac 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -19,6 +19,9 @@ showers::ShowerCreator::ShowerCreator(
 	int reading_complete = 0;
 	int N;
 	FILE * pFile = fopen(shower_file.c_str(), "rb");
+	if (pFile == NULL) {
+		throw std::runtime_error("Error: cannot open shower file!");
+	}
 	ce_profiles[0] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	ce_profiles[1] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	
@@ -89,18 +92,24 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 
 int showers::ShowerCreator::read_shower(FILE *f, int *N, int *hadronic, double *E, std::vector<double> *grammage, std::vector<double> *q)
 {
-	if (fread(N, sizeof(uint32_t),1,f) == 0) return 1;
-	fread(hadronic, sizeof(uint32_t), 1, f);
-	fread(E, sizeof(double),1,f);
+	size_t header_bytes = fread(N, 1, sizeof(uint32_t), f);
+	if (header_bytes == 0) return 1;
+	if (header_bytes != sizeof(uint32_t) || fread(hadronic, sizeof(uint32_t), 1, f) != 1 || fread(E, sizeof(double), 1, f) != 1) {
+		throw std::runtime_error("Error: shower file ends unexpectedly!");
+	}
 	grammage -> resize(*N);
 	q -> resize(*N);
-	fread(&((*grammage)[0]), sizeof(double),*N,f);
+	if (fread(grammage -> data(), sizeof(double), *N, f) != *N) {
+		throw std::runtime_error("Error: shower file ends unexpectedly!");
+	}
 	for (int i=0; i < (*grammage).size(); i++) {
 		(*grammage)[i] = (*grammage)[i] * units::kilogram / units::square_meter;
 		
 	}
-	fread(&((*q)[0]), sizeof(double), *N, f);
-        
+	if (fread(q -> data(), sizeof(double), *N, f) != *N) {
+		throw std::runtime_error("Error: shower file ends unexpectedly!");
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From b21096ecd33e3462360e14ffceecd91aec1993ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 33/43] fix: CylinderRegion::SetRegion keeps the region
 unchanged if the new limits are rejected

---
 eisvogel/core/impl/Geometry.hxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/Geometry.hxx b/eisvogel/core/impl/Geometry.hxx
index 34c1cbe..bb21f48 100644
--- a/eisvogel/core/impl/Geometry.hxx
+++ b/eisvogel/core/impl/Geometry.hxx
@@ -8,11 +8,8 @@ CylinderRegion::CylinderRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, s
 }
 
 void CylinderRegion::SetRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, scalar_t z_max) {
-  m_r_min = r_min;
-  m_r_max = r_max;
-  m_z_min = z_min;
-  m_z_max = z_max;
-  throw_if_unphysical();
+  // Validate the new limits first, so that this region is left unchanged if they are rejected
+  *this = CylinderRegion(r_min, r_max, z_min, z_max);
 }
 
 void CylinderRegion::throw_if_unphysical() {
-- 
2.43.0


From 66338aef5d59c90f6082b6aa0ee7527d77555210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 34/43] fix: MEEP calculator accepts domains that are a whole
 number of voxels in single precision, as its own check does

---
 .../meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 76ba4da..facb9af 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -512,8 +512,8 @@ namespace GreensFunctionCalculator::MEEP {
     };
 
     // Communicate back which region we are actually storing now
-    assert(calc_domain_shape.z() == m_geom.GetZSize() * resolution);
-    assert(calc_domain_shape.r() == m_geom.GetRSize() * resolution);
+    assert(calc_domain_shape.z() == (scalar_t)(m_geom.GetZSize() * resolution));
+    assert(calc_domain_shape.r() == (scalar_t)(m_geom.GetRSize() * resolution));
     
     ZRIndexVector storage_domain_end_ind = storage_domain_start_ind + storage_domain_shape;
 
-- 
2.43.0


From 0ebcb121e667d65c8623adf4f016c30982fb2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 35/43] fix: MEEP calculator refuses storage regions smaller
 than a voxel instead of failing at the end

---
 .../meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index facb9af..9116761 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -511,6 +511,11 @@ namespace GreensFunctionCalculator::MEEP {
       std::size_t(m_request_to_store.GetRSize() / m_geom.GetRSize() * calc_domain_shape.r()),
     };
 
+    // The region that is to be stored must cover at least one voxel
+    if((storage_domain_shape.z() == 0) || (storage_domain_shape.r() == 0)) {
+      throw std::runtime_error("Error: requested storage region is smaller than one voxel!");
+    }
+
     // Communicate back which region we are actually storing now
     assert(calc_domain_shape.z() == (scalar_t)(m_geom.GetZSize() * resolution));
     assert(calc_domain_shape.r() == (scalar_t)(m_geom.GetRSize() * resolution));
-- 
2.43.0


From e61b7c0bac506e8a41b12ba1ac8700d94c82c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 36/43] fix: AppendSlice refuses slices that do not continue
 the chunk where it ends, and chunks with overlap

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 643a472..fd9b141 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -929,6 +929,17 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
   // TODO: to be implemented when the need arises (see above), this assertion to be removed once done
   assert(meta -> chunk_type == ChunkType::specified);
   
+  // The slice must continue the existing chunk exactly where it ends
+  ind_t expected_start_ind = meta -> start_ind;
+  expected_start_ind[axis] = meta -> end_ind[axis];
+  if(start_ind != expected_start_ind) {
+    throw std::runtime_error("Error: slice does not start at the end of the existing chunk!");
+  }
+
+  if(meta -> overlap != 0) {
+    throw std::logic_error("Appending to chunks with overlap not implemented yet!");
+  }
+  
   // std::cout << "BBBB before append: \n" << meta << std::endl;
   
   // Perform the appending operation
-- 
2.43.0


From 80d0b2a23697fbf88b371bb9337fd79cd907d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 37/43] fix: AppendSlice refuses slices the stored layout does
 not admit before anything is changed

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +
 eisvogel/core/impl/DistributedNDVecArray.hxx | 79 ++++++++++----------
 eisvogel/core/impl/NDVecArrayStreamer.hh     |  3 +
 eisvogel/core/impl/NDVecArrayStreamer.hxx    | 10 +++
 4 files changed, 57 insertions(+), 38 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 368cdf7..fb08a9f 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -276,6 +276,9 @@ private:
   // inserts a new cache element into the cache
   void insert_into_cache(const chunk_meta_t& chunk_meta, const chunk_t& chunk_data, const status_t& stat);
   
+  // checks if a slice can be appended along `axis` to the chunk with index `index` by concatenation in the cache, i.e. without regard to its disk image
+  bool can_concatenate_in_memory(const id_t& index, std::size_t axis);
+  
   // makes sure cache element with index `ind` is synchronized with its disk image
   void sync_cache_element_with_disk(cache_entry_t& cache_entry);
 
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index fd9b141..5f7b37d 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -123,6 +123,20 @@ const ChunkCache<ArrayT, T, dims, vec_dims>::chunk_t& ChunkCache<ArrayT, T, dims
   return deserialize_into_cache(chunk_meta).chunk_data;
 }
 
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+bool ChunkCache<ArrayT, T, dims, vec_dims>::can_concatenate_in_memory(const id_t& index, std::size_t axis) {
+
+  // concatenation in memory is available only along this axis, and only if the cached data will be written out later in any case
+  if((axis != 0) || !m_cache.contains(index)) {
+    return false;
+  }
+
+  const status_t& status = m_cache.get(index).op_to_perform;
+  return std::holds_alternative<CacheStatus::Serialize>(status) ||
+    (std::holds_alternative<CacheStatus::Append>(status) && std::get<CacheStatus::Append>(status).axis == axis);
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 template <std::size_t axis>
@@ -133,11 +147,33 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     throw std::runtime_error("Error: dimensions not compatible for concatenation!");
   }
   
+  // If the slice cannot be concatenated in memory, it will be appended to the chunk on disk whenever it goes out of scope:
+  // make sure that this will be possible before changing anything
+  id_t index = chunk_meta.chunk_id;
+  if(!can_concatenate_in_memory(index, axis)) {
+
+    // Perform any outstanding operations on the cached chunk and remove it from the cache ...
+    if(m_cache.contains(index)) {
+      cache_entry_t& evicted_chunk = m_cache.evict(index);
+      descope_cache_element(evicted_chunk);
+    }
+
+    // ... so that the chunk on disk is up-to-date
+    std::fstream ifs;
+    ifs.open(get_abs_path(chunk_meta.filepath), std::ios::in | std::ios::binary);
+    ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
+    bool append_possible = m_streamer.permits_append(ifs, axis);
+    ifs.close();
+
+    if(!append_possible) {
+      throw std::runtime_error("Error: stored chunk does not permit appending along this axis!");
+    }
+  }
+  
   // Update the metadata
   std::size_t shape_growth = slice.GetShape()[axis];
   chunk_meta.template GrowChunk<axis>(shape_growth);
   
-  id_t index = chunk_meta.chunk_id;
   if(!m_cache.contains(index)) {
 
     // std::cout << "AAA: insert into cache as new element with status 'append'" << std::endl;
@@ -154,44 +190,11 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     return;
   }
 
-  // Cache already contains the chunk, how to proceed depends on its status
+  // The cache already contains a chunk that is to be serialized from scratch or that is scheduled for concatenation with the on-disk chunk along
+  // the same axis; just concatenate in memory and write to disk whenever this chunk is evicted from the cache
   cache_entry_t& cached_chunk = m_cache.get(index);
-  status_t& status = cached_chunk.op_to_perform;
-  if(std::holds_alternative<CacheStatus::Nothing>(status)) {
-    
-    // The chunk is in the cache, but is marked as being in sync with the information on disk.
-    // Remove it from the cache ...
-    m_cache.evict(index);
-    
-    // ... and insert it with `append` status, as done above
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
-  }
-  else if(std::holds_alternative<CacheStatus::Serialize>(status) && axis == 0) { // concatenation in memory is available only along this axis
-
-    // std::cout << "AAA: concatenated in memory to serialize" << std::endl;
-    
-    // The cache already contains a chunk that is to be serialized from scratch; just concatenate in memory and write to disk whenever
-    // this chunk is evicted from the cache
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);      
-  }
-  else if(std::holds_alternative<CacheStatus::Append>(status) && std::get<CacheStatus::Append>(status).axis == axis && axis == 0) {
-
-    // std::cout << "AAA: concatenated in memory to append" << std::endl;
-    
-    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk along the same axis, can append
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);
-  }
-  else {
-
-    // The cached data cannot be concatenated with the new slice: perform the outstanding operation and remove it from the cache ...
-    cache_entry_t& evicted_chunk = m_cache.evict(index);
-    descope_cache_element(evicted_chunk);
-
-    // ... so that only the new slice is inserted with `append` status, as done above
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
-  }
+  cached_chunk.chunk_meta = chunk_meta;
+  cached_chunk.chunk_data.template Append<axis>(slice);
 
   // Immediately synchronize to disk if we're asked to operate without cache
   if(m_cache_size == 0) {      
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hh b/eisvogel/core/impl/NDVecArrayStreamer.hh
index 7f3c3d3..71aa2f7 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hh
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hh
@@ -59,6 +59,9 @@ namespace stor {
 
     void append_slice(std::fstream& stream, const type& chunk, std::size_t axis, const StreamerMode& mode);
 
+    // checks if the array on the stream permits a slice to be appended to it along `axis`
+    bool permits_append(std::fstream& stream, std::size_t axis);
+
   private:
 
     void serialize_all_chunks(std::fstream& stream, const type& val, const shape_t& chunk_size, const StreamerMode& mode);
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index 303bd6f..13a68a5 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -310,6 +310,16 @@ namespace stor {
     serialize_all_chunks(stream, slice, meta.ser_chunk_shape, mode);
   }  
 
+  template <template<typename, std::size_t, std::size_t> class ArrayT,
+	    typename T, std::size_t dims, std::size_t vec_dims>
+  bool NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::permits_append(std::fstream& stream, std::size_t axis) {
+
+    // deserialize array-wide metadata
+    NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims> meta = Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::deserialize(stream);
+
+    return (meta.access_mode == AccessMode::modification_allowed) && permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis);
+  }
+
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::mark_as_final(std::fstream& stream) {
-- 
2.43.0


From 27f9cf0f53825a0e621c34b9482e07372f7acf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 38/43] fix: write chunks before the index that refers to them,
 and replace the index in one step

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +++
 eisvogel/core/impl/DistributedNDVecArray.hxx | 23 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index fb08a9f..0e097e3 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -157,6 +157,9 @@ private:
   id_t get_next_chunk_id();
   
   void load_and_rebuild_index();
+
+  // location at which the index is prepared before it replaces the one at `m_index_path`
+  std::filesystem::path get_tmp_index_path();
   std::vector<metadata_t> load_index_entries(std::filesystem::path index_path);
   
 private:
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 5f7b37d..49154e4 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -593,6 +593,13 @@ void ChunkIndex<dims>::UpdateChunkInIndex(const metadata_t& previous_meta, const
   UpdateChunkInIndex(previous_meta.start_ind, updated_meta);
 }
 
+template <std::size_t dims>
+std::filesystem::path ChunkIndex<dims>::get_tmp_index_path() {
+  std::filesystem::path tmp_index_path = m_index_path;
+  tmp_index_path += ".tmp";
+  return tmp_index_path;
+}
+
 template <std::size_t dims>
 void ChunkIndex<dims>::FlushIndex() {
 
@@ -605,11 +612,20 @@ void ChunkIndex<dims>::FlushIndex() {
   std::vector<metadata_t> chunk_list;
   m_chunk_tree.GetAllEntries(chunk_list);
 
+  // Write a new file and then put it into place: there must be a complete index on disk at all times
+  std::filesystem::path tmp_index_path = get_tmp_index_path();
+
   std::fstream ofs;
-  ofs.open(m_index_path, std::ios::out | std::ios::binary);
+  ofs.open(tmp_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
 
+  // If it could not be written, the previous index stays as it is
+  std::error_code rename_error;
+  if(ofs) {
+    std::filesystem::rename(tmp_index_path, m_index_path, rename_error);
+  }
+
   m_modified = false;
 }
 
@@ -622,6 +638,7 @@ void ChunkIndex<dims>::MoveIndex(std::filesystem::path new_index_path) {
   if(std::filesystem::exists(m_index_path)) {
     std::filesystem::remove(m_index_path);
   }
+  std::filesystem::remove(get_tmp_index_path());  // may be left over from a process that was killed
   
   // reset the path and flush the index to the new location
   m_index_path = new_index_path;  
@@ -635,6 +652,7 @@ void ChunkIndex<dims>::ClearIndex() {
   if(std::filesystem::exists(m_index_path)) {
     std::filesystem::remove(m_index_path);
   }
+  std::filesystem::remove(get_tmp_index_path());  // may be left over from a process that was killed
 
   // reset and clear everything
   invalidate_cached_index_metadata();
@@ -1083,8 +1101,9 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::DeleteLibrary() {
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::FlushLibrary() {
-  m_index.FlushIndex();
+  // The index must not refer to chunks that are not yet on disk
   m_cache.FlushCache();
+  m_index.FlushIndex();
 }
 
 
-- 
2.43.0


From 256aecaef25f27574a652d504a617b18e48d97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 39/43] fix: append slices before the metadata that announces
 them, and only to complete chunks with the expected shape

---
 eisvogel/core/impl/DistributedNDVecArray.hxx |  2 +-
 eisvogel/core/impl/NDVecArrayStreamer.hh     |  4 ++--
 eisvogel/core/impl/NDVecArrayStreamer.hxx    | 25 +++++++++++++++-----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 49154e4..ac9ac53 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -162,7 +162,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     std::fstream ifs;
     ifs.open(get_abs_path(chunk_meta.filepath), std::ios::in | std::ios::binary);
     ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
-    bool append_possible = m_streamer.permits_append(ifs, axis);
+    bool append_possible = m_streamer.permits_append(ifs, chunk_meta.shape + 2 * chunk_meta.overlap, axis);
     ifs.close();
 
     if(!append_possible) {
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hh b/eisvogel/core/impl/NDVecArrayStreamer.hh
index 71aa2f7..53bc3ce 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hh
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hh
@@ -59,8 +59,8 @@ namespace stor {
 
     void append_slice(std::fstream& stream, const type& chunk, std::size_t axis, const StreamerMode& mode);
 
-    // checks if the array on the stream permits a slice to be appended to it along `axis`
-    bool permits_append(std::fstream& stream, std::size_t axis);
+    // checks if there is a complete array with this shape on the stream, to which a slice can be appended along `axis`
+    bool permits_append(std::fstream& stream, const Vector<std::size_t, dims>& array_shape, std::size_t axis);
 
   private:
 
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index 13a68a5..9cd2133 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -301,23 +301,36 @@ namespace stor {
     // update array size after `slice` is appended
     meta.array_shape[axis] += slice.m_shape[axis];
 
-    // update metadata on disk
-    stream.seekp(init_pos);
-    Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::serialize(stream, meta);
-
     // append new slice to the end of the file
     stream.seekp(0, std::ios_base::end);
     serialize_all_chunks(stream, slice, meta.ser_chunk_shape, mode);
+
+    // update metadata on disk now that the slice is complete
+    stream.seekp(init_pos);
+    Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::serialize(stream, meta);
   }  
 
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
-  bool NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::permits_append(std::fstream& stream, std::size_t axis) {
+  bool NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::permits_append(std::fstream& stream, const Vector<std::size_t, dims>& array_shape, std::size_t axis) {
 
     // deserialize array-wide metadata
     NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims> meta = Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::deserialize(stream);
 
-    return (meta.access_mode == AccessMode::modification_allowed) && permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis);
+    if((meta.array_shape != array_shape) || (meta.access_mode != AccessMode::modification_allowed) || !permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
+      return false;
+    }
+
+    // the array must be complete and directly followed by the end of the file, which is where the new slice will be appended
+    auto chunk_skipper = [&](const Vector<std::size_t, dims>&, const Vector<std::size_t, dims>&) -> void {
+      NDVecArrayStreamerChunkMetadata chunk_meta = Traits<NDVecArrayStreamerChunkMetadata>::deserialize(stream);
+      stream.seekg(chunk_meta.chunk_size * sizeof(ser_type), std::ios_base::cur);
+    };
+    IteratorUtils::index_loop_over_chunks(Vector<std::size_t, dims>(0u), meta.array_shape, meta.ser_chunk_shape, chunk_skipper);
+
+    std::streampos array_end = stream.tellg();
+    stream.seekg(0, std::ios_base::end);
+    return stream.tellg() == array_end;
   }
 
   template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From 64c28da17efe738ecef2b0bcaf79afbc6965cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 40/43] fix: report chunks and indices that cannot be read or
 written in full

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |   6 +
 eisvogel/core/impl/DistributedNDVecArray.hxx | 121 +++++++++++++------
 2 files changed, 88 insertions(+), 39 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 0e097e3..55aea42 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -287,6 +287,12 @@ private:
 
   void descope_cache_element(cache_entry_t& cache_entry);
 
+  // Perform the outstanding append operation of this cache entry
+  void append_to_chunk_on_disk(const cache_entry_t& cache_entry);
+
+  // Make sure that the chunk read from disk has all the elements it should have
+  void check_chunk_complete(const chunk_meta_t& chunk_meta, const chunk_t& chunk_data);
+
   std::filesystem::path get_abs_path(const std::filesystem::path& chunk_path);
   
 private:
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index ac9ac53..f98b177 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -52,7 +52,12 @@ ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir,
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 ChunkCache<ArrayT, T, dims, vec_dims>::~ChunkCache() {
-  FlushCache();
+  try {
+    FlushCache();
+  }
+  catch(const std::exception& e) {
+    std::cerr << "Error: could not write cached chunks to disk: " << e.what() << std::endl;
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -112,7 +117,13 @@ const ChunkCache<ArrayT, T, dims, vec_dims>::chunk_t& ChunkCache<ArrayT, T, dims
       // std::cout << "synchronize with disk" << std::endl;
       
       // The element contained in the cache is not up-to-date; need to synchronize first
-      sync_cache_element_with_disk(cached_chunk);
+      try {
+	sync_cache_element_with_disk(cached_chunk);
+      }
+      catch(...) {
+	m_cache.evict(index); // Do not keep an incomplete chunk
+	throw;
+      }
     }
     
     // Requested element is contained in the cache and is now complete, directly return reference to its data
@@ -160,6 +171,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
 
     // ... so that the chunk on disk is up-to-date
     std::fstream ifs;
+    ifs.exceptions(std::ios::failbit | std::ios::badbit);
     ifs.open(get_abs_path(chunk_meta.filepath), std::ios::in | std::ios::binary);
     ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
     bool append_possible = m_streamer.permits_append(ifs, chunk_meta.shape + 2 * chunk_meta.overlap, axis);
@@ -296,13 +308,20 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   
     // Directly deserialize into the cache element
     std::filesystem::path chunk_path = get_abs_path(chunk_meta.filepath);
-    assert(std::filesystem::exists(chunk_path));
-    
-    std::fstream ifs;
-    ifs.open(chunk_path, std::ios::in | std::ios::binary);
-    ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.deserialize(ifs, insert_location.chunk_data);
-    ifs.close();
+
+    try {
+      std::fstream ifs;
+      ifs.exceptions(std::ios::failbit | std::ios::badbit);
+      ifs.open(chunk_path, std::ios::in | std::ios::binary);
+      ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
+      m_streamer.deserialize(ifs, insert_location.chunk_data);
+      ifs.close();
+      check_chunk_complete(chunk_meta, insert_location.chunk_data);
+    }
+    catch(...) {
+      m_cache.evict(index); // Do not keep an incomplete chunk
+      throw;
+    }
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
@@ -353,29 +372,23 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
     return;
   }
   
-  std::filesystem::path chunk_path = get_abs_path(cache_entry.chunk_meta.filepath);
-  assert(std::filesystem::exists(chunk_path));
-  
-  std::fstream iofs;
-  iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
-  iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-
   // TODO: add check here whether ChunkType is specified or all_null
   
   status_t& status = cache_entry.op_to_perform;
   if(std::holds_alternative<CacheStatus::Append>(status)) {
     
     // Append the cached chunk to the on-disk portion ...
-    m_streamer.append_slice(iofs, cache_entry.chunk_data, std::get<CacheStatus::Append>(status).axis,
-			    stor::StreamerMode::null_suppressed);
+    append_to_chunk_on_disk(cache_entry);
     
-    // ... then rewind and deserialize the full chunk into the same cache location
-    iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.deserialize(iofs, cache_entry.chunk_data);
+    // ... then deserialize the full chunk into the same cache location
+    std::fstream ifs;
+    ifs.exceptions(std::ios::failbit | std::ios::badbit);
+    ifs.open(get_abs_path(cache_entry.chunk_meta.filepath), std::ios::in | std::ios::binary);
+    ifs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
+    m_streamer.deserialize(ifs, cache_entry.chunk_data);
+    ifs.close();
   }
 
-  iofs.close();
-
   cache_entry.op_to_perform = CacheStatus::Nothing();
 }
 
@@ -401,6 +414,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
     
     // Serialize this chunk
     std::fstream ofs;
+    ofs.exceptions(std::ios::failbit | std::ios::badbit);
     ofs.open(chunk_path, std::ios::out | std::ios::binary);
     ofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     m_streamer.serialize(ofs, cache_entry.chunk_data, m_streamer_chunk_size, stor::StreamerMode::null_suppressed);
@@ -410,22 +424,43 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
 
     // std::cout << "descope element, append to file on disk" << std::endl;
     
-    assert(std::filesystem::exists(chunk_path));
-    
     // Need to append this to the on-disk chunk
-    std::fstream iofs;
-    iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
-    iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-    iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.append_slice(iofs, cache_entry.chunk_data, std::get<CacheStatus::Append>(status).axis,
-			    stor::StreamerMode::null_suppressed);
-    iofs.close();
+    append_to_chunk_on_disk(cache_entry);
   }
   else if(std::holds_alternative<CacheStatus::Nothing>(status)) {
     // Nothing needs to be done here
   }
 }
 
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+void ChunkCache<ArrayT, T, dims, vec_dims>::append_to_chunk_on_disk(const cache_entry_t& cache_entry) {
+
+  std::filesystem::path chunk_path = get_abs_path(cache_entry.chunk_meta.filepath);
+
+  // Either the whole slice gets appended or the chunk stays readable as it was: the streamer updates the metadata last
+  std::fstream iofs;
+  iofs.exceptions(std::ios::failbit | std::ios::badbit);
+  iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
+  iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
+  iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
+  m_streamer.append_slice(iofs, cache_entry.chunk_data, std::get<CacheStatus::Append>(cache_entry.op_to_perform).axis,
+			  stor::StreamerMode::null_suppressed);
+  iofs.close();
+}
+
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+void ChunkCache<ArrayT, T, dims, vec_dims>::check_chunk_complete(const chunk_meta_t& chunk_meta, const chunk_t& chunk_data) {
+
+  Vector<std::size_t, dims> expected_shape = chunk_meta.shape + 2 * chunk_meta.overlap;
+  for(std::size_t ind = 0; ind < dims; ind++) {
+    if(chunk_data.GetShape()[ind] < expected_shape[ind]) {
+      throw std::runtime_error("Error: chunk on disk is incomplete!");
+    }
+  }
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 std::filesystem::path ChunkCache<ArrayT, T, dims, vec_dims>::get_abs_path(const std::filesystem::path& chunk_path) {
@@ -527,7 +562,17 @@ ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_
 
 template <std::size_t dims>
 ChunkIndex<dims>::~ChunkIndex() {
-  FlushIndex();
+  try {
+    FlushIndex();
+  }
+  catch(const std::exception& e) {
+
+    // Nothing is lost if the entire library was deleted
+    std::error_code error;
+    if(std::filesystem::exists(m_index_path.parent_path(), error)) {
+      std::cerr << "Error: could not write chunk index to disk: " << e.what() << std::endl;
+    }
+  }
 }
 
 namespace {
@@ -615,16 +660,13 @@ void ChunkIndex<dims>::FlushIndex() {
   // Write a new file and then put it into place: there must be a complete index on disk at all times
   std::filesystem::path tmp_index_path = get_tmp_index_path();
 
+  // If it cannot be written, the previous index stays as it is
   std::fstream ofs;
+  ofs.exceptions(std::ios::failbit | std::ios::badbit);
   ofs.open(tmp_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
-
-  // If it could not be written, the previous index stays as it is
-  std::error_code rename_error;
-  if(ofs) {
-    std::filesystem::rename(tmp_index_path, m_index_path, rename_error);
-  }
+  std::filesystem::rename(tmp_index_path, m_index_path);
 
   m_modified = false;
 }
@@ -753,6 +795,7 @@ std::vector<ChunkMetadata<dims>> ChunkIndex<dims>::load_index_entries(std::files
   std::cout << "loading index entries from " << index_path << std::endl;
   
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit);
   ifs.open(index_path, std::ios::in | std::ios::binary);
   std::vector<metadata_t> index_entries = stor::Traits<std::vector<metadata_t>>::deserialize(ifs);
   ifs.close();
-- 
2.43.0


From 14270f428a24b8b9c0ca9091d25a02e45e4d46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 41/43] fix: report Green's functions without data, and
 metadata that cannot be read or written

---
 eisvogel/core/impl/GreensFunction.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 4a46639..c2ce092 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -73,6 +73,10 @@ CylindricalGreensFunction::CylindricalGreensFunction(std::filesystem::path path,
   lib_t(path, cache_size), m_meta(), m_meta_path(path / m_meta_filename) {
   load_metadata();   // Load metadata from disk
 
+  if(m_index.get_end_ind() == 0u) {
+    throw std::runtime_error("Error: no data found for this Green's function!");
+  }
+
   // `coords_to_index` assumes (for simplicity) that the array is indexed starting from zero
   assert(m_index.get_start_ind() == 0u);
 
@@ -515,6 +519,7 @@ RZTCoordVector CylindricalGreensFunction::coords_to_index(const RZTCoordVector&
 
 void CylindricalGreensFunction::save_metadata() {
   std::fstream ofs;
+  ofs.exceptions(std::ios::failbit | std::ios::badbit);
   ofs.open(m_meta_path, std::ios::out | std::ios::binary);
   stor::Traits<CylindricalGreensFunctionMetadata>::serialize(ofs, m_meta);
   ofs.close();
@@ -522,6 +527,7 @@ void CylindricalGreensFunction::save_metadata() {
 
 void CylindricalGreensFunction::load_metadata() {  
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit);
   ifs.open(m_meta_path, std::ios::in | std::ios::binary);
   m_meta = stor::Traits<CylindricalGreensFunctionMetadata>::deserialize(ifs);
   ifs.close();
-- 
2.43.0


From 7dccfb79109d022831c4253fb5e665fa1ae45701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 42/43] fix: report signals that cannot be exported

---
 eisvogel/core/impl/SignalExport.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eisvogel/core/impl/SignalExport.hxx b/eisvogel/core/impl/SignalExport.hxx
index d80ebf6..015cc83 100644
--- a/eisvogel/core/impl/SignalExport.hxx
+++ b/eisvogel/core/impl/SignalExport.hxx
@@ -6,6 +6,7 @@ void ExportSignal(std::vector<scalar_t> signal_times, std::vector<scalar_t> sign
 		  std::string outpath, int time_prec, int value_prec) {
   
   std::ofstream outfile;
+  outfile.exceptions(std::ios::failbit | std::ios::badbit);
   outfile.open(outpath);
   for(int ind = 0; ind < signal_times.size(); ind++) {
     outfile << std::fixed << std::showpoint << std::setprecision(time_prec);
-- 
2.43.0


From e64cf025052227fb0621673e77011de933019b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 43/43] fix: MEEP calculator stores the merged output of a job
 before removing its parts

---
 eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 9116761..63547d7 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -644,6 +644,7 @@ namespace GreensFunctionCalculator::MEEP {
     
     for(const std::filesystem::path& indir : indirs) {
       darr.Import(indir, true);
+      darr.Flush();
       std::filesystem::remove_all(indir);
     }
   }
-- 
2.43.0

