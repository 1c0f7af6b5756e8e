From 7a20ee39d3d10979286d0bb3c48fa0403c6f8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 01/41] fix: chunk file name buffer was one byte too short for
 the terminating null

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e1c985..b3fc9dd 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -516,7 +516,7 @@ namespace {
   std::filesystem::path get_chunkfile_path() {
     uuid_t uuid_binary;
     uuid_generate_random(uuid_binary);
-    char uuid_string[36];
+    char uuid_string[UUID_STR_LEN]; // includes the terminating null character
     uuid_unparse(uuid_binary, uuid_string);
     return std::string(uuid_string);    
   }  
-- 
2.43.0


From 13369e085fc34bf141ddbc1232e332124792235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 02/41] fix: do not reuse chunk ids after reloading an existing
 index

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index b3fc9dd..88ca043 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -719,6 +719,9 @@ void ChunkIndex<dims>::load_and_rebuild_index() {
 
   for(metadata_t& cur_meta : chunk_list) {
     m_chunk_tree.InsertElement(cur_meta, cur_meta.start_ind, cur_meta.end_ind);
+
+    // make sure that chunks added later do not reuse an id that is already taken
+    m_next_chunk_id = std::max<id_t>(m_next_chunk_id, cur_meta.chunk_id + 1);
   }  
 }
 
-- 
2.43.0


From ba089784f08f9d7e3d3f577a6d9b253512d3e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 03/41] fix: skip over the output samples covered by an
 all-null chunk

---
 eisvogel/core/impl/GreensFunction.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 10a788d..be65ff5 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -431,6 +431,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
 	std::advance(result, 1);
       }
     }
+    else {
+      // This chunk contains only zeroes and does not contribute, but its samples still need to be skipped over
+      std::advance(result, samples_to_request);
+    }
       
     cur_sample_ind += samples_to_request;
   }
-- 
2.43.0


From f6eb11ec4ef5f51822dcc940e1fbe8f06132750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 04/41] fix: copy, assign and append array views according to
 their own memory layout

---
 eisvogel/core/impl/NDVecArray.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArray.hxx b/eisvogel/core/impl/NDVecArray.hxx
index b36070b..6b5f0d9 100644
--- a/eisvogel/core/impl/NDVecArray.hxx
+++ b/eisvogel/core/impl/NDVecArray.hxx
@@ -83,9 +83,9 @@ NDVecArray<T, dims, vec_dims>& NDVecArray<T, dims, vec_dims>::operator=(const ND
   // copy a region of memory that is guaranteed to be contiguous in both `other` and `this`
   auto copy_chunk_contiguous = [&](const Vector<std::size_t, dims>& chunk_begin, const Vector<std::size_t, dims>&) {
     
-    std::size_t offset = ComputeFlatInd(chunk_begin);
-    auto src = other.m_data -> begin() + offset;
-    auto dest = m_data -> begin() + offset;
+    // (`other` may be a view, in which case its memory layout is different)
+    auto src = other.m_data -> begin() + other.ComputeFlatInd(chunk_begin);
+    auto dest = m_data -> begin() + ComputeFlatInd(chunk_begin);
     
     std::copy_n(std::execution::unseq, src, m_shape[dims - 1] * vec_dims, dest);
   };
@@ -217,16 +217,16 @@ void NDVecArray<T, dims, vec_dims>::Append(const NDVecArray<T, dims, vec_dims>&
   assert(ShapeAllowsConcatenation(m_shape, other.m_shape, axis));
   
   // new elements will be appended at the very back
-  std::size_t app_offset = m_data -> size();
+  ind_t app_start(0u);
+  app_start[axis] = m_shape[axis];
 
   // compute new shape and resize
   shape_t new_shape = m_shape;
   new_shape[axis] += other.m_shape[axis];
   resize(new_shape);
   
-  // copy the new data
-  auto it_app = m_data -> begin() + app_offset;
-  std::copy(std::execution::unseq, other.m_data -> begin(), other.m_data -> end(), it_app);
+  // copy the new data (`other` may be a view, i.e. it does not necessarily use all of its underlying memory)
+  fill_from(other, ind_t(0u), other.m_shape, app_start);
 }
 
 template <typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 5b85478071ff8d62c418e7a92a0d8a6d450782ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 05/41] fix: searching an empty tree must not access an invalid
 node

---
 eisvogel/core/impl/RStarTree.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index 27a8d18..fb12973 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -1078,6 +1078,11 @@ PayloadT* RStarTree<CoordT, dims, PayloadT>::Search(const Vector<CoordT, dims>&
     }
   }
   
+  // Nothing to be found in an empty tree
+  if(Empty()) {
+    return nullptr;
+  }
+  
   std::size_t entry_slot = search_entry(m_root_slot, coords);
   if(entry_slot != NodePool::INVALID_SLOT) {
     m_last_accessed_entry_slot = entry_slot;
-- 
2.43.0


From e62badc0862ce341ed53df988fb8b23cbf8fcbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 06/41] fix: do not store uninitialized memory in corner
 elements outside the array

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 88ca043..c5df05e 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1241,7 +1241,8 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
     ind_t output_start = (fill_start_ind.template as_type<int>() - extended_chunk_start_ind).template as_type<std::size_t>();
     
     // fill rebuilt chunk into local buffer ...    
-    chunk_buffer.resize(extended_chunk_shape);    
+    // (elements outside the array for which the boundary evaluator has no value stay zero)
+    chunk_buffer.resize(extended_chunk_shape, (T)(0.0));
     FillArray(chunk_buffer, fill_start_ind, fill_end_ind, output_start);
 
     auto is_boundary_element = [&](Vector<int, dims>& boundary_ind) {
-- 
2.43.0


From c8cdbdad94e6839efba87aa94b579a3d2a72908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 07/41] fix: all-null chunks are retrieved with the overlap
 they were registered with

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index c5df05e..1bec6b1 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -288,8 +288,8 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
-    // Make sure the cache element has the correct shape ...
-    insert_location.chunk_data.resize(chunk_meta.shape);
+    // Make sure the cache element has the correct shape (including the overlap) ...
+    insert_location.chunk_data.resize(chunk_meta.shape + 2 * chunk_meta.overlap);
 
     // ... and fill it with zeroes
     insert_location.chunk_data = (T)(0.0);
-- 
2.43.0


From 1a4fbe79eaf3020f695e2cf6af22f798cc804af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 08/41] fix: rebuilding chunks without overlap did not compile

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 1bec6b1..87d1609 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1181,7 +1181,7 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    const ind_t& requested_chunk_shape, std::filesystem::path outdir, const ChunkHints& hints) {
 
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
@@ -1369,7 +1369,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape,
 								     std::filesystem::path tmpdir, const ChunkHints& hints) {
   // no overlap requested here
-  auto error_on_evaluation = []() {
+  auto error_on_evaluation = [](darr_t&, const Vector<int, dims>&, view_t) {
     throw std::logic_error("This should never be encountered!");
   };
   std::size_t overlap = 0;
-- 
2.43.0


From 0ab7e8f439e8ef829e53677d02002408a0f01849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 09/41] fix: element loop missed elements of arrays not
 starting at index zero

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 87d1609..1f01b8d 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1051,8 +1051,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 template <class CallableT>
 constexpr void ChunkLibrary<ArrayT, T, dims, vec_dims>::index_loop_over_elements(CallableT&& worker) {
-  Vector<std::size_t, dims> start_ind(0);
-  index_loop_over_elements(start_ind, m_index.GetShape(), worker);
+  index_loop_over_elements(m_index.get_start_ind(), m_index.get_end_ind(), worker);
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From 6cd683034a09c3674818ef252616d2dc1885b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 10/41] fix: rebuilding chunks lost elements of non-contiguous
 arrays and arrays not starting at index zero

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 1f01b8d..19570a2 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1347,10 +1347,15 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 template <class BoundaryCallableT>
 void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t& requested_chunk_shape, std::filesystem::path tmpdir, std::size_t overlap,
 								     BoundaryCallableT&& boundary_evaluator, const ChunkHints& hints) {
-  ind_t global_start_ind(0);
-  shape_t global_shape = m_library.GetShape();
+  ind_t global_start_ind = m_library.GetStartInd();
+  ind_t global_end_ind = m_library.GetEndInd();
+
+  // The original chunks are deleted below: make sure that no elements get lost
+  if(m_library.GetShape() != global_end_ind - global_start_ind) {
+    throw std::runtime_error("Error: chunks do not cover a contiguous region, cannot be rebuilt!");
+  }
   
-  RebuildChunksPartial(global_start_ind, global_shape, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
-- 
2.43.0


From de0d8e4b752a52761fb7c0cb074d3504e17b3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 11/41] fix: report points outside of the Green's function
 domain instead of dereferencing a null pointer

---
 eisvogel/core/impl/GreensFunction.hxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index be65ff5..1fa5ad8 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -366,9 +366,10 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Time coordinate of the current sample
     cur_f_ind.t() = t_start_f_ind + cur_sample_ind * t_samp_f_ind;
     
-    // Fetch the chunk that contains this current location ...
+    // Fetch the chunk that contains this current location (indices below zero are always out of bounds) ...
+    const bool in_bounds = (cur_f_ind.r() >= 0) && (cur_f_ind.z() >= 0) && (cur_f_ind.t() >= 0);
     RZTIndexVector cur_ind = cur_f_ind.template as_type<std::size_t>();
-    const metadata_t* meta = m_index.GetChunk(cur_ind);
+    const metadata_t* meta = in_bounds ? m_index.GetChunk(cur_ind) : nullptr;
 
     // std::cout << "start_ind = " << m_index.get_start_ind() << std::endl;
     // std::cout << "end_ind = " << m_index.get_end_ind() << std::endl;
@@ -377,10 +378,13 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // std::cout << "end_pos_rzt = " << m_meta.end_pos_rzt << std::endl;
     // std::cout << "sample_interval_rzt = " << m_meta.sample_interval_rzt << std::endl;
     
-    // (Silently) ignore (part of) this track if this is what we're asked to do
-    if((oob_mode == Green::OutOfBoundsBehavior::Ignore) && (meta == nullptr)) {
-      // std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
-      return;
+    if(meta == nullptr) {
+      // (Silently) ignore (part of) this track if this is what we're asked to do
+      if(oob_mode == Green::OutOfBoundsBehavior::Ignore) {
+	// std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
+	return;
+      }
+      throw std::runtime_error("Error: track outside of Green's function domain!");
     }
 
     // Ensure that the overlap on the loaded chunk is large enough for the kernel that we use
-- 
2.43.0


From 7ba1822d929c5fe4fa63aba3e1fe6f644ca8d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 12/41] fix: element access by scalar index respects the offset
 of one-dimensional views

---
 eisvogel/core/impl/NDVecArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArray.hh b/eisvogel/core/impl/NDVecArray.hh
index 1ac6f3f..d240f86 100644
--- a/eisvogel/core/impl/NDVecArray.hh
+++ b/eisvogel/core/impl/NDVecArray.hh
@@ -145,7 +145,7 @@ public:
 
   view_t operator[](const std::size_t ind) requires(dims == 1) {
     assert(index_within_bounds(ind));
-    return view_t(m_data -> begin() + vec_dims * ind);
+    return view_t(m_data -> begin() + ComputeFlatInd(ind)); // (this may be a view)
   }
 
   // T& operator[](const ind_t& ind) requires(vec_dims == 1) {
-- 
2.43.0


From 036836e40d9da1ae025afcb169219c6b462320a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 13/41] fix: refuse to append slices to serialized arrays when
 the serialization chunks do not allow it

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 38 ++++++++++-------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index fdcb8ff..e48934e 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -251,6 +251,19 @@ namespace stor {
     return false;
   }
   
+  // tests if appending a slice along `axis` only adds new serialization chunks after those that already exist for an array with `array_shape`, i.e. if
+  //   1) there are no partially-filled (or automatically-growing) serialization chunks along `axis`, and
+  //   2) the array consists of a single serialization chunk along all directions that vary more slowly than `axis`
+  template <std::size_t dims>
+  bool permits_appending_along_axis(const Vector<std::size_t, dims>& array_shape, const Vector<std::size_t, dims>& ser_chunk_shape, std::size_t axis) {
+    for(std::size_t ind = 0; ind < axis; ind++) {
+      if(ser_chunk_shape[ind] < array_shape[ind]) {
+	return false;
+      }
+    }
+    return (ser_chunk_shape[axis] <= array_shape[axis]) && (array_shape[axis] % ser_chunk_shape[axis] == 0);
+  }
+
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
@@ -270,28 +283,11 @@ namespace stor {
       throw std::runtime_error("Error: dimensions not compatible for concatenation!");
     }
 
-    // --------
-    // TODO: Finish implementing checks
-    // must satisfy that it(part1) + it(part2) === it(part1 + part2) for the given chunk size and dimensions of part1, part2
-
-    // Better conditions:
-    // 1) must have no gaps and no automatically-growing chunks along concatenation dimension: i.e. must not have partial chunks along concat dimension
-    //       (ser_chunk_shape[concat_dim] <= array_shape[concat_dim]) && (array_shape[concat_dim] % ser_chunk_shape[concat_dim] == 0)
-    // 2) concat dimension must not be after the outermost changing dimension
-    // --------
-    
-    // // check if the serialization chunk is a `slice`, i.e. the chunk fully "slices through" the array along a particular dimension
-    // if(!chunk_is_slice(meta.array_shape, meta.ser_chunk_shape)) {
-    //   throw std::runtime_error("Error: serialization chunk is not a slice, cannot append!");
-    // }
-    
-    // // need to make sure that the serialization axis is the same as the axis for appending the new slice
-    // if(!ser_axis_matches_insertion_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
-    //   throw std::runtime_error("Error: serialization axis does not match requested insertion axis!");
-    // }
+    // need to make sure that the serialization chunks of the existing array and of the new slice, one after the other, are the serialization chunks of the combined array
+    if(!permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
+      throw std::runtime_error("Error: serialization chunks of the array do not allow appending along this axis!");
+    }
 
-    // --------
-        
     // update metadata
     // check if the passed `slice` fits exactly into one or more serialization chunks; no further modifications are allowed if it doesn't
     meta.access_mode = permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) ? AccessMode::modification_allowed : AccessMode::modification_not_allowed;
-- 
2.43.0


From 7a6d01d7a5ebe4dbae4bdbfd619b1adc73e711e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 14/41] fix: rebuilding an empty tree must not fail

---
 eisvogel/core/impl/RStarTree.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eisvogel/core/impl/RStarTree.hxx b/eisvogel/core/impl/RStarTree.hxx
index fb12973..b7140ee 100644
--- a/eisvogel/core/impl/RStarTree.hxx
+++ b/eisvogel/core/impl/RStarTree.hxx
@@ -1338,6 +1338,11 @@ void RStarTree<CoordT, dims, PayloadT>::RebuildSTR() {
 
   // std::cout << "starting to rebuild tree for " << entries.size() << " entries" << std::endl;
 
+  // An empty tree does not have any nodes
+  if(entries.empty()) {
+    return;
+  }
+
   std::vector<std::size_t> node_slots;
   
   // Build the layer of leaf nodes:
-- 
2.43.0


From a08ee39674713d11d215cd9b806542e6cff1bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 15/41] fix: interpolation at sample positions must not read
 beyond the array

---
 eisvogel/core/impl/Interpolation.hxx | 31 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/Interpolation.hxx b/eisvogel/core/impl/Interpolation.hxx
index d0e0532..8d521ec 100644
--- a/eisvogel/core/impl/Interpolation.hxx
+++ b/eisvogel/core/impl/Interpolation.hxx
@@ -92,13 +92,24 @@ namespace Interpolation {
     
     constexpr std::size_t ksize = 2 * KernelT::support;
 
+    // largest index along each axis for which all samples that contribute are contained in `arr`;
+    // used to make sure that rounding can not take us beyond it
+    scalar_t max_ind[dims];
+    for(std::size_t i = 0; i < dims; i++) {
+      max_ind[i] = (scalar_t)(arr.GetShape()[i] - KernelT::support);
+    }
+
     // compute integer and fractional parts of outer indices
     std::size_t outer_int[dims - 1];
     scalar_t outer_frac[dims - 1];
+    std::size_t outer_ksize[dims - 1];
     for(std::size_t i = 0; i < dims - 1; i++) {
       scalar_t cur_int = 0.0;
-      outer_frac[i] = std::modf(outer_inds[i], &cur_int);
+      outer_frac[i] = std::modf(std::min(outer_inds[i], max_ind[i]), &cur_int);
       outer_int[i] = (std::size_t)cur_int;
+
+      // exactly at a sample, the last element in the kernel has zero weight (and may lie outside of `arr`)
+      outer_ksize[i] = (outer_frac[i] > 0) ? ksize : ksize - 1;
     }
 
     // evaluate interpolation kernel for the outer indices
@@ -131,8 +142,8 @@ namespace Interpolation {
 
     constexpr std::size_t ind_offset = KernelT::support - 1;
     
-    for(std::size_t i1 = outer_int[0] - ind_offset; i1 < outer_int[0] - ind_offset + ksize; i1++) {
-      for(std::size_t i2 = outer_int[1] - ind_offset; i2 < outer_int[1] - ind_offset + ksize; i2++) {
+    for(std::size_t i1 = outer_int[0] - ind_offset; i1 < outer_int[0] - ind_offset + outer_ksize[0]; i1++) {
+      for(std::size_t i2 = outer_int[1] - ind_offset; i2 < outer_int[1] - ind_offset + outer_ksize[1]; i2++) {
 
 	Vector<std::size_t, dims> column_ind(0);
 	column_ind[0] = i1;
@@ -145,7 +156,7 @@ namespace Interpolation {
 	for(std::size_t cur_sample_ind = 0; cur_sample_ind < num_samples; cur_sample_ind++) {
 	  //for(scalar_t cur_inner_ind = inner_ind_start; cur_inner_ind < inner_ind_end; cur_inner_ind += inner_ind_delta) {
 
-	  scalar_t cur_inner_ind = inner_ind_start + cur_sample_ind * inner_ind_delta;
+	  scalar_t cur_inner_ind = std::min(inner_ind_start + cur_sample_ind * inner_ind_delta, max_ind[dims - 1]);
 	  // std::cout << "on inner_elem = " << inner_elem << std::endl;
 	  
 	  scalar_t tmp = 0.0;
@@ -157,7 +168,15 @@ namespace Interpolation {
 	  // at the moment, this recomputes the kernel for every inner interpolation -> need to batch this
 	  scalar_t inner_interp[vec_dims] = {0};
 	  scalar_t inner_kernel[ksize] = {0};
-	  KernelT::kern(inner_frac, inner_kernel);
+
+	  if(inner_frac > 0) {
+	    KernelT::kern(inner_frac, inner_kernel);
+	    interpolate_1d<KernelT, vec_dims>(inner_kernel, column_start + vec_dims * (inner_int - ind_offset), inner_interp);
+	  }
+	  else {
+	    // exactly at a sample, do not touch any of its neighbours (which may lie outside of `arr`)
+	    std::copy_n(column_start + vec_dims * inner_int, vec_dims, inner_interp);
+	  }
 
 	  // std::cout << "inner_kernel = ";
 	  // for(std::size_t ii = 0; ii < ksize; ii++) {
@@ -165,8 +184,6 @@ namespace Interpolation {
 	  // }
 	  // std::cout << std::endl;
 	  
-	  interpolate_1d<KernelT, vec_dims>(inner_kernel, column_start + vec_dims * (inner_int - ind_offset), inner_interp);
-
 	  // std::cout << "inner_interp = ";
 	  // for(std::size_t ii = 0; ii < vec_dims; ii++) {
 	  //   std::cout << inner_interp[ii] << ", ";	    
-- 
2.43.0


From 4b258011c47abad9262315510a9788d20087fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 16/41] fix: rounding of the convolution time must not
 terminate the signal calculation

---
 eisvogel/core/impl/GreensFunction.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 1fa5ad8..506c2df 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -322,8 +322,9 @@ void CylindricalGreensFunction::apply_accumulate(const LineCurrentSegment& seg,
 	// std::cout << "source_rz = " << source_rz[i_pt] << std::endl;
 	// std::cout << "quadrature_weight = " << quadrature_weights[i_pt] << std::endl;
 
-	// The above should make sure we're only interested in the causal part of the Green's function
-	assert(convolution_t_start >= 0.0);
+	// The above should make sure we're only interested in the causal part of the Green's function; take out remaining rounding errors
+	assert(convolution_t_start > -t_sig_samp);
+	convolution_t_start = std::max<scalar_t>(convolution_t_start, 0.0);
 
 	// Make sure we don't run over the end of the vector
 	assert(block_sample_ind_start + block_num_samples <= signal.size());
-- 
2.43.0


From fd57f2dcd60ab399a9eca3987e47d4b105a4acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 17/41] fix: rounding of the range of samples covered by a
 chunk must not terminate the calculation

---
 eisvogel/core/impl/GreensFunction.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index 506c2df..ae551bc 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -399,9 +399,11 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // Make sure to not request more samples than needed
     std::size_t samples_to_request = std::min(chunk_num_samples, num_samples - cur_sample_ind);
 
-    // Ensure that we're not going too far (interpolation end point `cur_t_end_f_ind` is exclusive,
+    // Ensure that we're not going too far because of rounding (interpolation end point `cur_t_end_f_ind` is exclusive,
     // i.e. can reach up to and including the `end_ind` of the chunk)
-    assert(cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind <= RZTIndexVector::t(meta -> end_ind));
+    while((samples_to_request > 1) && (cur_f_ind.t() + (samples_to_request - 1) * t_samp_f_ind > RZTIndexVector::t(meta -> end_ind))) {
+      samples_to_request--;
+    }
     
     // std::cout << "HHHHHHHHH" << std::endl;
     // std::cout << meta << std::endl;
-- 
2.43.0


From 52cf0bd8b692cdc142e44fdbdbe63f6f724951c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 18/41] fix: ignoring samples before the start of the Green's
 function must not drop the later ones

---
 eisvogel/core/impl/GreensFunction.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index ae551bc..eec8efb 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -380,10 +380,12 @@ void CylindricalGreensFunction::accumulate_inner_product(const RZCoordVectorView
     // std::cout << "sample_interval_rzt = " << m_meta.sample_interval_rzt << std::endl;
     
     if(meta == nullptr) {
-      // (Silently) ignore (part of) this track if this is what we're asked to do
+      // (Silently) ignore this sample if this is what we're asked to do; later ones may be inside the domain again
       if(oob_mode == Green::OutOfBoundsBehavior::Ignore) {
 	// std::cout << "WARNING: track outside of Green's function domain; ignored!" << std::endl;
-	return;
+	std::advance(result, 1);
+	cur_sample_ind++;
+	continue;
       }
       throw std::runtime_error("Error: track outside of Green's function domain!");
     }
-- 
2.43.0


From 4e894129719465802a952550166e4fd8f6f70c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 19/41] fix: exporting a Green's function must include its last
 chunks and handle single samples

---
 eisvogel/core/impl/GreensFunction.hxx | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index eec8efb..ce21ea9 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -117,12 +117,12 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
   // Convert `start_pos`, `end_pos` and `sample_interval` into floating-point array indices
   RZTVector start_f_ind = coords_to_index(start_pos);
   RZTVector end_f_ind = coords_to_index(end_pos);  
-  RZTVector stepsize_f_ind = (end_f_ind - start_f_ind) / (num_samples.template as_type<scalar_t>() - 1);
+  RZTVector stepsize_f_ind = (end_f_ind - start_f_ind) / VectorUtils::max(num_samples.template as_type<scalar_t>() - 1, 1.0f);
     
   // Get all chunks that contribute to the range spanned by `start_f_ind` and `end_f_ind`
   RZTIndexVector start_ind = start_f_ind.template as_type<std::size_t>();
   RZTIndexVector end_ind = end_f_ind.template as_type<std::size_t>();
-  std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind);  
+  std::vector<std::reference_wrapper<const metadata_t>> required_chunks = m_index.GetChunks(start_ind, end_ind + 1);  // `end_ind` is also needed
 
   // std::cout << "start_ind = " << start_ind << std::endl;
   // std::cout << "end_ind = " << end_ind << std::endl;
@@ -144,11 +144,25 @@ void CylindricalGreensFunction::fill_array(const RZTCoordVector& start_pos, cons
     RZTVector<scalar_t> chunk_end_f_ind = chunk_meta.end_ind.template as_type<scalar_t>();
 
     // Find the output start and output end indices determined by this chunk
-    RZTVector<scalar_t> output_start_f_ind = (chunk_start_f_ind - start_f_ind) / stepsize_f_ind;
-    RZTVector<scalar_t> output_end_f_ind = (chunk_end_f_ind - start_f_ind) / stepsize_f_ind;
-    
-    RZTIndexVector output_start_ind = VectorUtils::ceil_nonneg(VectorUtils::max(output_start_f_ind, 0.0f));
-    RZTIndexVector output_end_ind = VectorUtils::floor_nonneg(VectorUtils::min(output_end_f_ind + 1, num_samples.template as_type<scalar_t>()));
+    RZTIndexVector output_start_ind(0);
+    RZTIndexVector output_end_ind(num_samples);
+    bool contributes = true;
+    for(std::size_t i = 0; i < Green::DimTraits<CylindricalGreensFunction>::dims; i++) {
+      if(stepsize_f_ind[i] > 0) {
+	scalar_t output_start_f_ind = (chunk_start_f_ind[i] - start_f_ind[i]) / stepsize_f_ind[i];
+	scalar_t output_end_f_ind = (chunk_end_f_ind[i] - start_f_ind[i]) / stepsize_f_ind[i];
+	output_start_ind[i] = (std::size_t)std::ceil(std::clamp<scalar_t>(output_start_f_ind, 0, num_samples[i]));
+	output_end_ind[i] = (std::size_t)std::floor(std::clamp<scalar_t>(output_end_f_ind + 1, 0, num_samples[i]));
+      }
+      // else: all samples have the same coordinate along this axis, which is contained in all of the required chunks
+      
+      contributes = contributes && (output_start_ind[i] < output_end_ind[i]);
+    }
+
+    // No output sample falls into this chunk
+    if(!contributes) {
+      continue;
+    }
 
     // std::cout << chunk_meta << std::endl;
 
-- 
2.43.0


From 70be66513aa113b4c17396eb086a3e224da76bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 20/41] fix: negative arguments of the incomplete gamma
 function must raise an exception that can be caught

---
 eisvogel/core/impl/MathUtils.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/MathUtils.hxx b/eisvogel/core/impl/MathUtils.hxx
index 375e15e..d12503c 100644
--- a/eisvogel/core/impl/MathUtils.hxx
+++ b/eisvogel/core/impl/MathUtils.hxx
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <iostream>
+#include <stdexcept>
 
 namespace MathUtils {
 
@@ -65,7 +66,7 @@ namespace MathUtils {
   scalar_t incomplete_gamma(scalar_t a, scalar_t z, scalar_t rel_tol) {    
 
     if((a < 0) || (z < 0)) {
-      throw;
+      throw std::invalid_argument("Error: incomplete gamma function is not implemented for negative arguments!");
     }
 
     if((z <= 1) || (z < a)) {
-- 
2.43.0


From 01e6e988700eb844fc31f06d9e279dc2b163131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 21/41] fix: sampled domains smaller than one sampling step
 must still be calculated

---
 eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx b/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
index 3b1cddd..9e93f84 100644
--- a/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
+++ b/eisvogel/core/impl/AnalyticGreensFunctionCalculator.hxx
@@ -133,6 +133,7 @@ namespace GreensFunctionCalculator::Analytic {
     // Determine step size so that an integer number of samples fits into the domain of the Green's function
     RZTVector<scalar_t> stepsize_requested{delta_pos, delta_pos, delta_t};
     RZTVector<std::size_t> number_pts = ((end_coords_rzt - start_coords_rzt) / stepsize_requested).template as_type<std::size_t>();
+    number_pts = VectorUtils::max(number_pts, RZTVector<std::size_t>(1));  // (at least one step, also if the domain is smaller than that)
     RZTVector<scalar_t> stepsize = (end_coords_rzt - start_coords_rzt) / number_pts.template as_type<scalar_t>();
     
     // Resulting start- and end indices
-- 
2.43.0


From 60077505858c942f8d1fbdcea5df3ab278ac9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 22/41] fix: report access to elements that are not stored
 instead of dereferencing a null pointer

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 19570a2..5843f86 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1,5 +1,6 @@
 #include <uuid/uuid.h>
 #include <algorithm>
+#include <stdexcept>
 #include <utility>
 #include "DistributedNDVecArray.hh"
 #include "IteratorUtils.hh"
@@ -874,6 +875,9 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
   
   // Get the metadata describing that chunk
   metadata_t* meta = m_index.GetChunk(ind_existing_chunk);
+  if(meta == nullptr) {
+    throw std::out_of_range("Error: there is no chunk to which the slice could be appended!");
+  }
 
   if(meta -> chunk_type != ChunkType::specified) {
 
@@ -919,6 +923,9 @@ ChunkLibrary<ArrayT, T, dims, vec_dims>::view_t ChunkLibrary<ArrayT, T, dims, ve
 
   // Find chunk that holds the element with the required index
   const metadata_t* meta = m_index.GetChunk(ind);
+  if(meta == nullptr) {
+    throw std::out_of_range("Error: no chunk holds the requested element!");
+  }
   
   // Retrieve the chunk
   const chunk_t& chunk = m_cache.RetrieveChunk(*meta);
-- 
2.43.0


From 68320a246c944603851a5bad1d2306e7e89a177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 23/41] fix: replace the chunk index on disk only by a complete
 one, and report errors in reading and writing it

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  1 +
 eisvogel/core/impl/DistributedNDVecArray.hxx | 27 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 3004f0e..efc15e9 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -155,6 +155,7 @@ private:
   
   metadata_t* find_chunk_by_index(const Vector<std::size_t, dims>& ind);   
   id_t get_next_chunk_id();
+  std::filesystem::path get_tmp_index_path() const;
   
   void load_and_rebuild_index();
   std::vector<metadata_t> load_index_entries(std::filesystem::path index_path);
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 5843f86..619f79a 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1,5 +1,6 @@
 #include <uuid/uuid.h>
 #include <algorithm>
+#include <iostream>
 #include <stdexcept>
 #include <utility>
 #include "DistributedNDVecArray.hh"
@@ -509,7 +510,12 @@ ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_
 
 template <std::size_t dims>
 ChunkIndex<dims>::~ChunkIndex() {
-  FlushIndex();
+  try {
+    FlushIndex();
+  }
+  catch(const std::exception& e) {
+    std::cerr << "Error: chunk index could not be written to " << m_index_path << ": " << e.what() << std::endl;
+  }
 }
 
 namespace {
@@ -579,10 +585,17 @@ void ChunkIndex<dims>::FlushIndex() {
   std::vector<metadata_t> chunk_list;
   m_chunk_tree.GetAllEntries(chunk_list);
 
+  // The index on disk must remain intact if anything goes wrong while the new one is being written;
+  // write to a temporary file first and replace the previous index only once it is complete
+  std::filesystem::path tmp_index_path = get_tmp_index_path();
+
   std::fstream ofs;
-  ofs.open(m_index_path, std::ios::out | std::ios::binary);
+  ofs.exceptions(std::ios::failbit | std::ios::badbit);
+  ofs.open(tmp_index_path, std::ios::out | std::ios::binary);
   stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
   ofs.close();
+
+  std::filesystem::rename(tmp_index_path, m_index_path);
 }
 
 template <std::size_t dims>
@@ -594,6 +607,7 @@ void ChunkIndex<dims>::MoveIndex(std::filesystem::path new_index_path) {
   if(std::filesystem::exists(m_index_path)) {
     std::filesystem::remove(m_index_path);
   }
+  std::filesystem::remove(get_tmp_index_path());
   
   // reset the path and flush the index to the new location
   m_index_path = new_index_path;  
@@ -606,6 +620,7 @@ void ChunkIndex<dims>::ClearIndex() {
   if(std::filesystem::exists(m_index_path)) {
     std::filesystem::remove(m_index_path);
   }
+  std::filesystem::remove(get_tmp_index_path());
 
   // reset and clear everything
   invalidate_cached_index_metadata();
@@ -703,6 +718,7 @@ std::vector<ChunkMetadata<dims>> ChunkIndex<dims>::load_index_entries(std::files
   std::cout << "loading index entries from " << index_path << std::endl;
   
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit); // do not continue with an incomplete index
   ifs.open(index_path, std::ios::in | std::ios::binary);
   std::vector<metadata_t> index_entries = stor::Traits<std::vector<metadata_t>>::deserialize(ifs);
   ifs.close();
@@ -748,6 +764,13 @@ Vector<std::size_t, dims> ChunkIndex<dims>::get_overlap_end_ind(const metadata_t
   return overlap_end_ind;
 }
 
+template <std::size_t dims>
+std::filesystem::path ChunkIndex<dims>::get_tmp_index_path() const {
+  std::filesystem::path tmp_index_path = m_index_path;
+  tmp_index_path += ".tmp";
+  return tmp_index_path;
+}
+
 template <std::size_t dims>
 id_t ChunkIndex<dims>::get_next_chunk_id() {
   return m_next_chunk_id++;
-- 
2.43.0


From c81d8ba87903ea96670a1a8782ccde6055fb8329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 24/41] fix: report errors in reading and writing chunks
 instead of continuing with incomplete data

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +
 eisvogel/core/impl/DistributedNDVecArray.hxx | 64 ++++++++++++++++----
 2 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index efc15e9..02e0223 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -279,6 +279,9 @@ private:
 
   void descope_cache_element(cache_entry_t& cache_entry);
 
+  // checks that the data in this (fully synchronized) cache element has the extent recorded in its metadata
+  void assert_complete(const cache_entry_t& cache_entry) const;
+
   std::filesystem::path get_abs_path(const std::filesystem::path& chunk_path);
   
 private:
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 619f79a..04abe76 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -40,7 +40,12 @@ ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir,
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 ChunkCache<ArrayT, T, dims, vec_dims>::~ChunkCache() {
-  FlushCache();
+  try {
+    FlushCache();
+  }
+  catch(const std::exception& e) {
+    std::cerr << "Error: chunks could not be written to " << m_workdir << ": " << e.what() << std::endl;
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -100,7 +105,13 @@ const ChunkCache<ArrayT, T, dims, vec_dims>::chunk_t& ChunkCache<ArrayT, T, dims
       // std::cout << "synchronize with disk" << std::endl;
       
       // The element contained in the cache is not up-to-date; need to synchronize first
-      sync_cache_element_with_disk(cached_chunk);
+      try {
+	sync_cache_element_with_disk(cached_chunk);
+      }
+      catch(...) {
+	m_cache.evict(index);  // do not keep an incomplete chunk
+	throw;
+      }
     }
     
     // Requested element is contained in the cache and is now complete, directly return reference to its data
@@ -108,7 +119,15 @@ const ChunkCache<ArrayT, T, dims, vec_dims>::chunk_t& ChunkCache<ArrayT, T, dims
   }
 
   // Requested element is not yet contained in the cache, need to deserialize it first
-  return deserialize_into_cache(chunk_meta).chunk_data;
+  try {
+    return deserialize_into_cache(chunk_meta).chunk_data;
+  }
+  catch(...) {
+    if(m_cache.contains(index)) {
+      m_cache.evict(index);  // do not keep an incomplete chunk
+    }
+    throw;
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -280,13 +299,15 @@ ChunkCache<ArrayT, T, dims, vec_dims>::cache_entry_t& ChunkCache<ArrayT, T, dims
   
     // Directly deserialize into the cache element
     std::filesystem::path chunk_path = get_abs_path(chunk_meta.filepath);
-    assert(std::filesystem::exists(chunk_path));
     
     std::fstream ifs;
+    ifs.exceptions(std::ios::failbit | std::ios::badbit); // do not continue with a missing or incomplete chunk
     ifs.open(chunk_path, std::ios::in | std::ios::binary);
     ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
     m_streamer.deserialize(ifs, insert_location.chunk_data);
     ifs.close();
+
+    assert_complete(insert_location);
   }
   else if(chunk_meta.chunk_type == ChunkType::all_null) {
 
@@ -338,9 +359,9 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
   }
   
   std::filesystem::path chunk_path = get_abs_path(cache_entry.chunk_meta.filepath);
-  assert(std::filesystem::exists(chunk_path));
   
   std::fstream iofs;
+  iofs.exceptions(std::ios::failbit | std::ios::badbit);
   iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
   iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
 
@@ -356,6 +377,7 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::sync_cache_element_with_disk(cache_e
     // ... then rewind and deserialize the full chunk into the same cache location
     iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     m_streamer.deserialize(iofs, cache_entry.chunk_data);
+    assert_complete(cache_entry);
   }
 
   iofs.close();
@@ -384,20 +406,27 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
   if(std::holds_alternative<CacheStatus::Serialize>(status)) {
     
     // Serialize this chunk
-    std::fstream ofs;
-    ofs.open(chunk_path, std::ios::out | std::ios::binary);
-    ofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
-    m_streamer.serialize(ofs, cache_entry.chunk_data, m_streamer_chunk_size, stor::StreamerMode::null_suppressed);
-    ofs.close();    
+    try {
+      std::fstream ofs;
+      ofs.exceptions(std::ios::failbit | std::ios::badbit);
+      ofs.open(chunk_path, std::ios::out | std::ios::binary);
+      ofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
+      m_streamer.serialize(ofs, cache_entry.chunk_data, m_streamer_chunk_size, stor::StreamerMode::null_suppressed);
+      ofs.close();
+    }
+    catch(...) {
+      std::error_code ec;
+      std::filesystem::remove(chunk_path, ec); // do not leave an incomplete chunk behind
+      throw;
+    }
   }
   else if(std::holds_alternative<CacheStatus::Append>(status)) {
 
     // std::cout << "descope element, append to file on disk" << std::endl;
     
-    assert(std::filesystem::exists(chunk_path));
-    
     // Need to append this to the on-disk chunk
     std::fstream iofs;
+    iofs.exceptions(std::ios::failbit | std::ios::badbit);
     iofs.open(chunk_path, std::ios::in | std::ios::out | std::ios::binary);
     iofs.seekg(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
     iofs.seekp(cache_entry.chunk_meta.start_pos, std::ios_base::beg);
@@ -410,6 +439,14 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::descope_cache_element(cache_entry_t&
   }
 }
 
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+void ChunkCache<ArrayT, T, dims, vec_dims>::assert_complete(const cache_entry_t& cache_entry) const {
+  if(cache_entry.chunk_data.GetShape() != cache_entry.chunk_meta.shape + 2 * cache_entry.chunk_meta.overlap) {
+    throw std::runtime_error("Error: shape of chunk on disk does not match its entry in the chunk index!");
+  }
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 std::filesystem::path ChunkCache<ArrayT, T, dims, vec_dims>::get_abs_path(const std::filesystem::path& chunk_path) {
@@ -1063,8 +1100,9 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::DeleteLibrary() {
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::FlushLibrary() {
-  m_index.FlushIndex();
+  // the index is written last so that it never refers to chunks that are not there yet
   m_cache.FlushCache();
+  m_index.FlushIndex();
 }
 
 
-- 
2.43.0


From a09ca10ff2f192ba18b78611816abdf0816296cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 25/41] fix: an interrupted append must not damage the stored
 array

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 26 +++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index e48934e..4c28b93 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -292,16 +292,28 @@ namespace stor {
     // check if the passed `slice` fits exactly into one or more serialization chunks; no further modifications are allowed if it doesn't
     meta.access_mode = permits_equally_sized_serialization_chunks(slice.m_shape, meta.ser_chunk_shape) ? AccessMode::modification_allowed : AccessMode::modification_not_allowed;
 
-    // update array size after `slice` is appended
-    meta.array_shape[axis] += slice.m_shape[axis];
+    // find the end of the existing serialization chunks; they may be followed by the remains of a previous slice that could not be written completely
+    auto chunk_skipper = [&](const Vector<std::size_t, dims>&, const Vector<std::size_t, dims>&) -> void {
+      NDVecArrayStreamerChunkMetadata chunk_meta = Traits<NDVecArrayStreamerChunkMetadata>::deserialize(stream);
+      stream.seekg(chunk_meta.chunk_size * sizeof(ser_type), std::ios_base::cur);
+    };
+    IteratorUtils::index_loop_over_chunks(shape_t(0), meta.array_shape, meta.ser_chunk_shape, chunk_skipper);
+    std::streampos append_pos = stream.tellg();
 
-    // update metadata on disk
-    stream.seekp(init_pos);
-    Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::serialize(stream, meta);
+    stream.seekg(0, std::ios_base::end);
+    if(stream.tellg() < append_pos) {
+      throw std::runtime_error("Error: trying to append to an incomplete array!");
+    }
 
-    // append new slice to the end of the file
-    stream.seekp(0, std::ios_base::end);
+    // append new slice
+    stream.seekp(append_pos);
     serialize_all_chunks(stream, slice, meta.ser_chunk_shape, mode);
+    stream.flush();
+
+    // update array size and metadata on disk only now that the new slice is complete
+    meta.array_shape[axis] += slice.m_shape[axis];
+    stream.seekp(init_pos);
+    Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::serialize(stream, meta);
   }  
 
   template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From c59c772eaa255b2237786b3369e67d73ea529ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 26/41] fix: refuse unknown streamer modes and serialization
 chunks without extent before anything is written

---
 eisvogel/core/impl/NDVecArrayStreamer.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index 4c28b93..24a3f1d 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -94,11 +94,14 @@ namespace stor {
     m_ser_buffer = std::make_shared<buffer_t>(initial_buffer_size);
   }
 
-  // tests if a serialization chunk is well-formed, i.e. its extent along at least one direction is explicitly specified
+  // tests if a serialization chunk is well-formed, i.e. its extent along at least one direction is explicitly specified and no extent is zero
   template <std::size_t dims>
   bool is_serialization_chunk_well_formed(const Vector<std::size_t, dims>& ser_chunk_shape) {
     std::size_t num_dimensions_specified = 0;
     for(std::size_t ind = 0; ind < dims; ind++) {
+      if(ser_chunk_shape[ind] == 0) {
+	return false;
+      }
       if(ser_chunk_shape[ind] != stor::INFTY) {
 	num_dimensions_specified++;
       }
@@ -106,6 +109,13 @@ namespace stor {
     return num_dimensions_specified >= 1;
   }
 
+  // makes sure that `mode` is available; needs to be checked before anything is written
+  inline void assert_streamer_mode_available(const StreamerMode& mode) {
+    if((mode != StreamerMode::dense) && (mode != StreamerMode::null_suppressed)) {
+      throw std::runtime_error("Error: requested streamer mode not implemented!");
+    }
+  }
+
   // tests if during the serialization of an array with `array_shape` all serialization chunks will have the same shape (as specified by the requested `ser_chunk_shape`,
   // which will be different from the actual serialization chunk size in case stor::INFTY is used in its specification)
   template <std::size_t dims>
@@ -126,6 +136,7 @@ namespace stor {
     if(!is_serialization_chunk_well_formed(ser_chunk_shape)) {
       throw std::runtime_error("Error: requested serialization chunk is not well-formed!");
     }
+    assert_streamer_mode_available(mode);
     
     // check if the passed array can be described by a number of equally-sized serialization chunks ...
     // ... which determines whether or not appending slices on-disk is allowed later
@@ -268,6 +279,8 @@ namespace stor {
 	    typename T, std::size_t dims, std::size_t vec_dims>
   void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
 
+    assert_streamer_mode_available(mode);
+
     // keep track of current (i.e. beginning) location on stream
     std::streampos init_pos = stream.tellg();
     
-- 
2.43.0


From 4e2ed22ddf3593114294150f2f402b605ce0d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 27/41] fix: a slice that cannot be appended must be refused
 before the chunk or its metadata are changed

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  3 +
 eisvogel/core/impl/DistributedNDVecArray.hxx | 97 ++++++++++----------
 eisvogel/core/impl/NDVecArrayStreamer.hh     |  7 ++
 eisvogel/core/impl/NDVecArrayStreamer.hxx    | 34 +++++--
 4 files changed, 81 insertions(+), 60 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 02e0223..6307b7e 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -282,6 +282,9 @@ private:
   // checks that the data in this (fully synchronized) cache element has the extent recorded in its metadata
   void assert_complete(const cache_entry_t& cache_entry) const;
 
+  // checks that a slice can be appended to this chunk on disk
+  void assert_append_allowed(const chunk_meta_t& chunk_meta, const chunk_shape_t& slice_shape, std::size_t axis);
+
   std::filesystem::path get_abs_path(const std::filesystem::path& chunk_path);
   
 private:
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 04abe76..563558a 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -140,69 +140,56 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::AppendSlice(chunk_meta_t& chunk_meta
     throw std::runtime_error("Error: dimensions not compatible for concatenation!");
   }
   
-  // Update the metadata
-  std::size_t shape_growth = slice.GetShape()[axis];
-  chunk_meta.template GrowChunk<axis>(shape_growth);
-  
+  // The slice would end up behind the overlap region
+  if(chunk_meta.overlap > 0) {
+    throw std::runtime_error("Error: appending to chunks with overlap is not supported!");
+  }
+
+  // The metadata of the chunk including the new slice; replaces the current one only if the slice can be appended
+  chunk_meta_t grown_meta(chunk_meta);
+  grown_meta.template GrowChunk<axis>(slice.GetShape()[axis]);
+
   id_t index = chunk_meta.chunk_id;
-  if(!m_cache.contains(index)) {
+  if(m_cache.contains(index)) {
 
-    // std::cout << "AAA: insert into cache as new element with status 'append'" << std::endl;
-    
-    // Cache does not have the chunk to which the new slice should be appended; simply insert the slice as a new element into the cache using the `append` status
-    // so that it will be appended to disk whenever it goes out of scope
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
+    // Cache already contains the chunk, how to proceed depends on its status
+    cache_entry_t& cached_chunk = m_cache.get(index);
+    status_t& status = cached_chunk.op_to_perform;
+
+    // The cache either contains a chunk that is to be serialized from scratch, or one that is already scheduled for concatenation with
+    // the on-disk chunk along the same axis; just concatenate in memory and write to disk whenever this chunk is evicted from the cache
+    // (concatenation in memory is only available along the first axis)
+    if((axis == 0) && (std::holds_alternative<CacheStatus::Serialize>(status) ||
+		       (std::holds_alternative<CacheStatus::Append>(status) && (std::get<CacheStatus::Append>(status).axis == axis)))) {
 
-    // Immediately synchronize to disk if we're asked to operate without cache
-    if(m_cache_size == 0) {      
-      FlushCache();
+      cached_chunk.chunk_data.template Append<axis>(slice);
+      cached_chunk.chunk_meta = grown_meta;
+      chunk_meta = grown_meta;
+
+      // Immediately synchronize to disk if we're asked to operate without cache
+      if(m_cache_size == 0) {
+	FlushCache();
+      }
+      return;
     }
-    
-    return;
-  }
 
-  // Cache already contains the chunk, how to proceed depends on its status
-  cache_entry_t& cached_chunk = m_cache.get(index);
-  status_t& status = cached_chunk.op_to_perform;
-  if(std::holds_alternative<CacheStatus::Nothing>(status)) {
-    
-    // The chunk is in the cache, but is marked as being in sync with the information on disk.
-    // Remove it from the cache ...
+    // The chunk is in the cache, but is either in sync with the information on disk or there is another operation outstanding;
+    // finish this operation and remove the chunk from the cache
+    descope_cache_element(cached_chunk);
     m_cache.evict(index);
-    
-    // ... and insert it with `append` status, as done above
-    insert_into_cache(chunk_meta, slice, CacheStatus::Append(axis));
   }
-  else if(std::holds_alternative<CacheStatus::Serialize>(status)) {
 
-    // std::cout << "AAA: concatenated in memory to serialize" << std::endl;
-    
-    // The cache already contains a chunk that is to be serialized from scratch; just concatenate in memory and write to disk whenever
-    // this chunk is evicted from the cache
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);      
-  }
-  else if(std::holds_alternative<CacheStatus::Append>(status)) {
-
-    // std::cout << "AAA: concatenated in memory to append" << std::endl;
-    
-    // The cache already contains a chunk scheduled for concatenation with the on-disk chunk
-    if(std::get<CacheStatus::Append>(status).axis != axis) {
-      
-      // Concatenation axis changed, need to synchronize
-      sync_cache_element_with_disk(cached_chunk);
-      cached_chunk.op_to_perform = CacheStatus::Append(axis); // record the new concatenation axis
-    }
+  // Make sure that the on-disk chunk allows this slice to be appended
+  assert_append_allowed(chunk_meta, slice.GetShape(), axis);
 
-    // Now have the fully up-to date chunk in the cache, can append
-    cached_chunk.chunk_meta = chunk_meta;
-    cached_chunk.chunk_data.template Append<axis>(slice);
-  }
+  // Insert the slice as a new element into the cache using the `append` status so that it will be appended to disk whenever it goes out of scope
+  insert_into_cache(grown_meta, slice, CacheStatus::Append(axis));
 
   // Immediately synchronize to disk if we're asked to operate without cache
-  if(m_cache_size == 0) {      
+  if(m_cache_size == 0) {
     FlushCache();
   }
+  chunk_meta = grown_meta;
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -447,6 +434,16 @@ void ChunkCache<ArrayT, T, dims, vec_dims>::assert_complete(const cache_entry_t&
   }
 }
 
+template <template<typename, std::size_t, std::size_t> class ArrayT,
+	  typename T, std::size_t dims, std::size_t vec_dims>
+void ChunkCache<ArrayT, T, dims, vec_dims>::assert_append_allowed(const chunk_meta_t& chunk_meta, const chunk_shape_t& slice_shape, std::size_t axis) {
+  std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit);
+  ifs.open(get_abs_path(chunk_meta.filepath), std::ios::in | std::ios::binary);
+  ifs.seekg(chunk_meta.start_pos, std::ios_base::beg);
+  m_streamer.assert_append_allowed(ifs, slice_shape, axis);
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 std::filesystem::path ChunkCache<ArrayT, T, dims, vec_dims>::get_abs_path(const std::filesystem::path& chunk_path) {
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hh b/eisvogel/core/impl/NDVecArrayStreamer.hh
index 7f3c3d3..22be94a 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hh
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hh
@@ -42,6 +42,8 @@ namespace stor {
     // The type of the serialized data
     using ser_type = Traits<T>::ser_type;
 
+    using metadata_t = NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>;
+
     // Note: if the calls to std::vector<ser_type>::resize ever become the bottleneck due to
     // repeated zero initialization of all ements, replace with something else
     // (the initial values are overwritten anyways on any read from disk, so no
@@ -59,8 +61,13 @@ namespace stor {
 
     void append_slice(std::fstream& stream, const type& chunk, std::size_t axis, const StreamerMode& mode);
 
+    // Throws if the array stored in `stream` does not allow appending a slice with `slice_shape` along `axis`
+    void assert_append_allowed(std::fstream& stream, const shape_t& slice_shape, std::size_t axis);
+
   private:
 
+    static void assert_append_allowed(const metadata_t& meta, const shape_t& slice_shape, std::size_t axis);
+
     void serialize_all_chunks(std::fstream& stream, const type& val, const shape_t& chunk_size, const StreamerMode& mode);
     void serialize_all_chunks_dense(std::fstream& stream, const type& val, const shape_t& chunk_size);
     void serialize_all_chunks_null_suppressed(std::fstream& stream, const type& val, const shape_t& chunk_size);
diff --git a/eisvogel/core/impl/NDVecArrayStreamer.hxx b/eisvogel/core/impl/NDVecArrayStreamer.hxx
index 24a3f1d..8e63e56 100644
--- a/eisvogel/core/impl/NDVecArrayStreamer.hxx
+++ b/eisvogel/core/impl/NDVecArrayStreamer.hxx
@@ -277,22 +277,14 @@ namespace stor {
 
   template <template<typename, std::size_t, std::size_t> class ArrayT,
 	    typename T, std::size_t dims, std::size_t vec_dims>
-  void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
-
-    assert_streamer_mode_available(mode);
-
-    // keep track of current (i.e. beginning) location on stream
-    std::streampos init_pos = stream.tellg();
-    
-    // deserialize array-wide metadata
-    NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims> meta = Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::deserialize(stream);
+  void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::assert_append_allowed(const metadata_t& meta, const shape_t& slice_shape, std::size_t axis) {
 
     if(meta.access_mode == AccessMode::modification_not_allowed) {
       throw std::runtime_error("Error: trying to modify an array that cannot be modified!");
     }
 
     // need to make sure that the new slice has the right dimensions for appending to the array along the prescribed axis
-    if(!ArrayT<T, dims, vec_dims>::template ShapeAllowsConcatenation(meta.array_shape, slice.m_shape, axis)) {
+    if(!ArrayT<T, dims, vec_dims>::template ShapeAllowsConcatenation(meta.array_shape, slice_shape, axis)) {
       throw std::runtime_error("Error: dimensions not compatible for concatenation!");
     }
 
@@ -300,6 +292,28 @@ namespace stor {
     if(!permits_appending_along_axis(meta.array_shape, meta.ser_chunk_shape, axis)) {
       throw std::runtime_error("Error: serialization chunks of the array do not allow appending along this axis!");
     }
+  }
+
+  template <template<typename, std::size_t, std::size_t> class ArrayT,
+	    typename T, std::size_t dims, std::size_t vec_dims>
+  void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::assert_append_allowed(std::fstream& stream, const shape_t& slice_shape, std::size_t axis) {
+    metadata_t meta = Traits<metadata_t>::deserialize(stream);
+    assert_append_allowed(meta, slice_shape, axis);
+  }
+
+  template <template<typename, std::size_t, std::size_t> class ArrayT,
+	    typename T, std::size_t dims, std::size_t vec_dims>
+  void NDVecArrayStreamer<ArrayT, T, dims, vec_dims>::append_slice(std::fstream& stream, const type& slice, std::size_t axis, const StreamerMode& mode) {
+
+    assert_streamer_mode_available(mode);
+
+    // keep track of current (i.e. beginning) location on stream
+    std::streampos init_pos = stream.tellg();
+    
+    // deserialize array-wide metadata
+    NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims> meta = Traits<NDVecArrayStreamerMetadata<ArrayT, T, dims, vec_dims>>::deserialize(stream);
+
+    assert_append_allowed(meta, slice.m_shape, axis);
 
     // update metadata
     // check if the passed `slice` fits exactly into one or more serialization chunks; no further modifications are allowed if it doesn't
-- 
2.43.0


From fc329c03db699124fc288f4dda3c642f043a4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 28/41] fix: default to serialization chunks that can be stored
 and refuse invalid ones right away

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 563558a..876f06a 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -22,12 +22,23 @@ CacheEntry<ArrayT, T, dims, vec_dims>& CacheEntry<ArrayT, T, dims, vec_dims>::op
 
 // --------------
 
+namespace {
+
+  // Serialization chunks that extend over the full array along all axes, except for the first one
+  template <std::size_t dims>
+  Vector<std::size_t, dims> get_default_streamer_chunk_size() {
+    Vector<std::size_t, dims> streamer_chunk_size(stor::INFTY);
+    streamer_chunk_size[0] = 1;
+    return streamer_chunk_size;
+  }
+}
+
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir, std::size_t cache_size, std::size_t init_cache_el_linear_size,
 						  std::size_t initial_buffer_size) :
   ChunkCache(workdir, cache_size, Vector<std::size_t, dims>(init_cache_el_linear_size),
-	     Vector<std::size_t, dims>(stor::INFTY), initial_buffer_size) { }
+	     get_default_streamer_chunk_size<dims>(), initial_buffer_size) { }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
@@ -35,7 +46,13 @@ ChunkCache<ArrayT, T, dims, vec_dims>::ChunkCache(std::filesystem::path workdir,
 						  const Vector<std::size_t, dims>& streamer_chunk_size, std::size_t initial_buffer_size) :
   m_workdir(std::filesystem::absolute(workdir)), m_streamer_chunk_size(streamer_chunk_size),
   m_cache(std::max((std::size_t)1, cache_size), init_cache_el_shape), m_cache_size(cache_size), // have a cache of at least one element, but keep track of the case where we're asked to operate with no cache at all
-  m_streamer(initial_buffer_size) { }
+  m_streamer(initial_buffer_size) {
+
+  // nothing could be stored with serialization chunks that the streamer cannot handle
+  if(!stor::is_serialization_chunk_well_formed(m_streamer_chunk_size)) {
+    throw std::runtime_error("Error: `streamer_chunk_size` does not describe valid serialization chunks!");
+  }
+}
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
@@ -873,7 +890,7 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 ChunkLibrary<ArrayT, T, dims, vec_dims>::ChunkLibrary(std::filesystem::path libdir, std::size_t cache_size,
 						      std::size_t init_cache_el_linear_size) :
   ChunkLibrary(libdir, cache_size, Vector<std::size_t, dims>(init_cache_el_linear_size),
-	       Vector<std::size_t, dims>(stor::INFTY)) { }
+	       get_default_streamer_chunk_size<dims>()) { }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
-- 
2.43.0


From 600227451d0141f83a0ca896584b636b811905d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 29/41] fix: chunks or output arrays of the wrong shape must be
 refused also if assertions are disabled

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 876f06a..6e33189 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -911,7 +911,9 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::RegisterChunk(const chunk_t& chunk, const ind_t& start_ind, const ind_t& end_ind, std::size_t overlap,
 							    const ChunkHints& hints) {
 
-  assert(chunk.GetShape() == end_ind - start_ind + 2 * overlap);
+  if(chunk.GetShape() != end_ind - start_ind + 2 * overlap) {
+    throw std::runtime_error("Error: shape of the chunk does not match its index range!");
+  }
 
   // Determine which type should be given to this chunk
   ChunkType chunk_type = ChunkType::specified;
@@ -1013,8 +1015,9 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::FillArray(chunk_t& array, const ind_t& input_start, const ind_t& input_end, const ind_t& output_start) {
 
   // Make sure the full range is available in the target array
-  assert(array.has_index(output_start));
-  assert(array.has_index(output_start + (input_end - input_start) - 1));
+  if(!array.has_index(output_start) || !array.has_index(output_start + (input_end - input_start) - 1)) {
+    throw std::out_of_range("Error: requested range does not fit into the output array!");
+  }
   
   // Go through all chunks, find overlaps with the targeted region, and fill these into the target array
   
-- 
2.43.0


From 93ec70b87d5a87ea854c2ea4ab2b719176041bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 30/41] fix: a library must not be moved onto itself or onto
 another one, or imported into itself

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 24 +++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 6e33189..9386857 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1079,6 +1079,14 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::MoveLibrary(std::filesystem::path new_libdir) {
 
+  // do not move the library onto itself or overwrite another one
+  if(std::filesystem::exists(new_libdir) && std::filesystem::equivalent(m_libdir, new_libdir)) {
+    throw std::runtime_error("Error: library is already located in this directory!");
+  }
+  if(std::filesystem::exists(new_libdir / m_index_filename)) {
+    throw std::runtime_error("Error: directory already contains a library!");
+  }
+
   // prepare the new directory
   if(!std::filesystem::exists(new_libdir)) {
     std::filesystem::create_directory(new_libdir);
@@ -1088,10 +1096,13 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::MoveLibrary(std::filesystem::path
   m_cache.MoveCache(new_libdir);
   m_index.MoveIndex(new_libdir / m_index_filename);
 
-  // delete the old directory
-  std::filesystem::remove(m_libdir);
-
+  std::filesystem::path old_libdir = m_libdir;
   m_libdir = new_libdir;
+
+  // delete the old directory, unless it also holds something that does not belong to this library
+  if(std::filesystem::is_empty(old_libdir)) {
+    std::filesystem::remove(old_libdir);
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
@@ -1127,6 +1138,13 @@ template <template<typename, std::size_t, std::size_t> class ArrayT,
 	  typename T, std::size_t dims, std::size_t vec_dims>
 void ChunkLibrary<ArrayT, T, dims, vec_dims>::ImportLibrary(std::filesystem::path libdir, bool move) {
 
+  if(!std::filesystem::exists(libdir / m_index_filename)) {
+    throw std::runtime_error("Error: there is no library to import in this directory!");
+  }
+  if(std::filesystem::equivalent(m_libdir, libdir)) {
+    throw std::runtime_error("Error: library cannot be imported into itself!");
+  }
+
   // import and merge both the chunk index and the "cache"
   m_index.ImportIndex(libdir / m_index_filename, move);
   m_cache.ImportCache(libdir, move);
-- 
2.43.0


From f94b5c2793fd864604e87305bf9ee887c75f6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 31/41] fix: do not open a Green's function without its
 metadata

---
 eisvogel/core/impl/GreensFunction.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eisvogel/core/impl/GreensFunction.hxx b/eisvogel/core/impl/GreensFunction.hxx
index ce21ea9..9ed414b 100644
--- a/eisvogel/core/impl/GreensFunction.hxx
+++ b/eisvogel/core/impl/GreensFunction.hxx
@@ -501,6 +501,7 @@ RZTCoordVector CylindricalGreensFunction::coords_to_index(const RZTCoordVector&
 
 void CylindricalGreensFunction::save_metadata() {
   std::fstream ofs;
+  ofs.exceptions(std::ios::failbit | std::ios::badbit);
   ofs.open(m_meta_path, std::ios::out | std::ios::binary);
   stor::Traits<CylindricalGreensFunctionMetadata>::serialize(ofs, m_meta);
   ofs.close();
@@ -508,6 +509,7 @@ void CylindricalGreensFunction::save_metadata() {
 
 void CylindricalGreensFunction::load_metadata() {  
   std::fstream ifs;
+  ifs.exceptions(std::ios::failbit | std::ios::badbit); // do not continue with incomplete metadata
   ifs.open(m_meta_path, std::ios::in | std::ios::binary);
   m_meta = stor::Traits<CylindricalGreensFunctionMetadata>::deserialize(ifs);
   ifs.close();
-- 
2.43.0


From 20ae235434f1a682839ab7dbb46d6a0e517c76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 32/41] fix: rebuilding chunks must not delete other files in
 the temporary directory or write into the original array

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 22 +++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 9386857..3000503 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1309,6 +1309,15 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunksPartial(cons
 									    std::size_t overlap, BoundaryCallableT&& boundary_evaluator,
 									    const ChunkHints& hints) {
 
+  for(std::size_t dim = 0; dim < dims; dim++) {
+    if(requested_chunk_shape[dim] == 0) {
+      throw std::runtime_error("Error: requested chunks must have a nonzero extent along all directions!");
+    }
+  }
+  if(std::filesystem::exists(outdir) && std::filesystem::equivalent(outdir, m_library.GetLibdir())) {
+    throw std::runtime_error("Error: rebuilt chunks must not be written into the directory of the original array!");
+  }
+
   // prepare the output library containing the rebuilt chunks
   ind_t streamer_chunk_size(stor::INFTY);
   streamer_chunk_size[0] = 1;
@@ -1457,18 +1466,25 @@ void DistributedNDVecArray<ArrayT, T, dims, vec_dims>::RebuildChunks(const ind_t
   if(m_library.GetShape() != global_end_ind - global_start_ind) {
     throw std::runtime_error("Error: chunks do not cover a contiguous region, cannot be rebuilt!");
   }
+
+  // There may be other files in `tmpdir`, so work in (and, at the end, delete) a new directory in there
+  bool tmpdir_created = std::filesystem::create_directory(tmpdir);
+  std::filesystem::path rebuild_dir = tmpdir / get_chunkfile_path();
   
-  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, tmpdir, overlap, boundary_evaluator, hints);
+  RebuildChunksPartial(global_start_ind, global_end_ind, requested_chunk_shape, rebuild_dir, overlap, boundary_evaluator, hints);
 
   // Clear the contents of the original library ...
   m_library.ClearLibrary();
 
   // ... pull in the contents of the rebuilt one ...
-  m_library.ImportLibrary(tmpdir);
+  m_library.ImportLibrary(rebuild_dir);
   m_library.FlushLibrary();
 
   // ... and delete the temporary directory
-  std::filesystem::remove_all(tmpdir);
+  std::filesystem::remove_all(rebuild_dir);
+  if(tmpdir_created) {
+    std::filesystem::remove(tmpdir);
+  }
 }
 
 template <template<typename, std::size_t, std::size_t> class ArrayT,
-- 
2.43.0


From cd614377841d3d7fd87390c5cc16157f8daecbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 33/41] fix: refuse to append a slice that is not located
 directly behind a chunk

---
 eisvogel/core/impl/DistributedNDVecArray.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 3000503..644f816 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -955,6 +955,13 @@ void ChunkLibrary<ArrayT, T, dims, vec_dims>::AppendSlice(const ind_t& start_ind
     throw std::out_of_range("Error: there is no chunk to which the slice could be appended!");
   }
 
+  // The slice must be located directly behind that chunk
+  ind_t expected_start_ind = meta -> start_ind;
+  expected_start_ind[axis] = meta -> end_ind[axis];
+  if(start_ind != expected_start_ind) {
+    throw std::runtime_error("Error: slice is not located at the end of a chunk!");
+  }
+
   if(meta -> chunk_type != ChunkType::specified) {
 
     // This is not yet a fully-specified chunk; depending on `hints`, might need to promote it to a fully-specified chunk here
-- 
2.43.0


From 340bf0ccc58847571b595d35c59bab5df45301c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:08 +0000
Subject: [PATCH 34/41] fix: a refused region must not be taken over

---
 eisvogel/core/impl/Geometry.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/eisvogel/core/impl/Geometry.hxx b/eisvogel/core/impl/Geometry.hxx
index 34c1cbe..2ab5365 100644
--- a/eisvogel/core/impl/Geometry.hxx
+++ b/eisvogel/core/impl/Geometry.hxx
@@ -8,11 +8,7 @@ CylinderRegion::CylinderRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, s
 }
 
 void CylinderRegion::SetRegion(scalar_t r_min, scalar_t r_max, scalar_t z_min, scalar_t z_max) {
-  m_r_min = r_min;
-  m_r_max = r_max;
-  m_z_min = z_min;
-  m_z_max = z_max;
-  throw_if_unphysical();
+  *this = CylinderRegion(r_min, r_max, z_min, z_max);  // throws without changing this region if unphysical
 }
 
 void CylinderRegion::throw_if_unphysical() {
-- 
2.43.0


From 0da9ade587b161bbc6be01ca3f2a46649993daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:55 +0000
Subject: [PATCH 35/41] fix: scale the charge excess also for the first point
 of a shower

---
 extern/shower_profile/shower_1D/shower_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/shower_profile/shower_1D/shower_1D.cpp b/extern/shower_profile/shower_1D/shower_1D.cpp
index 6fdc400..d4a1ca3 100644
--- a/extern/shower_profile/shower_1D/shower_1D.cpp
+++ b/extern/shower_profile/shower_1D/shower_1D.cpp
@@ -61,7 +61,7 @@ void showers::Shower1D::get_shower(
 	(*x)[0] = start_position[0];
 	(*y)[0] = start_position[1];
 	(*z)[0] = start_position[2];
-	(*ce)[0] = charge_excess_profile.charge_excess[0];
+	(*ce)[0] = charge_excess_profile.charge_excess[0] * charge_excess_profile_scaling;
 	integrated_grammage = 0;
 	int grammage_i = 0;
 	double delta_ce;
-- 
2.43.0


From ae3c9b225dbff05be410e763c0020f8fca440612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 36/41] fix: pick a randomly selected shower from those that
 exist

---
 extern/shower_profile/shower_creator/shower_creator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 3f7c739..1b22b5f 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -52,6 +52,9 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 		int had,
 		int i_shower
 		) {
+	if (stored_energies[had].empty()) {
+		throw std::runtime_error("Error: there are no showers of the requested type!");
+	}
 	double closest_energy = stored_energies[had][0];
 	double energy_diff = std::abs(en - stored_energies[had][0]);
 	for (int i=1; i < stored_energies[had].size(); i++) {
@@ -64,18 +67,18 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 	if (i_shower < 0) {
 		std::random_device rand_dev;
 		std::default_random_engine generator(rand_dev());
-		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size());
+		std::uniform_int_distribution<int> dist(0, ce_profiles[had][closest_energy].size() - 1);
 		shower_index = dist(generator);
 	} else {
 		shower_index = i_shower;
 	}
-        std::cout << "Pick shower " << i_shower << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
+        std::cout << "Pick shower " << shower_index << " out of " << ce_profiles[had][closest_energy].size() << " showers. \n";
 	return showers::Shower1D(
 			pos,
 			en,
 			zen,
 			az,
-			ce_profiles[had][closest_energy][i_shower],
+			ce_profiles[had][closest_energy].at(shower_index),
 			en / closest_energy,
 			density_profile
 	);
-- 
2.43.0


From c792dec67d1e4aee521af8631a6a7c551728bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 37/41] fix: do not add a profile that could not be read from
 the shower file

---
 .../shower_creator/shower_creator.cpp         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/extern/shower_profile/shower_creator/shower_creator.cpp b/extern/shower_profile/shower_creator/shower_creator.cpp
index 1b22b5f..63772f7 100644
--- a/extern/shower_profile/shower_creator/shower_creator.cpp
+++ b/extern/shower_profile/shower_creator/shower_creator.cpp
@@ -19,6 +19,9 @@ showers::ShowerCreator::ShowerCreator(
 	int reading_complete = 0;
 	int N;
 	FILE * pFile = fopen(shower_file.c_str(), "rb");
+	if (pFile == NULL) {
+		throw std::runtime_error("Error: cannot open shower file!");
+	}
 	ce_profiles[0] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	ce_profiles[1] = std::map<double, std::vector<showers::ChargeExcessProfile>>();
 	
@@ -32,6 +35,9 @@ showers::ShowerCreator::ShowerCreator(
 				&profile.grammage,
 				&profile.charge_excess
 				);
+		if (reading_complete != 0) {
+			break; // there was nothing left to read
+		}
 		int find_shower = ce_profiles[profile.hadronic].count(profile.energy);
 		if (find_shower == 0) {
 			ce_profiles[profile.hadronic][profile.energy] = std::vector<showers::ChargeExcessProfile>();
@@ -87,16 +93,21 @@ showers::Shower1D showers::ShowerCreator::create_shower(
 int showers::ShowerCreator::read_shower(FILE *f, int *N, int *hadronic, double *E, std::vector<double> *grammage, std::vector<double> *q)
 {
 	if (fread(N, sizeof(uint32_t),1,f) == 0) return 1;
-	fread(hadronic, sizeof(uint32_t), 1, f);
-	fread(E, sizeof(double),1,f);
+	if (fread(hadronic, sizeof(uint32_t), 1, f) != 1 || fread(E, sizeof(double),1,f) != 1 || *N <= 0) {
+		throw std::runtime_error("Error: shower file is incomplete!");
+	}
 	grammage -> resize(*N);
 	q -> resize(*N);
-	fread(&((*grammage)[0]), sizeof(double),*N,f);
+	if (fread(&((*grammage)[0]), sizeof(double),*N,f) != *N) {
+		throw std::runtime_error("Error: shower file is incomplete!");
+	}
 	for (int i=0; i < (*grammage).size(); i++) {
 		(*grammage)[i] = (*grammage)[i] * units::kilogram / units::square_meter;
 		
 	}
-	fread(&((*q)[0]), sizeof(double), *N, f);
+	if (fread(&((*q)[0]), sizeof(double), *N, f) != *N) {
+		throw std::runtime_error("Error: shower file is incomplete!");
+	}
         
 	return 0;
 }
-- 
2.43.0


From 76c374ddb656f20ce7c1c70e5549afb4b6664478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 38/41] fix: compare the size of the simulated domain in the
 precision in which it was checked

---
 .../meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 76ba4da..b460270 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -512,8 +512,8 @@ namespace GreensFunctionCalculator::MEEP {
     };
 
     // Communicate back which region we are actually storing now
-    assert(calc_domain_shape.z() == m_geom.GetZSize() * resolution);
-    assert(calc_domain_shape.r() == m_geom.GetRSize() * resolution);
+    assert((scalar_t)(calc_domain_shape.z()) == (scalar_t)(m_geom.GetZSize() * resolution));
+    assert((scalar_t)(calc_domain_shape.r()) == (scalar_t)(m_geom.GetRSize() * resolution));
     
     ZRIndexVector storage_domain_end_ind = storage_domain_start_ind + storage_domain_shape;
 
-- 
2.43.0


From 42c9295966a8aabe6ce317fe84c7369088ee3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 39/41] fix: advertise the distance between the samples that
 the simulation stored

---
 .../meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index b460270..43d4bb5 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -811,14 +811,15 @@ namespace GreensFunctionCalculator::MEEP {
       // Fourth stage: create the actual Green's function object
       using darr_t = typename SpatialSymmetry::Cylindrical<scalar_t>::darr_t;
       darr_t darr(outdir);
-      RZTVector<std::size_t> darr_shape = darr.GetShape();
 
       RZTCoordVector storage_start_coords(mpi_calc_res.region_stored.GetRMin(), mpi_calc_res.region_stored.GetZMin(), (scalar_t)0.0);
       RZTCoordVector storage_end_coords(mpi_calc_res.region_stored.GetRMax(), mpi_calc_res.region_stored.GetZMax(), m_t_end);
             
       std::cout << "Green's function with storage_start = " << storage_start_coords << " and storage_end = " << storage_end_coords << std::endl;
       
-      RZTCoordVector step_size = (storage_end_coords - storage_start_coords) / (darr_shape.template as_type<scalar_t>() - 1);
+      // The distance between the stored samples is independent of the size of the stored region
+      scalar_t step_size_rz = downsampling_on_disk / resolution;
+      RZTCoordVector step_size(step_size_rz, step_size_rz, (scalar_t)timestep);
       CylindricalGreensFunction(storage_start_coords, storage_end_coords, step_size, std::move(darr));
     }
   }
-- 
2.43.0


From c276b7edb74872fb5e68f1e220068bf62db1a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 40/41] fix: rounding errors in the time of the simulation must
 not drop the last sample

---
 eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
index 43d4bb5..18076d6 100644
--- a/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
+++ b/eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx
@@ -579,7 +579,7 @@ namespace GreensFunctionCalculator::MEEP {
     
     // Main simulation loop
     std::size_t stepcnt = 0;
-    for(double cur_t = 0.0; cur_t <= m_t_end; cur_t += timestep) {
+    for(double cur_t = 0.0; cur_t <= m_t_end; cur_t = stepcnt * timestep) {  // do not accumulate rounding errors
       
       // Time-step the fields
       while (meep_f -> time() < cur_t) {
-- 
2.43.0


From 53558173adff1c710c4ac6d77f58ae9da371662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:59 +0000
Subject: [PATCH 41/41] fix: reading must not rewrite the chunk index

---
 eisvogel/core/impl/DistributedNDVecArray.hh  |  4 +++
 eisvogel/core/impl/DistributedNDVecArray.hxx | 28 +++++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/eisvogel/core/impl/DistributedNDVecArray.hh b/eisvogel/core/impl/DistributedNDVecArray.hh
index 6307b7e..71401cb 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hh
+++ b/eisvogel/core/impl/DistributedNDVecArray.hh
@@ -156,6 +156,7 @@ private:
   metadata_t* find_chunk_by_index(const Vector<std::size_t, dims>& ind);   
   id_t get_next_chunk_id();
   std::filesystem::path get_tmp_index_path() const;
+  std::string serialize_index();
   
   void load_and_rebuild_index();
   std::vector<metadata_t> load_index_entries(std::filesystem::path index_path);
@@ -165,6 +166,9 @@ private:
   id_t m_next_chunk_id;
   std::filesystem::path m_index_path;
 
+  // The content of the index as it was last read from or written to disk
+  std::string m_stored_index_data;
+
   // Overall metadata describing chunk index
   bool m_index_metadata_valid;
   shape_t m_shape;
diff --git a/eisvogel/core/impl/DistributedNDVecArray.hxx b/eisvogel/core/impl/DistributedNDVecArray.hxx
index 644f816..e22fbf7 100644
--- a/eisvogel/core/impl/DistributedNDVecArray.hxx
+++ b/eisvogel/core/impl/DistributedNDVecArray.hxx
@@ -1,6 +1,7 @@
 #include <uuid/uuid.h>
 #include <algorithm>
 #include <iostream>
+#include <sstream>
 #include <stdexcept>
 #include <utility>
 #include "DistributedNDVecArray.hh"
@@ -556,6 +557,7 @@ ChunkIndex<dims>::ChunkIndex(std::filesystem::path index_path, std::size_t init_
   // Already have an index file on disk, load it
   if(std::filesystem::exists(m_index_path)) {
     load_and_rebuild_index();
+    m_stored_index_data = serialize_index();
   }
 }
 
@@ -632,9 +634,12 @@ void ChunkIndex<dims>::UpdateChunkInIndex(const metadata_t& previous_meta, const
 template <std::size_t dims>
 void ChunkIndex<dims>::FlushIndex() {
 
-  // Fetch all tree entries for easy serialization
-  std::vector<metadata_t> chunk_list;
-  m_chunk_tree.GetAllEntries(chunk_list);
+  // Nothing to do if the index on disk is already up to date. In particular, reading must not touch it:
+  // others may be using (or may have extended) the same library in the meantime
+  std::string index_data = serialize_index();
+  if(index_data == m_stored_index_data && std::filesystem::exists(m_index_path)) {
+    return;
+  }
 
   // The index on disk must remain intact if anything goes wrong while the new one is being written;
   // write to a temporary file first and replace the previous index only once it is complete
@@ -643,10 +648,11 @@ void ChunkIndex<dims>::FlushIndex() {
   std::fstream ofs;
   ofs.exceptions(std::ios::failbit | std::ios::badbit);
   ofs.open(tmp_index_path, std::ios::out | std::ios::binary);
-  stor::Traits<std::vector<metadata_t>>::serialize(ofs, chunk_list);
+  ofs.write(index_data.data(), index_data.size());
   ofs.close();
 
   std::filesystem::rename(tmp_index_path, m_index_path);
+  m_stored_index_data = index_data;
 }
 
 template <std::size_t dims>
@@ -662,6 +668,7 @@ void ChunkIndex<dims>::MoveIndex(std::filesystem::path new_index_path) {
   
   // reset the path and flush the index to the new location
   m_index_path = new_index_path;  
+  m_stored_index_data.clear();
   FlushIndex();
 }
 
@@ -672,6 +679,7 @@ void ChunkIndex<dims>::ClearIndex() {
     std::filesystem::remove(m_index_path);
   }
   std::filesystem::remove(get_tmp_index_path());
+  m_stored_index_data.clear();
 
   // reset and clear everything
   invalidate_cached_index_metadata();
@@ -815,6 +823,18 @@ Vector<std::size_t, dims> ChunkIndex<dims>::get_overlap_end_ind(const metadata_t
   return overlap_end_ind;
 }
 
+template <std::size_t dims>
+std::string ChunkIndex<dims>::serialize_index() {
+
+  // Fetch all tree entries for easy serialization
+  std::vector<metadata_t> chunk_list;
+  m_chunk_tree.GetAllEntries(chunk_list);
+
+  std::stringstream stream(std::ios::in | std::ios::out | std::ios::binary);
+  stor::Traits<std::vector<metadata_t>>::serialize(stream, chunk_list);
+  return stream.str();
+}
+
 template <std::size_t dims>
 std::filesystem::path ChunkIndex<dims>::get_tmp_index_path() const {
   std::filesystem::path tmp_index_path = m_index_path;
-- 
2.43.0

