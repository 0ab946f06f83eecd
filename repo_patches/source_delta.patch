From b4cceabfe9a17f241d5770082278147380843355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:05 +0000
Subject: [PATCH 01/60] fix: keep the send buffers of partition for coarsening
 until the sends completed

t8_forest_pfc_message::mpi_Isend freed the buffer of a nonblocking send right
after posting it.
---
 .../t8_forest_partition_for_coarsening.cxx          | 13 +++++++++----
 src/t8_forest/t8_forest_pfc_message.hxx             | 11 ++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition_for_coarsening.cxx b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
index 986d81a..27cf00c 100644
--- a/src/t8_forest/t8_forest_partition_for_coarsening.cxx
+++ b/src/t8_forest/t8_forest_partition_for_coarsening.cxx
@@ -112,10 +112,12 @@ get_relevant_process_range (const t8_gloidx_t *partition_old, const t8_procidx_t
  * \param[out]  requests  the MPI requests as std::vector
  *                          on input:  empty
  *                          on output: contains the send requests
+ * \param[out]  send_buffers   the buffers of the messages; must not be changed or freed before the \a requests completed
 */
 template <typename MessageType>
 static void
-t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests)
+t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI_Request> &requests,
+                               std::vector<std::vector<char>> &send_buffers)
 {
   // Assertions: The forest must be committed and the request vector empty.
   T8_ASSERT (t8_forest_is_committed (forest_from));
@@ -142,10 +144,12 @@ t8_forest_pfc_send_loop_range (const t8_forest_t forest_from, std::vector<sc_MPI
 
     // Send the message (and obtain the associated requests).
     sc_MPI_Request request;
-    message.mpi_Isend (forest_from, request);
+    std::vector<char> send_buffer;
+    message.mpi_Isend (forest_from, request, send_buffer);
 
-    // Add to requests array
+    // Add to requests array; moving the buffer does not move its data.
     requests.push_back (std::move (request));
+    send_buffers.push_back (std::move (send_buffer));
   }
 }
 
@@ -383,7 +387,8 @@ t8_forest_pfc_correction_offsets (t8_forest_t forest)
 
     // Send requests to other processes.
     std::vector<sc_MPI_Request> requests;
-    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests);
+    std::vector<std::vector<char>> send_buffers;
+    t8_forest_pfc_send_loop_range<t8_forest_pfc_message> (forest_old, requests, send_buffers);
 
     // Receive messages from other processes.
     std::vector<t8_forest_pfc_message> messages;
diff --git a/src/t8_forest/t8_forest_pfc_message.hxx b/src/t8_forest/t8_forest_pfc_message.hxx
index 9041e5d..b7509e6 100644
--- a/src/t8_forest/t8_forest_pfc_message.hxx
+++ b/src/t8_forest/t8_forest_pfc_message.hxx
@@ -36,6 +36,7 @@
 #include <t8_schemes/t8_scheme.h>
 #include <t8_schemes/t8_scheme.hxx>
 #include <sc_mpi.h>
+#include <vector>
 
 /**
  * This class collects all functionality to handle the data to be sent/received
@@ -146,23 +147,23 @@ struct t8_forest_pfc_message
    *
    * \param[in]   forest  the forest (only used for forest->mpicomm)
    * \param[out]  request the MPI send request
+   * \param[out]  send_buffer the packed message. Must be kept alive until \a request is completed.
   */
   void
-  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request)
+  mpi_Isend (const t8_forest_t forest, sc_MPI_Request &request, std::vector<char> &send_buffer)
   {
     /* Allocate buffer */
     int buffer_size = pack_size ();
-    char *send_buffer = T8_ALLOC (char, buffer_size);
+    send_buffer.resize (buffer_size);
 
     /* Pack message to buffer */
     int position = 0;
-    pack (send_buffer, buffer_size, &position);
+    pack (send_buffer.data (), buffer_size, &position);
 
     /* Send buffer */
     const int mpiret
-      = sc_MPI_Isend (send_buffer, position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
+      = sc_MPI_Isend (send_buffer.data (), position, sc_MPI_PACKED, iproc, T8_MPI_PFC_TAG, forest->mpicomm, &request);
     SC_CHECK_MPI (mpiret);
-    T8_FREE (send_buffer);
   }
 
   /**
-- 
2.43.0


From 8460b186186e8d76f15de782ccc6260282d31ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:05 +0000
Subject: [PATCH 02/60] fix: wait for the sends of the uniform bounds
 computation

The vector of requests was passed by value, so that no request was ever waited
for and the send buffer was freed while the sends were pending.
---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27c7e7c..e369eb1 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1781,7 +1781,7 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
 static void
 t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
-                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> send_requests,
+                                   const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
                                    const t8_gloidx_t first_or_last_element_in_tree_index_of_iproc,
                                    t8_gloidx_t *first_or_last_local_tree, [[maybe_unused]] int8_t *first_tree_shared,
-- 
2.43.0


From e22298636b56948f0f44ad0b3decd3f9e47f1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:36 +0000
Subject: [PATCH 03/60] fix: rounding of element weights must not break the
 weighted partition

The number of offsets that a process computes depended on differently rounded
sums of the weights, so that a process could write beyond its buffer or leave
offsets unset.
---
 src/t8_forest/t8_forest_partition.cxx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition.cxx b/src/t8_forest/t8_forest_partition.cxx
index ab37e09..7234287 100644
--- a/src/t8_forest/t8_forest_partition.cxx
+++ b/src/t8_forest/t8_forest_partition.cxx
@@ -31,6 +31,7 @@
 #include <t8_forest/t8_forest_partition_for_coarsening.h>
 #include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
 #include <t8_schemes/t8_scheme.hxx>
+#include <algorithm>
 
 /* We want to export the whole implementation to be callable from "C" */
 T8_EXTERN_C_BEGIN ();
@@ -575,8 +576,19 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
     }();
 
     // The [rank_begin, rank_end) slice of the new offsets will land in the local partition.
-    int const rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
-    int const rank_end = std::ceil (mpisize * (partition_weight_offset + partition_weight) / forest_weight);
+    // Since the weights are subject to rounding, rank_end is not computed locally, but taken from the next process.
+    // Thus, the slices of all processes are guaranteed to be disjoint and to cover all ranks.
+    std::vector<int> rank_begins (mpisize);
+    {
+      int local_rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
+      const int retval = sc_MPI_Allgather (&local_rank_begin, 1, sc_MPI_INT, rank_begins.data (), 1, sc_MPI_INT, comm);
+      SC_CHECK_MPI (retval);
+      for (int irank = 1; irank < mpisize; ++irank) {
+        rank_begins[irank] = std::clamp (rank_begins[irank], rank_begins[irank - 1], mpisize);
+      }
+    }
+    int const rank_begin = rank_begins[mpirank];
+    int const rank_end = mpirank + 1 < mpisize ? rank_begins[mpirank + 1] : mpisize;
     std::vector<t8_gloidx_t> local_offsets (rank_end - rank_begin, 0);
 
     // Prepare computation of local element offsets.
@@ -591,8 +603,9 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       for (t8_locidx_t ielm = 0; ielm < t8_forest_get_tree_num_leaf_elements (forest_from, ltreeid); ++ielm) {
         T8_ASSERT (0 <= global_elm_idx && global_elm_idx < global_num_leaf_elements);
         accumulated_weight += weight_fcn (forest_from, ltreeid, ielm);
-        while (accumulated_weight
-               > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
+        while (iproc < rank_end
+               && accumulated_weight
+                    > forest_weight * iproc / mpisize) {  // there may be empty partitions, hence while and not if
           T8_ASSERT (rank_begin <= iproc && iproc < rank_end);
           local_offsets[iproc - rank_begin] = global_elm_idx;
           ++iproc;
@@ -600,7 +613,10 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
         ++global_elm_idx;
       }
     }
-    T8_ASSERT (iproc == rank_end);  // i.e. local_offsets has been filled properly
+    // Offsets that were not reached due to rounding start behind the last local element.
+    for (; iproc < rank_end; ++iproc) {
+      local_offsets[iproc - rank_begin] = global_elm_idx;
+    }
 
     // Allgather local offsets into the global element offset array.
     t8_shmem_array_allgatherv (local_offsets.data (), local_offsets.size (), T8_MPI_GLOIDX, forest->element_offsets,
-- 
2.43.0


From fdb46a677d0a267e2a1bc93dff614cd31dfd9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:55 +0000
Subject: [PATCH 04/60] fix: uniform bounds of empty processes for a replicated
 coarse mesh

An empty process could take the bounds of the last instead of the next
non-empty process and claim to share a tree though it has none.
---
 src/t8_cmesh/t8_cmesh.cxx | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index e369eb1..ed00629 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1666,26 +1666,10 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
   *last_local_tree = -1;  // Initialize for the case of num_trees <= 0
   if (last_child <= first_child) {
     /* This process is empty. */
-    /* Find the next non-empty proc */
-    int next_non_empty = cmesh->mpirank + 1;
-    t8_gloidx_t first_child_next_non_empty = 0;
-    t8_gloidx_t last_child_next_non_empty = 0;
-    do {
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) next_non_empty + 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      next_non_empty++;
-    } while (last_child_next_non_empty <= first_child_next_non_empty && next_non_empty < cmesh->mpisize - 1);
-
-    if (next_non_empty >= cmesh->mpisize - 1) {
-      next_non_empty = cmesh->mpisize - 1;
-      first_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize - 1, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-      last_child_next_non_empty = t8_cmesh_get_first_element_of_process (
-        (uint32_t) cmesh->mpisize, (uint32_t) cmesh->mpisize, (uint64_t) local_num_children);
-    }
-    T8_ASSERT (first_child_next_non_empty < last_child_next_non_empty);
+    /* Since all processes between this one and the next non-empty process are empty as well,
+     * the first element of the next non-empty process is our own first element.
+     * The last process is never empty, thus the next non-empty process exists. */
+    const t8_gloidx_t first_child_next_non_empty = first_child;
     // Loop over trees to find the one containing first_child_next_non_empty, which gives us the first and last local tree.
     t8_gloidx_t current_tree_element_offset = 0;
     for (t8_gloidx_t igtree = 0; igtree < num_trees; ++igtree) {
@@ -1697,14 +1681,14 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
         if (child_in_tree_begin != nullptr) {
           *child_in_tree_begin = first_child_next_non_empty - current_tree_element_offset;
         }
-        /* We have found the first tree; since this process is empty, we can immediately return,
-           * ending the for loop. */
-        *first_local_tree = igtree;
-        *last_local_tree = igtree - 1;
-        /* If our first element is not the very first element in the tree, we share
-           * this tree with the previous process. */
+        /* We have found the first tree; since this process is empty, the first local tree is the first
+         * tree that is owned by the next non-empty process. If the next non-empty process does not begin
+         * with the first element of the tree, it shares this tree and owns the tree after it. */
+        *first_local_tree = current_tree_element_offset < first_child_next_non_empty ? igtree + 1 : igtree;
+        *last_local_tree = *first_local_tree - 1;
+        /* By definition an empty process does not share its first tree. */
         if (first_tree_shared != nullptr) {
-          *first_tree_shared = current_tree_element_offset < first_child_next_non_empty ? 1 : 0;
+          *first_tree_shared = 0;
         }
       }
       current_tree_element_offset += num_leaf_elems_in_tree;
-- 
2.43.0


From c4b139a49fbd3792d8fc4418182b8234caeec85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:25 +0000
Subject: [PATCH 05/60] fix: uniform bounds message to empty processes ignored
 the shared first tree

---
 src/t8_cmesh/t8_cmesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index ed00629..c3b65f9 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1763,7 +1763,8 @@ t8_cmesh_uniform_bounds_from_unpartioned (const t8_cmesh_t cmesh, const t8_gloid
  *
  */
 static void
-t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message, const bool proc_is_empty,
+t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_message,
+                                   [[maybe_unused]] const bool proc_is_empty,
                                    const t8_locidx_t first_or_last_puretree_of_iproc, const int first_tree_shared_shift,
                                    const t8_gloidx_t iproc, std::vector<sc_MPI_Request> &send_requests,
                                    std::vector<t8_gloidx_t> &send_buffer, int *current_pos_in_send_buffer,
@@ -1774,8 +1775,7 @@ t8_cmesh_bounds_send_start_or_end (const t8_cmesh_t cmesh, const bool start_mess
                                    [[maybe_unused]] const t8_gloidx_t global_num_elements, sc_MPI_Comm comm)
 {
   const t8_gloidx_t global_id_of_first_or_last_tree = first_or_last_puretree_of_iproc
-                                                      + t8_cmesh_get_first_treeid (cmesh)
-                                                      + (proc_is_empty ? 0 : first_tree_shared_shift);
+                                                      + t8_cmesh_get_first_treeid (cmesh) + first_tree_shared_shift;
   if (iproc != cmesh->mpirank) {
     const int num_entries = 2;
     /* Allocate a new request */
-- 
2.43.0


From 00f71cc511211cac9b82b53d51b49144739cd25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:00 +0000
Subject: [PATCH 06/60] fix: repartition the coarse mesh after balance with
 repartition

---
 src/t8_forest/t8_forest.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 04ee2da..fab2ff1 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3408,6 +3408,8 @@ t8_forest_commit (t8_forest_t forest)
       else {
         /* balance with repartition */
         t8_forest_balance (forest, 1);
+        /* The trees may have changed their owner, the cmesh has to follow */
+        partitioned = 1;
       }
     }
 
-- 
2.43.0


From 20b362d8dda8b19a2df69452d2792b936d7c0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:30 +0000
Subject: [PATCH 07/60] fix: rounding in the uniform partition of a distributed
 coarse mesh could leave a process without bounds

---
 src/t8_cmesh/t8_cmesh.cxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index c3b65f9..7401838 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1620,8 +1620,22 @@ t8_cmesh_determine_partition (const t8_gloidx_t element_index, const t8_gloidx_t
   else {
     /*Use the mirror_element_index to map the whole range of [first_elem_of_iproc, last_elem_of_iproc) to first_proc*/
     const t8_gloidx_t mirror_element_index = global_num_elements - element_index - 1;
-    const int first_proc_rank
+    int first_proc_rank
       = num_procs - 1 - t8_A_times_B_over_C_intA (num_procs, mirror_element_index, global_num_elements);
+    /* The computation above is subject to rounding. Correct the result such that the element lies in the
+     * partition of the computed process. */
+    while (first_proc_rank > 0
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                > (uint64_t) element_index) {
+      --first_proc_rank;
+    }
+    while (first_proc_rank < num_procs - 1
+           && t8_cmesh_get_first_element_of_process ((uint32_t) first_proc_rank + 1, (uint32_t) num_procs,
+                                                     (uint64_t) global_num_elements)
+                <= (uint64_t) element_index) {
+      ++first_proc_rank;
+    }
     const int first_proc_adjusted = first_proc_rank - process_offset;
 #if T8_ENABLE_DEBUG
     T8_ASSERT (0 <= first_proc_rank && first_proc_rank < num_procs);
-- 
2.43.0


From c7b4f53df1e4e4e73b2a2d17a8d3644383d5b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:49 +0000
Subject: [PATCH 08/60] fix: balance with repartition left an already balanced
 forest unpartitioned

---
 src/t8_forest/t8_forest_balance.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_balance.cxx b/src/t8_forest/t8_forest_balance.cxx
index e4aa236..391b0d2 100644
--- a/src/t8_forest/t8_forest_balance.cxx
+++ b/src/t8_forest/t8_forest_balance.cxx
@@ -250,8 +250,9 @@ t8_forest_balance (t8_forest_t forest, int repartition)
      * in 1 then all processes are finished */
     sc_MPI_Allreduce (&done, &done_global, 1, sc_MPI_INT, sc_MPI_LAND, forest->mpicomm);
 
-    if (repartition && !done_global) {
-      /* If repartitioning is used, we partition the forest */
+    if (repartition && (!done_global || count_rounds == 0)) {
+      /* If repartitioning is used, we partition the forest.
+       * A forest that was already balanced has to be partitioned as well, since the result is load-balanced. */
       t8_forest_init (&forest_partition);
       /* Update the maximum occurring level */
       forest_partition->maxlevel_existing = forest_temp->maxlevel_existing;
-- 
2.43.0


From d058ef233f2c771eea6e9052553261a9619f61b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:07 +0000
Subject: [PATCH 09/60] fix: leaf face neighbors at process boundaries were
 reported twice

---
 src/t8_forest/t8_forest.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index fab2ff1..58e8a5d 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1812,8 +1812,6 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     }
   }
 
-  struct t8_lfn_user_data user_data;
-
   // Now we iterate over the leaf arrays of the neighbor tree
   // or neighbor ghost tree and find all leaf face neighbors of the element.
   *num_neighbors = 0;
@@ -1833,6 +1831,8 @@ t8_forest_leaf_face_neighbors_ext (const t8_forest_t forest, const t8_locidx_t l
     auto &tree_leaves = leaf_array->first;
     const bool leaf_array_is_ghost = leaf_array->second;
     T8_ASSERT (tree_leaves != NULL);
+    // Each leaf array starts with a clean buffer, otherwise its neighbors were added again with the next array.
+    struct t8_lfn_user_data user_data;
     const t8_element_t *first_descendant;
     /*
     * Compute the index of the first leaf in tree_leaves that is an ancestor or descendant of
-- 
2.43.0


From 04ddf37486d24e7fda6d389c222a1f18587e75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:46 +0000
Subject: [PATCH 10/60] fix: the iterative ghost algorithms did not find any
 remote elements

---
 src/t8_forest/t8_forest_ghost.cxx | 64 +++++++++++++++++++------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index f8c6230..4884bc1 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -821,20 +821,16 @@ t8_forest_ghost_fill_remote_v3 (t8_forest_t forest)
 static void
 t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int ghost_method)
 {
-  t8_element_t **half_neighbors = nullptr;
   t8_locidx_t num_local_trees, num_tree_elems;
   t8_locidx_t itree, ielem;
   t8_tree_t tree;
-  t8_eclass_t last_class;
 
   int iface, num_faces;
-  int num_face_children, max_num_face_children = 0;
   int owner;
   sc_array_t owners, tree_owners;
   int is_atom;
   const t8_scheme *scheme = t8_forest_get_scheme (forest);
 
-  last_class = T8_ECLASS_COUNT;
   num_local_trees = t8_forest_get_num_local_trees (forest);
   if (ghost_method != 0) {
     sc_array_init (&owners, sizeof (int));
@@ -864,40 +860,58 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       for (iface = 0; iface < num_faces; iface++) {
         /* Get the element class of the neighbor tree */
         const t8_eclass_t neigh_class = t8_forest_element_neighbor_eclass (forest, itree, elem, iface);
+        if (neigh_class == T8_ECLASS_INVALID) {
+          /* There is no neighbor at the domain boundary */
+          continue;
+        }
         if (ghost_method == 0) {
           /* Use half neighbors */
-          /* Get the number of face children of the element at this face */
-          num_face_children = scheme->element_get_num_face_children (tree_class, elem, iface);
-          /* regrow the half_neighbors array if necessary.
-           * We also need to reallocate it, if the element class of the neighbor
-           * changes */
-          if (max_num_face_children < num_face_children || last_class != neigh_class) {
-            half_neighbors = T8_ALLOC (t8_element_t *, num_face_children);
-            /* Allocate memory for the half size face neighbors */
-            scheme->element_new (neigh_class, num_face_children, half_neighbors);
-            max_num_face_children = num_face_children;
-            last_class = neigh_class;
-          }
+          t8_gloidx_t neighbor_tree;
+          /* Get the number of face children of the element at this face.
+           * An element of maximum level has no half neighbors, we use its only neighbor. */
+          const int num_neighbors = is_atom ? 1 : scheme->element_get_num_face_children (tree_class, elem, iface);
+          t8_element_t **half_neighbors = T8_ALLOC (t8_element_t *, num_neighbors);
+          /* Allocate memory for the half size face neighbors */
+          scheme->element_new (neigh_class, num_neighbors, half_neighbors);
           if (!is_atom) {
             /* Construct each half size neighbor */
-            (void) t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class, iface,
-                                                          num_face_children, nullptr);
+            neighbor_tree = t8_forest_element_half_face_neighbors (forest, itree, elem, half_neighbors, neigh_class,
+                                                                   iface, num_neighbors, nullptr);
           }
           else {
-            /* Construct the owners at the face of the neighbor element */
-            t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
-            /* Iterate over all owners and if any is not the current process,
-            * add this element as remote */
-            for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
-              owner = *(int *) sc_array_index (&owners, iowner);
+            int neigh_face;
+            neighbor_tree = t8_forest_element_face_neighbor (forest, itree, elem, half_neighbors[0], neigh_class, iface,
+                                                             &neigh_face);
+          }
+          if (neighbor_tree >= 0) {
+            /* Find the owner of each neighbor and if it is not the current process,
+             * add this element as remote */
+            for (int ineigh = 0; ineigh < num_neighbors; ineigh++) {
+              owner = t8_forest_element_find_owner (forest, neighbor_tree, half_neighbors[ineigh], neigh_class);
               T8_ASSERT (0 <= owner && owner < forest->mpisize);
               if (owner != forest->mpirank) {
                 /* Add the element as a remote element */
                 t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
               }
             }
-            sc_array_truncate (&owners);
           }
+          scheme->element_destroy (neigh_class, num_neighbors, half_neighbors);
+          T8_FREE (half_neighbors);
+        }
+        else {
+          /* Construct the owners at the face of the neighbor element */
+          t8_forest_element_owners_at_neigh_face (forest, itree, elem, iface, &owners);
+          /* Iterate over all owners and if any is not the current process,
+           * add this element as remote */
+          for (size_t iowner = 0; iowner < owners.elem_count; iowner++) {
+            owner = *(int *) sc_array_index (&owners, iowner);
+            T8_ASSERT (0 <= owner && owner < forest->mpisize);
+            if (owner != forest->mpirank) {
+              /* Add the element as a remote element */
+              t8_ghost_add_remote (forest, ghost, owner, itree, elem, ielem);
+            }
+          }
+          sc_array_truncate (&owners);
         }
       } /* end face loop */
     }   /* end element loop */
-- 
2.43.0


From 79ec473d87e654b01d7f6bf1f303d704fd80586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:24 +0000
Subject: [PATCH 11/60] fix: first tree of an incomplete forest was not
 recognised as shared across empty processes

---
 src/t8_forest/t8_forest.cxx | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 58e8a5d..a1f5339 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -1249,10 +1249,6 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   t8_gloidx_t global_neighbour_tree_idx;
   int ret;
   int mpiret;
-  int mpirank_from;
-  int mpirank_to;
-  sc_MPI_Request request;
-  sc_MPI_Status status;
 
   if (forest->mpisize == 1) {
     /* Nothing to share */
@@ -1261,25 +1257,11 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
   if (forest->incomplete_trees) {
     if (first_or_last == 0) {
       T8_ASSERT (forest->mpisize > 1);
-      if (forest->mpirank == 0) {
-        mpirank_from = forest->mpisize - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      else if (forest->mpirank == forest->mpisize - 1) {
-        T8_ASSERT (forest->mpirank > 0);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = 0;
-      }
-      else {
-        T8_ASSERT (forest->mpirank > 0 && forest->mpirank < forest->mpisize - 1);
-        mpirank_from = forest->mpirank - 1;
-        mpirank_to = forest->mpirank + 1;
-      }
-      mpiret = sc_MPI_Irecv (&global_neighbour_tree_idx, 1, T8_MPI_GLOIDX, mpirank_from, 0, forest->mpicomm, &request);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Send (&forest->last_local_tree, 1, T8_MPI_GLOIDX, mpirank_to, 0, forest->mpicomm);
-      SC_CHECK_MPI (mpiret);
-      mpiret = sc_MPI_Wait (&request, &status);
+      /* Compute the last tree of all smaller ranks. Empty processes do not contribute, since
+       * the last nonempty process may be any of the smaller ranks. */
+      const t8_gloidx_t last_local_tree = forest->local_num_leaf_elements > 0 ? forest->last_local_tree : -1;
+      mpiret = sc_MPI_Exscan (&last_local_tree, &global_neighbour_tree_idx, 1, T8_MPI_GLOIDX, sc_MPI_MAX,
+                              forest->mpicomm);
       SC_CHECK_MPI (mpiret);
       if (!forest->mpirank) {
         /* First process has nothing to do any more */
@@ -1297,7 +1279,7 @@ t8_forest_tree_shared ([[maybe_unused]] t8_forest_t forest, [[maybe_unused]] int
        * carry an empty forest. */
     }
     /* If global_neighbour_tree_idx == forest->first_local_tree tree is shared */
-    return global_neighbour_tree_idx == forest->first_local_tree && forest->last_local_tree != -1;
+    return forest->local_num_leaf_elements > 0 && global_neighbour_tree_idx == forest->first_local_tree;
   }
   else {
     if (forest->local_num_leaf_elements <= 0 || forest->trees == nullptr
-- 
2.43.0


From d1c21366081e6a12d133bc56850dbb8cdd06faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 12/60] fix: allow any tree range with last < first for an
 empty process of a partitioned cmesh

The header of t8_cmesh_set_partition_range only asks for last_local_tree <
first_local_tree on an empty process. The number of local trees became negative
for ranges with a gap, and the partition table was computed from the arbitrary
first trees of the empty processes.
---
 src/t8_cmesh/t8_cmesh.cxx                         |  5 +++++
 .../t8_cmesh_internal/t8_cmesh_partition.cxx      | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 7401838..413c528 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -306,6 +306,11 @@ t8_cmesh_set_partition_range (t8_cmesh_t cmesh, const int set_face_knowledge, co
     cmesh->first_tree_shared = 0;
   }
   cmesh->num_local_trees = last_local_tree - cmesh->first_tree + 1;
+  if (cmesh->num_local_trees <= 0) {
+    /* This process is empty. Any last_local_tree < first_local_tree may be given in this case. */
+    cmesh->num_local_trees = 0;
+    cmesh->first_tree_shared = 0;
+  }
   cmesh->set_partition = 1;
   /* Overwrite previous partition settings */
   if (cmesh->tree_offsets != nullptr) {
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 2e56c4d..30a200a 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -192,7 +192,14 @@ t8_cmesh_gather_treecount_ext (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const i
   }
   T8_ASSERT (t8_cmesh_comm_is_valid (cmesh, comm));
 
-  tree_offset = cmesh->first_tree_shared ? -cmesh->first_tree - 1 : cmesh->first_tree;
+  if (cmesh->num_local_trees <= 0) {
+    /* The first tree of an empty process can be any number. We mark empty processes
+     * with the number of trees, since this is never the first tree of a nonempty process. */
+    tree_offset = cmesh->num_trees;
+  }
+  else {
+    tree_offset = cmesh->first_tree_shared ? -cmesh->first_tree - 1 : cmesh->first_tree;
+  }
   if (cmesh->tree_offsets == nullptr) {
     SC_CHECK_ABORT (t8_shmem_init (comm) > 0, "Error in shared memory setup.");
     t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
@@ -221,7 +228,11 @@ t8_cmesh_gather_treecount_ext (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const i
       /* there exist empty ranks, we have to recalculate the offset.
        * Each empty rank stores the offset of the next nonempty rank */
       if (is_empty) {
-        next_nonempty = t8_offset_next_nonempty_rank (cmesh->mpirank, cmesh->mpisize, tree_offset_array);
+        next_nonempty = cmesh->mpirank + 1;
+        while (next_nonempty < cmesh->mpisize && tree_offset_array[next_nonempty] == cmesh->num_trees) {
+          /* Skip empty processes */
+          next_nonempty++;
+        }
         /* Set the tree offset to the first nonshared tree of the next rank */
         tree_offset = t8_offset_first (next_nonempty, tree_offset_array);
         if (tree_offset_array[next_nonempty] < 0) {
-- 
2.43.0


From a7ed0690fdb52fc0e048fbfc75322d4a7aa6c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 13/60] fix: construct the partition table of a derived cmesh
 with set_partition_range

As documented for t8_cmesh_set_partition_offsets. The commit dereferenced a null
pointer instead.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 30a200a..38841e8 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1602,6 +1602,11 @@ t8_cmesh_partition (t8_cmesh_t cmesh, sc_MPI_Comm comm)
   }
   else {
     /* We compute the partition after a given partition table in cmesh->tree_offsets */
+    if (cmesh->tree_offsets == nullptr) {
+      /* The partition was set with t8_cmesh_set_partition_range. We construct the table from the ranges. */
+      T8_ASSERT (cmesh->first_tree >= 0);
+      t8_cmesh_gather_treecount_nocommit (cmesh, comm);
+    }
     T8_ASSERT (cmesh->tree_offsets != NULL);
     tree_offsets = t8_shmem_array_get_gloidx_array (cmesh->tree_offsets);
     /* Check whether the offset at mpirank is smaller 0, if so then the
-- 
2.43.0


From c042fabf5c38b68d2bdcd9c419e03c7f2a4cc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:53 +0000
Subject: [PATCH 14/60] fix: t8_cmesh_offset_percent asserted that the
 percentages of all processes sum up to 100

The percentage is the same on each process and between 0 and 100.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 38841e8..1123b5e 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1802,10 +1802,12 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
   int mpirank, mpisize, mpiret;
   int created = 0;
 #if T8_ENABLE_DEBUG
-  int total = 0;
-  int proc_perc = percent;
-  sc_MPI_Allreduce (&proc_perc, &total, 1, sc_MPI_INT, sc_MPI_SUM, comm);
-  T8_ASSERT (total == 100);
+  /* Check that percent is the same on each process */
+  int proc_perc[2] = { percent, -percent };
+  int max_perc[2];
+  sc_MPI_Allreduce (proc_perc, max_perc, 2, sc_MPI_INT, sc_MPI_MAX, comm);
+  T8_ASSERT (0 <= percent && percent <= 100);
+  T8_ASSERT (max_perc[0] == percent && -max_perc[1] == percent);
 #endif
 
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
-- 
2.43.0


From 2f757cbf1b8d46e3ec98da6711c0dede25b81996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:40 +0000
Subject: [PATCH 15/60] fix: do not overwrite attribute data if the last trees
 or ghosts have no attributes

The offset of a nonexistent next attribute was written into the first attribute's data.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx | 6 ++++++
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx  | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 7d0f789..247a07c 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -101,6 +101,12 @@ t8_cmesh_add_attributes (const t8_cmesh_t cmesh, sc_hash_t *ghost_ids)
   t8_ghost_facejoin_t temp_facejoin = { 0, 0, 0 };
 
   t8_locidx_t ghosts_inserted = 0;
+  for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+    /* There is nothing to insert for ghosts without attributes. */
+    if (t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->num_attributes == 0) {
+      ghosts_inserted++;
+    }
+  }
   ltree = -1;
   for (si = 0, sj = 0; si < stash->attributes.elem_count; si++, sj++) {
     attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index 87f88d1..ed1f0d8 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -743,7 +743,13 @@ t8_cmesh_trees_add_attribute (const t8_cmesh_trees_t trees, const int proc, cons
   attr_info->attribute_size = attr->attr_size;
   /* If we are not yet at the last attribute of the part,
    * get next attribute and set its offset*/
-  if (!(index == (size_t) tree->num_attributes - 1 && part->num_trees == tree_id + 1 - part->first_tree_id)) {
+  int is_last_attribute = index == (size_t) tree->num_attributes - 1;
+  for (t8_locidx_t next_tree = tree_id + 1; is_last_attribute && next_tree < part->first_tree_id + part->num_trees;
+       next_tree++) {
+    /* Trees without attributes may follow */
+    is_last_attribute = t8_part_tree_get_tree (part, next_tree)->num_attributes == 0;
+  }
+  if (!is_last_attribute) {
     /* Store offset of current attribute */
     offset = attr_info->attribute_offset;
     attr_info = attr_info + 1;
-- 
2.43.0


From 34488bd80e43b0bc8852f5bf61a7e9ad65dc5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:09 +0000
Subject: [PATCH 16/60] fix: setting a tree attribute again overwrites the
 previous value

As documented in t8_cmesh_set_attribute. Both values were stored and an arbitrary one was found.
---
 .../t8_cmesh_internal/t8_cmesh_commit.cxx     |  6 ++--
 .../t8_cmesh_internal/t8_cmesh_stash.c        | 29 +++++++++++++++++--
 .../t8_cmesh_internal/t8_cmesh_stash.h        |  1 +
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
index 247a07c..b31b223 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_commit.cxx
@@ -163,6 +163,9 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
       cmesh->num_trees_per_eclass[entry->eclass]++;
       cmesh->num_local_trees_per_eclass[entry->eclass]++;
     }
+    /* TODO: currently the attributes array still has to be sorted,
+     *       find a way around it */
+    t8_stash_attribute_sort (cmesh->stash);
     for (si = 0; si < stash->attributes.elem_count; si++) {
       attribute = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, si);
       /* attribute->id is a gloidx that is casted to a locidx here.
@@ -178,9 +181,6 @@ t8_cmesh_commit_replicated_new (t8_cmesh_t cmesh)
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
 
     /* Add attributes */
-    /* TODO: currently the attributes array still has to be sorted,
-     *       find a way around it */
-    t8_stash_attribute_sort (cmesh->stash);
     cmesh->num_trees = cmesh->num_local_trees = num_trees;
     cmesh->first_tree = 0;
     t8_cmesh_add_attributes (cmesh, nullptr);
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index ca7571d..a13baf2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -167,7 +167,9 @@ t8_stash_add_attribute (const t8_stash_t stash, const t8_gloidx_t id, const int
   t8_stash_attribute_struct_t *sattr;
 
   T8_ASSERT (stash != NULL);
+  const size_t index = stash->attributes.elem_count;
   sattr = (t8_stash_attribute_struct_t *) sc_array_push (&stash->attributes);
+  sattr->index = index;
   sattr->attr_size = size;
   sattr->id = id;
   sattr->is_owned = !copy ? 0 : 1;
@@ -217,7 +219,8 @@ t8_stash_attribute_is_owned (const t8_stash_t stash, const size_t index)
 
 /* Compare two attribute entries A1 and A2.
  * A1 is smaller than A2 if and only if its treeid is smaller or (if equal)
- * its package id is smaller or (if also equal) its key is smaller.
+ * its package id is smaller or (if also equal) its key is smaller or (if also equal)
+ * it was added before A2.
  */
 static int
 t8_stash_attribute_compare (const void *v1, const void *v2)
@@ -227,7 +230,10 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
   if (A1->id == A2->id) {
     if (A1->package_id == A2->package_id) {
-      return A1->key < A2->key ? -1 : A1->key > A2->key;
+      if (A1->key == A2->key) {
+        return A1->index < A2->index ? -1 : A1->index > A2->index;
+      }
+      return A1->key < A2->key ? -1 : 1;
     }
     return A1->package_id < A2->package_id ? -1 : 1;
   }
@@ -236,11 +242,30 @@ t8_stash_attribute_compare (const void *v1, const void *v2)
 
 /* Sort the attribute entries in the order
  * (treeid, packageid, key)
+ * If an attribute was added multiple times, only the last one is kept.
  */
 void
 t8_stash_attribute_sort (const t8_stash_t stash)
 {
+  size_t iatt, num_kept = 0;
+  const size_t num_atts = stash->attributes.elem_count;
+
   sc_array_sort (&stash->attributes, t8_stash_attribute_compare);
+  for (iatt = 0; iatt < num_atts; iatt++) {
+    t8_stash_attribute_struct_t *att = (t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, iatt);
+    if (iatt + 1 < num_atts) {
+      const t8_stash_attribute_struct_t *next = att + 1;
+      if (next->id == att->id && next->package_id == att->package_id && next->key == att->key) {
+        /* This attribute is overwritten by the next one */
+        if (att->is_owned) {
+          T8_FREE (att->attr_data);
+        }
+        continue;
+      }
+    }
+    *(t8_stash_attribute_struct_t *) sc_array_index (&stash->attributes, num_kept++) = *att;
+  }
+  sc_array_resize (&stash->attributes, num_kept);
 }
 
 static void
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
index 270a29d..356b67e 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.h
@@ -70,6 +70,7 @@ typedef struct t8_stash_attribute
   int is_owned;     /**< True if the data was copied, false if the data is still owned by user. */
   int package_id;   /**< The id of the package that set this attribute. */
   int key;          /**< The key used by the package to identify this attribute. */
+  size_t index;     /**< The position of this attribute in the order in which the attributes were added. */
 } t8_stash_attribute_struct_t;
 
 /** The stash data structure is used to store information about the cmesh
-- 
2.43.0


From db3824c6767ca17732bc34d4ec74ce49b5c1b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:20 +0000
Subject: [PATCH 17/60] fix: attribute offsets of a partitioned cmesh if some
 trees have no attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index 1123b5e..a40edfc 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -773,9 +773,10 @@ t8_cmesh_partition_copy_data (char *send_buffer, t8_cmesh_t cmesh, const t8_cmes
         last_size = attr_info->attribute_size;
       }
       temp_offset_att += tree_copy->num_attributes * sizeof (t8_attribute_info_struct_t);
+      /* The last offset is relative to the attribute infos of the last tree that has attributes */
+      last_num_att = tree_copy->num_attributes;
     }
     temp_offset_tree += sizeof (t8_ctree_struct_t);
-    last_num_att = tree_copy->num_attributes;
   }
 
   /* Copy all ghosts and set their face entries and offsets */
-- 
2.43.0


From 336fec98c4feb8de3cb194da0832188b647d9d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:53 +0000
Subject: [PATCH 18/60] fix: copy the map from global to local ghost ids of a
 partitioned cmesh

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
index db490a3..3a58589 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_copy.cxx
@@ -87,5 +87,13 @@ t8_cmesh_copy (t8_cmesh_t cmesh, const t8_cmesh_t cmesh_from, sc_MPI_Comm comm)
       t8_cmesh_trees_start_part (cmesh->trees, ipart, first_tree, num_trees, first_ghost, num_ghosts, 0);
       t8_cmesh_trees_copy_part (cmesh->trees, ipart, cmesh_from->trees, ipart);
     }
+    /* Copy the map from global to local ghost ids */
+    for (t8_locidx_t ighost = 0; ighost < cmesh->num_ghosts; ighost++) {
+      t8_trees_glo_lo_hash_t *hash_entry
+        = (t8_trees_glo_lo_hash_t *) sc_mempool_alloc (cmesh->trees->global_local_mempool);
+      hash_entry->global_id = t8_cmesh_trees_get_ghost (cmesh->trees, ighost)->treeid;
+      hash_entry->local_id = ighost + cmesh->num_local_trees;
+      (void) sc_hash_insert_unique (cmesh->trees->ghost_globalid_to_local_id, hash_entry, NULL);
+    }
   }
 }
-- 
2.43.0


From c2e8b6c3fe335c21077dd919db1d4e424189767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 19/60] fix: set up shared memory before allocating a cmesh
 partition table

A partition table from t8_cmesh_offset_concentrate and friends that was created before the first
partitioned commit on a communicator was allocated without shared memory windows but freed with them.
---
 src/t8_cmesh/t8_cmesh.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 413c528..8e5fa0d 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -281,6 +281,10 @@ t8_cmesh_alloc_offsets (int mpisize, sc_MPI_Comm comm)
   T8_ASSERT (mpisize == mpisize_debug);
 #endif
 
+  /* Shared memory must be set up before the array is created, since the array is
+   * freed with the setup that the communicator has then. */
+  SC_CHECK_ABORT (t8_shmem_init (comm) > 0, "Error in shared memory setup. Could not allocate offsets.");
+  t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
   t8_shmem_array_init (&offsets, sizeof (t8_gloidx_t), mpisize + 1, comm);
   t8_debugf ("Allocating shared array with type %s\n", sc_shmem_type_to_string[sc_shmem_get_type (comm)]);
   return offsets;
-- 
2.43.0


From 083db38b7f72224ea489cd8d2670d9a2705ad79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:17 +0000
Subject: [PATCH 20/60] fix: t8_cmesh_offset_percent with empty processes

The first tree that the cmesh stores for an empty process is arbitrary, the partition table must be used.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
index a40edfc..4590ad2 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.cxx
@@ -1832,8 +1832,9 @@ t8_cmesh_offset_percent (const t8_cmesh_t cmesh, sc_MPI_Comm comm, const int per
 
   /* Allocate new partition array. */
   partition_array = t8_cmesh_alloc_offsets (mpisize, comm);
-  /* get the first local tree from the current cmesh */
-  old_first_tree = t8_cmesh_get_first_treeid (cmesh);
+  /* Get the first local tree from the old partition table. We do not ask the cmesh, since the
+   * first tree of an empty process can be any number there. */
+  old_first_tree = t8_offset_first (mpirank, old_partition);
   /* Get the number of local trees of next smaller process, or
    * 0 if we are rank 0. */
   old_num_trees_pm1 = t8_offset_num_trees (mpirank > 0 ? mpirank - 1 : 0, old_partition);
-- 
2.43.0


From 9ec187406bed4eb402c479455a0ab04b7239bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 21/60] fix: a shared geometry handler kept pointers to the
 tree data of a destroyed cmesh

---
 src/t8_cmesh/t8_cmesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 8e5fa0d..694de3a 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -1240,6 +1240,8 @@ t8_cmesh_reset (t8_cmesh_t *pcmesh)
   }
 
   if (cmesh->geometry_handler != nullptr) {
+    /* Other cmeshes may share the geometry handler. It must not keep pointers to the tree data of this cmesh. */
+    cmesh->geometry_handler->deactivate_tree ();
     cmesh->geometry_handler->unref ();
     cmesh->geometry_handler = nullptr;
   }
-- 
2.43.0


From fe7d2a5d69f3bf0b307ae1a0de2bfd04f702a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:49 +0000
Subject: [PATCH 22/60] fix: the zero geometry wrote behind the output array
 and left the output unset

---
 .../t8_geometry_implementations/t8_geometry_zero.cxx        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
index 0c40d27..8823357 100644
--- a/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
+++ b/src/t8_geometry/t8_geometry_implementations/t8_geometry_zero.cxx
@@ -41,9 +41,9 @@ t8_geometry_zero::t8_geom_evaluate ([[maybe_unused]] t8_cmesh_t cmesh, [[maybe_u
 {
   /* Set the out_coords to 0 */
   for (size_t coord = 0; coord < num_coords; coord++) {
-    out_coords[0 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[1 + num_coords * T8_ECLASS_MAX_DIM] = 0;
-    out_coords[2 + num_coords * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[0 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[1 + coord * T8_ECLASS_MAX_DIM] = 0;
+    out_coords[2 + coord * T8_ECLASS_MAX_DIM] = 0;
   }
 }
 
-- 
2.43.0


From 797515bc8b7314ea2e7b5385d97c7785c8b665d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:37 +0000
Subject: [PATCH 23/60] fix: broadcasting a cmesh from a root other than 0

The stash was broadcast from process 0 and the sizes of a committed cmesh's parts were only set on process 0.
---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c   | 10 +++++-----
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index a13baf2..9a91a9c 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -334,18 +334,18 @@ t8_stash_bcast (const t8_stash_t stash, const int root, sc_MPI_Comm comm, const
   }
   if (elem_counts[0] > 0) {
     mpiret = sc_MPI_Bcast (stash->attributes.array, elem_counts[0] * sizeof (t8_stash_attribute_struct_t), sc_MPI_BYTE,
-                           0, comm);
+                           root, comm);
     SC_CHECK_MPI (mpiret);
     t8_stash_bcast_attributes (&stash->attributes, root, comm);
   }
   if (elem_counts[1] > 0) {
-    mpiret
-      = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, 0, comm);
+    mpiret = sc_MPI_Bcast (stash->classes.array, elem_counts[1] * sizeof (t8_stash_class_struct_t), sc_MPI_BYTE, root,
+                           comm);
     SC_CHECK_MPI (mpiret);
   }
   if (elem_counts[2] > 0) {
-    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE, 0,
-                           comm);
+    mpiret = sc_MPI_Bcast (stash->joinfaces.array, elem_counts[2] * sizeof (t8_stash_joinface_struct_t), sc_MPI_BYTE,
+                           root, comm);
     SC_CHECK_MPI (mpiret);
   }
   return stash;
diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
index ed1f0d8..1e8ba2c 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.cxx
@@ -1063,7 +1063,7 @@ t8_cmesh_trees_bcast (const t8_cmesh_t cmesh_in, const int root, const sc_MPI_Co
 
   for (ipart = 0; ipart < num_parts; ipart++) {
     part = t8_cmesh_trees_get_part (trees, ipart);
-    if (mpirank == 0) {
+    if (mpirank == root) {
       /* Gather information about part */
       part_info.num_trees = part->num_trees;
       part_info.first_tree_id = part->first_tree_id;
-- 
2.43.0


From 8960f49c57a215c9af0ca6708025a292f1a3a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:46 +0000
Subject: [PATCH 24/60] fix: broadcasting a cmesh with profiling crashed on all
 processes but the root

---
 src/t8_cmesh/t8_cmesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 694de3a..27d3699 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -775,7 +775,7 @@ t8_cmesh_bcast (const t8_cmesh_t cmesh_in, const int root, sc_MPI_Comm comm)
     cmesh_out->num_ghosts = 0;
     T8_ASSERT (cmesh_out->set_partition == 0);
     if (meta_info.cmesh.profile != nullptr) {
-      t8_cmesh_set_profiling (cmesh_in, 1);
+      t8_cmesh_set_profiling (cmesh_out, 1);
     }
     for (iclass = 0; iclass < T8_ECLASS_COUNT; iclass++) {
       cmesh_out->num_trees_per_eclass[iclass] = meta_info.num_trees_per_eclass[iclass];
-- 
2.43.0


From 943c66ee11f27815d8cd23cfdcb78061aab7bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:59 +0000
Subject: [PATCH 25/60] fix: t8_cmesh_new_disjoint_bricks with an empty brick
 on some process

The process without trees committed a replicated cmesh without dimension.
---
 src/t8_cmesh/t8_cmesh_examples.cxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index afe23d4..3bcb961 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1688,12 +1688,10 @@ t8_cmesh_new_disjoint_bricks (t8_cmesh_t cmesh, t8_gloidx_t num_x, t8_gloidx_t n
     }
   }
   else {
-    num_x = num_y = num_z = 0;
-    num_trees = 0;
-    offset = 0;
-
-    /* Create empty cmesh. */
+    /* Create a partitioned cmesh without local trees. */
+    t8_cmesh_set_dimension (cmesh, dim);
     t8_cmesh_register_geometry<t8_geometry_linear> (cmesh);
+    t8_cmesh_set_partition_range (cmesh, 3, offset, offset - 1);
     t8_cmesh_commit (cmesh, comm);
   }
 }
-- 
2.43.0


From 21a3c1ad96159e770c89f9df96c010a3bec2807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 26/60] fix: collective call in debug mode on the nonempty
 processes of t8_cmesh_new_disjoint_bricks only

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 3bcb961..6d47013 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -1524,16 +1524,9 @@ t8_cmesh_new_hypercube_pad_ext (t8_cmesh_t cmesh, const t8_eclass_t eclass, sc_M
       /* Set the partition (with offsets) */
       t8_cmesh_set_partition_range (cmesh, 3, first_tree, last_tree);
 
-#if T8_ENABLE_DEBUG
-      t8_gloidx_t num_global_trees;
-      /* The global number of trees is the sum over all numbers of trees in conn on each process */
-      int mpiret = sc_MPI_Allreduce (&num_local_trees, &num_global_trees, 1, T8_MPI_GLOIDX, sc_MPI_SUM, comm);
-      SC_CHECK_MPI (mpiret);
-
       t8_debugf ("Generating partitioned cmesh from connectivity\n"
-                 "Has %li global and %li local trees.\n",
-                 num_global_trees, num_local_trees);
-#endif
+                 "Has %li local trees.\n",
+                 static_cast<long> (num_local_trees));
     }
   }
 
-- 
2.43.0


From 3296b5bfa6cad602372adb275f121f0f3014828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 27/60] fix: endless loop in the msh file reader if the file
 cannot be read

---
 .../t8_cmesh_io/t8_cmesh_readmshfile.cxx       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index af46d40..0798ee4 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -337,7 +337,10 @@ t8_cmesh_check_version_of_msh_file (FILE *fp)
 
   /* Search for the line starting with "$MeshFormat". */
   while (!feof (fp) && strcmp (first_word, "$MeshFormat")) {
-    (void) t8_cmesh_msh_read_next_line (&line, &linen, fp);
+    if (t8_cmesh_msh_read_next_line (&line, &linen, fp) < 0) {
+      t8_global_errorf ("Reading the msh-file in order to check the MeshFormat-number failed.\n");
+      goto die_format;
+    }
     retval = sscanf (line, "%2047s", first_word);
 
     /* Checking for read/write error */
@@ -414,7 +417,11 @@ t8_msh_file_4_read_nodes (FILE *fp)
   fseek (fp, 0, SEEK_SET);
   /* Search for the line beginning with "$Nodes" */
   while (!feof (fp) && strcmp (first_word, "$Nodes")) {
-    (void) t8_cmesh_msh_read_next_line (&line, &linen, fp);
+    if (t8_cmesh_msh_read_next_line (&line, &linen, fp) < 0) {
+      t8_global_errorf ("Premature end of file while searching for the nodes.\n");
+      free (line);
+      return std::nullopt;
+    }
     /* Get the first word of this line */
     retval = sscanf (line, "%2047s", first_word);
     /* Checking for read/write error */
@@ -1246,7 +1253,12 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   T8_ASSERT (fp != NULL);
   /* Search for the line beginning with "$Elements" */
   while (!feof (fp) && strcmp (first_word, "$Elements")) {
-    (void) t8_cmesh_msh_read_next_line (&line, &linen, fp);
+    if (t8_cmesh_msh_read_next_line (&line, &linen, fp) < 0) {
+      t8_global_errorf ("Premature end of file while searching for the elements.\n");
+      free (line);
+      t8_cmesh_destroy (&cmesh);
+      return std::nullopt;
+    }
     /* Get the first word of this line */
     retval = sscanf (line, "%2047s", first_word);
 
-- 
2.43.0


From 8528f5dbe723b8fcb1f0f9b81b47e39a044ac629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:37 +0000
Subject: [PATCH 28/60] fix: the msh file reader gave different nodes the same
 global vertex id if the node tags have gaps

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 0798ee4..f80531d 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1394,7 +1394,7 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           tree_vertices[3 * i_node] = tree_nodes[i_node].coordinates[0];
           tree_vertices[3 * i_node + 1] = tree_nodes[i_node].coordinates[1];
           tree_vertices[3 * i_node + 2] = tree_nodes[i_node].coordinates[2];
-          global_id_of_node[i_node] = tree_nodes[i_node].index % vertices.size ();
+          global_id_of_node[i_node] = tree_nodes[i_node].index;
         }
         t8_cmesh_set_tree_vertices (cmesh, tree_count, tree_vertices.data (), num_nodes);
         t8_cmesh_set_global_vertices_of_tree (cmesh, tree_count, global_id_of_node, num_nodes);
-- 
2.43.0


From 8a021f884064427e9249ededc4e493eff0440bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 29/60] fix: the msh file reader stored only half of the node
 parameters of a tree

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index f80531d..339aec3 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -453,7 +453,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
   /* read each node and add it to the hash table */
   last_index = 0;
   std::array<double, 3> coords;
-  std::array<double, 2> params;
+  std::array<double, 2> params = { 0., 0. };
   int entity_dim;
   t8_locidx_t entity_tag;
   int parametric;
@@ -566,8 +566,8 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                             std::array<t8_msh_file_node, T8_ECLASS_MAX_CORNERS> *tree_nodes, int num_nodes)
 {
 
-  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2];
-  double parameter_array[T8_ECLASS_MAX_CORNERS * 2];
+  int entity_dim_array[T8_ECLASS_MAX_CORNERS * 2] = { 0 };
+  double parameter_array[T8_ECLASS_MAX_CORNERS * 2] = { 0. };
 
   for (int node_i = 0; node_i < num_nodes; node_i++) {
     t8_msh_file_node &current_node = (*tree_nodes)[node_i];
@@ -587,7 +587,7 @@ t8_store_element_node_data (t8_cmesh_t cmesh, t8_gloidx_t tree_count,
                           entity_dim_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
 
   t8_cmesh_set_attribute (cmesh, tree_count, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY,
-                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (int), 0);
+                          parameter_array, T8_ECLASS_MAX_CORNERS * 2 * sizeof (double), 0);
 }
 
 #if T8_ENABLE_OCC
-- 
2.43.0


From 18bdfd20646ba1aa7edf5238d6783729b8fcd80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 30/60] fix: the msh file reader destroyed the cmesh twice if
 reading the elements failed

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 339aec3..d8d6462 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1256,7 +1256,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (t8_cmesh_msh_read_next_line (&line, &linen, fp) < 0) {
       t8_global_errorf ("Premature end of file while searching for the elements.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Get the first word of this line */
@@ -1267,7 +1266,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Premature end of line while reading num trees.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
   }
@@ -1282,7 +1280,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     t8_global_errorf ("Premature end of line while reading num trees and num blocks.\n");
     t8_debugf ("The line is %s", line);
     free (line);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   num_trees = lnum_trees;
@@ -1300,7 +1297,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
     if (retval < 0) {
       t8_global_errorf ("Premature end of line while reading trees.\n");
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     retval = sscanf (line, "%i %li %i %li", &entity_dim, &entity_tag, &ele_type, &num_ele_in_block);
@@ -1309,7 +1305,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
       t8_global_errorf ("Error while reading element block information.\n");
       t8_debugf ("The line is %s", line);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     /* Check if the tree type is supported */
@@ -1317,7 +1312,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         || t8_msh_tree_type_to_eclass[ele_type] == T8_ECLASS_COUNT) {
       t8_global_errorf ("tree type %i is not supported by t8code.\n", ele_type);
       free (line);
-      t8_cmesh_destroy (&cmesh);
       return std::nullopt;
     }
     eclass = t8_msh_tree_type_to_eclass[ele_type];
@@ -1337,7 +1331,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
       }
@@ -1349,7 +1342,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         if (retval < 0) {
           t8_global_errorf ("Premature end of line while reading trees.\n");
           free (line);
-          t8_cmesh_destroy (&cmesh);
           return std::nullopt;
         }
         t8_cmesh_set_tree_class (cmesh, tree_count, eclass);
@@ -1375,7 +1367,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
           /* Get node from the hashtable */
@@ -1415,7 +1406,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           if (!t8_cmesh_process_tree_geometry (cmesh, eclass, dim, tree_count, cad_geometry_base, linear_geometry_base,
                                                tree_nodes)) {
             free (line);
-            t8_cmesh_destroy (&cmesh);
             return std::nullopt;
           }
 
@@ -1429,7 +1419,6 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
   free (line);
   if (tree_count == 0) {
     t8_global_errorf ("Warning: No %iD elements found in msh file.\n", dim);
-    t8_cmesh_destroy (&cmesh);
     return std::nullopt;
   }
   return std::make_optional<t8_msh_tree_vertex_indices> (vertex_indices);
-- 
2.43.0


From e1dc91aa5f6e99213e7f033a39abfc635d57f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:05 +0000
Subject: [PATCH 31/60] fix: crash of the msh file reader on incomplete element
 lines, undefined nodes and wrong element counts

---
 .../t8_cmesh_io/t8_cmesh_readmshfile.cxx       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index d8d6462..1857c8f 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -1361,8 +1361,9 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
         std::vector<t8_gloidx_t> node_indices (num_nodes, -1);
         for (int i_node = 0; i_node < num_nodes; i_node++) {
           const int t8_vertex_num = t8_msh_tree_vertex_to_t8_vertex_num[eclass][i_node];
-          T8_ASSERT (strcmp (line_modify, "\0"));
-          retval = sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
+          /* strsep sets line_modify to NULL at the end of the line. */
+          retval
+            = line_modify == nullptr ? 0 : sscanf (line_modify, "%" T8_GLOIDX_FORMAT, &node_indices[t8_vertex_num]);
           if (retval != 1) {
             t8_global_errorf ("Premature end of line while reading tree.\n");
             t8_debugf ("The line is %s", line);
@@ -1371,13 +1372,24 @@ t8_cmesh_msh_file_4_read_eles (t8_cmesh_t cmesh, FILE *fp, const t8_msh_node_tab
           }
           /* Get node from the hashtable */
           Node.index = node_indices[t8_vertex_num];
-          tree_nodes[t8_vertex_num] = *vertices.find (Node);
+          const auto found_node = vertices.find (Node);
+          if (found_node == vertices.end ()) {
+            t8_global_errorf ("Node %li of an element is not defined.\n", (long) Node.index);
+            free (line);
+            return std::nullopt;
+          }
+          tree_nodes[t8_vertex_num] = *found_node;
 
           /* move line_modify to the next word in the line */
           (void) strsep (&line_modify, " ");
         }
 
         /* Add the node indices to return vector. */
+        if (tree_count >= (t8_gloidx_t) vertex_indices.size ()) {
+          t8_global_errorf ("The msh file contains more elements than it announces.\n");
+          free (line);
+          return std::nullopt;
+        }
         vertex_indices[tree_count] = std::move (node_indices);
 
         /* Set the vertices and global indices of this tree */
-- 
2.43.0


From 97af2ef75e2bfde98720442fb60f1ddb24240de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:45 +0000
Subject: [PATCH 32/60] fix: the msh file reader leaked memory if reading the
 nodes failed

---
 src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
index 1857c8f..16b071e 100644
--- a/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
+++ b/src/t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.cxx
@@ -477,12 +477,14 @@ t8_msh_file_4_read_nodes (FILE *fp)
       if (retval < 0) {
         t8_global_errorf ("Error reading node file.\n");
         free (line);
+        T8_FREE (index_buffer);
         return std::nullopt;
       }
       retval = sscanf (line, "%li", &index_buffer[ln]);
       if (retval != 1) {
         t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
         free (line);
+        T8_FREE (index_buffer);
         return std::nullopt;
       }
     }
@@ -497,6 +499,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       if (retval < 0) {
         t8_global_errorf ("Error reading node file\n");
         free (line);
+        T8_FREE (index_buffer);
         return std::nullopt;
       }
       /* Fill the node with the entries in the file */
@@ -505,6 +508,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
         if (retval != 3) {
           t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
           free (line);
+          T8_FREE (index_buffer);
           return std::nullopt;
         }
       }
@@ -516,6 +520,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
           if (retval != 4) {
             t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
             free (line);
+            T8_FREE (index_buffer);
             return std::nullopt;
           }
           break;
@@ -524,12 +529,14 @@ t8_msh_file_4_read_nodes (FILE *fp)
           if (retval != 5) {
             t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
             free (line);
+            T8_FREE (index_buffer);
             return std::nullopt;
           }
           break;
         default:
           t8_global_errorf ("Error reading node file after node %li.\n", (long) last_index);
           free (line);
+          T8_FREE (index_buffer);
           return std::nullopt;
         }
       }
@@ -541,6 +548,7 @@ t8_msh_file_4_read_nodes (FILE *fp)
       if (emplaced.second == false) {
         t8_global_errorf ("Node %li defined more than once.\n", index_buffer[ln]);
         free (line);
+        T8_FREE (index_buffer);
         return std::nullopt;
       }
       T8_ASSERT (emplaced.first->index == index_buffer[ln]);
-- 
2.43.0


From 34c411da108a4f3bda5f8ff0ddb5280fe60ebb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:54 +0000
Subject: [PATCH 33/60] fix: memory leak when broadcasting a cmesh with
 persistent attributes

---
 src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
index 9a91a9c..65bf570 100644
--- a/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
+++ b/src/t8_cmesh/t8_cmesh_internal/t8_cmesh_stash.c
@@ -310,6 +310,8 @@ t8_stash_bcast_attributes (sc_array_t *attributes, const int root, sc_MPI_Comm c
       att = (t8_stash_attribute_struct_t *) sc_array_index (attributes, iatt);
       att->attr_data = T8_ALLOC (char, att->attr_size);
       memcpy (att->attr_data, buffer + copied_bytes, att->attr_size);
+      /* This process allocated the data, even if it persists on the root. */
+      att->is_owned = 1;
       copied_bytes += att->attr_size;
     }
   }
-- 
2.43.0


From ad625ad505c35797e655b95a304ae7c4a82cb132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 34/60] fix: t8_shmem_array_binary_search read one entry behind
 the end of the array

---
 src/t8_cmesh/t8_cmesh.cxx | 4 ++--
 src/t8_data/t8_shmem.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 27d3699..4de189b 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -2280,7 +2280,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   /* Post the receives. */
   if (expect_start_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, first_element, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
 
@@ -2298,7 +2298,7 @@ t8_cmesh_uniform_bounds_from_partition (const t8_cmesh_t cmesh, const t8_gloidx_
   } /* End receiving start message */
   if (expect_end_message) {
     const int recv_from
-      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize - 1, find_bounds_in_offset);
+      = t8_shmem_array_binary_search (offset_array, last_element - 1, cmesh->mpisize, find_bounds_in_offset);
 
     T8_ASSERT (0 <= recv_from && recv_from < cmesh->mpisize);
     recv_message (false, last_local_tree, child_in_tree_end, nullptr, nullptr, global_num_elements, cmesh, recv_from,
diff --git a/src/t8_data/t8_shmem.c b/src/t8_data/t8_shmem.c
index 728abe9..05e82ec 100644
--- a/src/t8_data/t8_shmem.c
+++ b/src/t8_data/t8_shmem.c
@@ -545,7 +545,7 @@ t8_shmem_array_binary_search (t8_shmem_array_t array, const t8_gloidx_t value, c
                               int (*compare) (t8_shmem_array_t, const int, const t8_gloidx_t))
 {
   int low = 0;
-  int high = size;
+  int high = size - 1;
 
   while (low <= high) {
     int mid = low + (high - low) / 2;
-- 
2.43.0


From 5ce67ed2bedcc9f28badbee2e4a1282ed1949734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 35/60] fix: crash of t8_vector_handler when a handler without
 data is packed

---
 src/t8_data/t8_vector_handler.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t8_data/t8_vector_handler.hxx b/src/t8_data/t8_vector_handler.hxx
index 5d7b96b..ae8a887 100644
--- a/src/t8_data/t8_vector_handler.hxx
+++ b/src/t8_data/t8_vector_handler.hxx
@@ -224,9 +224,12 @@ struct t8_vector_handler: public t8_abstract_vector_handler
   void
   pack_vector_prefix (void *buffer, const int num_bytes, int &pos, sc_MPI_Comm comm) override
   {
-    const int num_data = m_data->size ();
+    const int num_data = m_data ? m_data->size () : 0;
     const int mpiret = sc_MPI_Pack (&num_data, 1, sc_MPI_INT, buffer, num_bytes, &pos, comm);
     SC_CHECK_MPI (mpiret);
+    if (!m_data) {
+      return;
+    }
 
     std::for_each (m_data->begin (), m_data->end (),
                    [&] (const TType &item) { single_handler.pack (item, pos, buffer, num_bytes, comm); });
-- 
2.43.0


From 79b7a6029d1c9fdcb4cd8d24dc8a6350afd19e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 36/60] fix: t8_vector_handler::recv from any source could
 receive another message than the one it had probed

---
 src/t8_data/t8_vector_handler.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t8_data/t8_vector_handler.hxx b/src/t8_data/t8_vector_handler.hxx
index ae8a887..b962085 100644
--- a/src/t8_data/t8_vector_handler.hxx
+++ b/src/t8_data/t8_vector_handler.hxx
@@ -312,7 +312,8 @@ struct t8_vector_handler: public t8_abstract_vector_handler
     SC_CHECK_MPI (mpiret);
     std::vector<char> buffer (num_bytes);
 
-    mpiret = sc_MPI_Recv (buffer.data (), num_bytes, sc_MPI_PACKED, source, tag, comm, status);
+    /* Receive exactly the message that was probed, source and tag may be wildcards. */
+    mpiret = sc_MPI_Recv (buffer.data (), num_bytes, sc_MPI_PACKED, status->MPI_SOURCE, status->MPI_TAG, comm, status);
     SC_CHECK_MPI (mpiret);
     unpack_vector_prefix (buffer.data (), num_bytes, pos, outcount, comm);
     return mpiret;
-- 
2.43.0


From 14a2c867180bbe183db45aa473925af9aec8ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 37/60] fix: pvtu file not well-formed if there are vector data
 fields but no scalar ones

t8_write_pvtu only opened the PPointData and PCellData sections if there were
scalar arrays. With vector fields only, the cell arrays were written outside
of any section and the point arrays were missing.
---
 src/t8_vtk/t8_vtk.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/t8_vtk/t8_vtk.c b/src/t8_vtk/t8_vtk.c
index 3a9480b..c5d5627 100644
--- a/src/t8_vtk/t8_vtk.c
+++ b/src/t8_vtk/t8_vtk.c
@@ -107,8 +107,11 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
       }
     }
 
-    if (strcmp (vtkPointDataString, "")) {
-      fprintf (pvtufile, "    <PPointData Scalars=\"%s\"", vtkPointDataString);
+    if (strcmp (vtkPointDataString, "") || strcmp (vtkPointVectorString, "")) {
+      fprintf (pvtufile, "    <PPointData");
+      if (num_scalars > 0) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkPointDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
         fprintf (pvtufile, " Vectors=\"%s\">\n", vtkPointVectorString);
@@ -187,8 +190,11 @@ t8_write_pvtu (const char *filename, int num_procs, int write_tree, int write_ra
                              data[idata].description);
       }
     }
-    if (strcmp (vtkCellDataString, "")) {
-      fprintf (pvtufile, "    <PCellData Scalars=\"%s\"", vtkCellDataString);
+    if (strcmp (vtkCellDataString, "") || strcmp (vtkCellVectorString, "")) {
+      fprintf (pvtufile, "    <PCellData");
+      if (strcmp (vtkCellDataString, "")) {
+        fprintf (pvtufile, " Scalars=\"%s\"", vtkCellDataString);
+      }
       if (num_scalars < num_data) {
         /* Add Vector strings */
         fprintf (pvtufile, " Vectors=\"%s\">\n", vtkCellVectorString);
-- 
2.43.0


From de367d7f7523f38ede38a97601ee012b8d2d7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:23 +0000
Subject: [PATCH 38/60] fix: t8_cmesh_vtk_write_file reported success for
 incomplete files and aborted if the pvtu file could not be written

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 35bcb21..af8801b 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -950,7 +950,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
     /* Write the pvtu header file. */
     int const num_ranks_that_write = cmesh->set_partition ? cmesh->mpisize : 1;
     if (t8_write_pvtu (fileprefix, num_ranks_that_write, 1, 1, 0, 0, 0, nullptr)) {
-      SC_ABORTF ("Error when writing file %s.pvtu\n", fileprefix);
+      t8_errorf ("Error when writing file %s.pvtu\n", fileprefix);
+      return write_failure;
     }
   }
   /* If the cmesh is replicated only rank 0 prints it,
@@ -1195,7 +1196,11 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
     fprintf (vtufile, "    </Piece>\n");
     fprintf (vtufile, "  </UnstructuredGrid>\n");
     fprintf (vtufile, "</VTKFile>\n");
-    fclose (vtufile);
+    const bool write_error = ferror (vtufile);
+    if (fclose (vtufile) != 0 || write_error) {
+      t8_errorf ("Error when writing file %s.\n", vtufilename);
+      return write_failure;
+    }
   }
   return write_successful;
 }
-- 
2.43.0


From 4c9a00e0ac133a9b1e9f3d51cda66ed3645c2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 39/60] fix: null pointer dereference in
 t8_cmesh_vtk_write_file if a ghost tree has no vertices

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index af8801b..1159561 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -1034,8 +1034,8 @@ t8_cmesh_vtk_write_file_ext (const t8_cmesh_t cmesh, const char *fileprefix, con
         /* Get a pointer to this ghosts vertices */
         vertices = (double *) t8_cmesh_get_attribute (cmesh, t8_get_package_id (), 0, ighost + num_loc_trees);
         if (vertices == nullptr) {
-          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh tree %i.\n", vtufilename,
-                     tree->treeid);
+          t8_errorf ("Error in writing file %s. Could not read vertex coordinates for cmesh ghost tree %i.\n",
+                     vtufilename, ighost);
           fclose (vtufile);
           return write_failure;
         }
-- 
2.43.0


From 535f3d4250f26fc376e1993f4efa7b3fb3d0c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:21 +0000
Subject: [PATCH 40/60] fix: division by zero when writing vector data of a
 forest of dimension 0 to vtk

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 1159561..9738fbe 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -688,7 +688,7 @@ t8_forest_vtk_write_cells (t8_forest_t forest, FILE *vtufile, const int write_tr
       T8_ASSERT (data[idata].type == T8_VTK_VECTOR);
       snprintf (component_string, BUFSIZ, "NumberOfComponents=\"3\"");
       freturn = t8_forest_vtk_write_cell_data (forest, vtufile, data[idata].description, T8_VTK_FLOAT_NAME,
-                                               component_string, 8 * forest->dimension,
+                                               component_string, 8 * 3,
                                                t8_forest_vtk_cells_vector_kernel, write_ghosts, data[idata].data);
     }
     if (!freturn) {
@@ -772,7 +772,7 @@ t8_forest_vtk_write_points (t8_forest_t forest, FILE *vtufile, const int write_g
         }
 
         freturn = t8_forest_vtk_write_cell_data (forest, vtufile, description, T8_VTK_FLOAT_NAME, component_string,
-                                                 8 * forest->dimension, t8_forest_vtk_vertices_vector_kernel,
+                                                 8 * 3, t8_forest_vtk_vertices_vector_kernel,
                                                  write_ghosts, data[idata].data);
       }
       if (!freturn) {
-- 
2.43.0


From 5bba4a034bd92a32013dd5512b5e2a14c6b752de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:33 +0000
Subject: [PATCH 41/60] fix: t8_forest_vtk_write_file reported success although
 element data could not be written

---
 src/t8_vtk/t8_vtk_write_ASCII.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_vtk/t8_vtk_write_ASCII.cxx b/src/t8_vtk/t8_vtk_write_ASCII.cxx
index 9738fbe..d086ad2 100644
--- a/src/t8_vtk/t8_vtk_write_ASCII.cxx
+++ b/src/t8_vtk/t8_vtk_write_ASCII.cxx
@@ -884,6 +884,10 @@ t8_forest_vtk_write_ASCII (t8_forest_t forest, const char *fileprefix, const int
     goto t8_forest_vtk_failure;
   }
 
+  if (ferror (vtufile)) {
+    /* Some of the data could not be written */
+    goto t8_forest_vtk_failure;
+  }
   freturn = fclose (vtufile);
   /* We set it not NULL, even if fclose was not successful, since then any
    * following call to fclose would result in undefined behaviour. */
-- 
2.43.0


From a6db24c786db459ad3553cbffdcc70915c6bd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:53 +0000
Subject: [PATCH 42/60] fix: faces at which an element is its own neighbor were
 missing in the unique face vector

---
 mesh_handle/competences/dg_competences.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 55ad31b..43aab77 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -231,7 +231,8 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           if (elem.get_level () == neighs[0]->get_level ()) {
             /* --- CONFORMAL or MPI_CONFORMAL --- */
             // Insert only from the side with the smaller handle_id so that each conformal face appears exactly once.
-            if (handle_id < neigh_id) {
+            // In periodic meshes, an element can be its own neighbor. The check above ensures that its face is not inserted twice.
+            if (handle_id <= neigh_id) {
               face f;
               f.type = (neigh_rank != LOCAL_RANK) ? face_type::MPI_CONFORMAL : face_type::CONFORMAL;
               f.sides.push_back ({ handle_id, iface, LOCAL_RANK });
-- 
2.43.0


From 488911ac6ed12f85bbad04e65517458ab60f6434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:53 +0000
Subject: [PATCH 43/60] fix: faces between elements of different level were
 missing in the unique face vector of 1D meshes

---
 mesh_handle/competences/dg_competences.hxx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mesh_handle/competences/dg_competences.hxx b/mesh_handle/competences/dg_competences.hxx
index 43aab77..e3b8d08 100644
--- a/mesh_handle/competences/dg_competences.hxx
+++ b/mesh_handle/competences/dg_competences.hxx
@@ -224,7 +224,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
           m_faces.push_back (std::move (f));
           m_element_face_vector[handle_id][iface] = face_idx;
         }
-        else if (num_neighs == 1) {
+        else if (num_neighs == 1 && elem.get_level () >= neighs[0]->get_level ()) {
           const int neigh_id = neighs[0]->get_element_handle_id ();
           const int neigh_rank = mesh.get_rank (neigh_id);
 
@@ -250,7 +250,7 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
               m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
             }
           }
-          else if (elem.get_level () > neighs[0]->get_level ()) {
+          else {
             /* --- Small side of a MORTAR or MPI_MORTAR --- */
             /* The large (coarser) neighbour owns and inserts this face.
              * We only need to do something here if the neighbor is remote.
@@ -283,11 +283,10 @@ struct face_vector_mesh_competence: public t8_crtp_operator<TUnderlying, face_ve
             }
             m_element_face_vector[neigh_id][dual_faces[0]] = face_idx;
           }
-          // No other case possible without incomplete trees.
         }
         else {
-          /* --- Large side of a MORTAR or MPI_MORTAR (num_neighs > 1) ---  */
-          // We are the coarse element; neighs are all small mortars.
+          /* --- Large side of a MORTAR or MPI_MORTAR ---  */
+          // We are the coarse element; neighs are all small mortars. In 1D, there is exactly one, otherwise there are several.
           bool any_remote = std::any_of (neighs.begin (), neighs.end (), [&] (const auto* neigh) {
             return mesh.get_rank (neigh->get_element_handle_id ()) != LOCAL_RANK;
           });
-- 
2.43.0


From 9c62224c8adb3737cc48a5c47b6a38e7b4c4b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:20 +0000
Subject: [PATCH 44/60] fix: recursive refinement lost the elements that could
 not be refined any further

---
 src/t8_forest/t8_forest_adapt.cxx | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index 1c8e00d..f2f3234 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -346,17 +346,15 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
     const int refine = forest->set_adapt_fn (forest, forest->set_from, ltreeid, tree_class, lelement_id, scheme,
                                              is_family, num_elements_to_adapt_callback, el_buffer);
     T8_ASSERT (refine != -1);
-    if (refine == 1) {
+    /* only refine if element is refinable and if we do not exceed the maximum allowed level */
+    if (refine == 1 && scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
+        && scheme->element_is_refinable (tree_class, el_buffer[0])) {
       /* The element should be refined */
-      if (scheme->element_get_level (tree_class, el_buffer[0]) < forest->maxlevel
-          && scheme->element_is_refinable (tree_class, el_buffer[0])) {
-        /* only refine if element is refinable and if we do not exceed the maximum allowed level */
-        /* Create the children and add them to the list */
-        scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
-        scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
-        for (int ci = num_children - 1; ci >= 0; ci--) {
-          (void) sc_list_prepend (elem_list, el_buffer[ci]);
-        }
+      /* Create the children and add them to the list */
+      scheme->element_new (tree_class, num_children - 1, el_buffer + 1);
+      scheme->element_get_children (tree_class, el_buffer[0], num_children, el_buffer);
+      for (int ci = num_children - 1; ci >= 0; ci--) {
+        (void) sc_list_prepend (elem_list, el_buffer[ci]);
       }
     }
     else if (refine == -2) {
@@ -366,8 +364,8 @@ t8_forest_adapt_refine_recursive (t8_forest_t forest, t8_locidx_t ltreeid, t8_ec
       scheme->element_destroy (tree_class, 1, el_buffer);
     }
     else {
-      T8_ASSERT (refine == 0);
-      /* This element should not get refined,
+      T8_ASSERT (refine == 0 || refine == 1);
+      /* This element should not or can not get refined,
        * we remove it from the buffer and add it to the array of new elements. */
       t8_element_t *insert_el = t8_element_array_push (telements);
       scheme->element_copy (tree_class, el_buffer[0], insert_el);
-- 
2.43.0


From 8705bf15aab74c64d8bd3ef85e819e8bb23d5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:37 +0000
Subject: [PATCH 45/60] fix: recursive coarsening in pyramid trees compared the
 child id with the size of another family

---
 src/t8_forest/t8_forest_adapt.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/t8_forest/t8_forest_adapt.cxx b/src/t8_forest/t8_forest_adapt.cxx
index f2f3234..600c2c4 100644
--- a/src/t8_forest/t8_forest_adapt.cxx
+++ b/src/t8_forest/t8_forest_adapt.cxx
@@ -581,9 +581,6 @@ t8_forest_adapt (t8_forest_t forest)
            * This parent is now inserted in telements. */
           T8_ASSERT (scheme->element_get_level (tree->eclass, elements_from[0]) > 0);
           scheme->element_get_parent (tree->eclass, elements_from[0], elements[0]);
-          /* num_siblings is now equivalent to the number of children of elements[0],
-           * as num_siblings is always associated with elements_from*/
-          num_children = num_siblings;
           el_inserted++;
           if (forest->set_adapt_recursive) {
             /* Adaptation is recursive.
@@ -591,7 +588,7 @@ t8_forest_adapt (t8_forest_t forest)
              * family (and not the only one).
              * If so, we check this family for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0 && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
@@ -610,7 +607,7 @@ t8_forest_adapt (t8_forest_t forest)
              * If adaptation is recursive and this was the last element in its family
              * (and not the only one), we need to check for recursive coarsening. */
             const int child_id = scheme->element_get_child_id (tree->eclass, elements[0]);
-            if (child_id > 0 && child_id == num_children - 1) {
+            if (child_id > 0 && child_id == scheme->element_get_num_siblings (tree->eclass, elements[0]) - 1) {
               t8_forest_adapt_coarsen_recursive (forest, ltree_id, tree->eclass, el_considered, scheme, telements,
                                                  el_coarsen, &el_inserted, elements);
             }
-- 
2.43.0


From 6f89a45d433ac36fee914bfdef742561d0cff8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:37 +0000
Subject: [PATCH 46/60] fix: the child id of a line of maximum level could not
 be computed in debug mode

---
 src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
index 7d2423e..0cf6d64 100644
--- a/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_line/t8_dline_bits.c
@@ -177,7 +177,7 @@ t8_dline_face_parent_face (const t8_dline_t *line, int face)
 int
 t8_dline_child_id (const t8_dline_t *line)
 {
-  T8_ASSERT (line->level < T8_DLINE_MAXLEVEL);
+  T8_ASSERT (line->level <= T8_DLINE_MAXLEVEL);
   /* bitshifting the Levelbit to first position & check if it is 1 or 0 */
   return ((line->x >> (T8_DLINE_MAXLEVEL - line->level)) & 1);
 }
-- 
2.43.0


From a8db1d697c1ff4aebf963d555c80de762e546712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:19 +0000
Subject: [PATCH 47/60] fix: the face descendants of a tetrahedron of maximum
 level in a pyramid tree were not set

---
 src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
index 7116274..d7b4686 100644
--- a/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
+++ b/src/t8_schemes/t8_default/t8_default_pyramid/t8_dpyramid_bits.c
@@ -953,6 +953,8 @@ t8_dpyramid_corner_descendant (const t8_dpyramid_t *p, t8_dpyramid_t *d, const i
     const int child_id = t8_dtet_parenttype_beyid_to_Iloc[p->pyramid.type][corner];
     t8_dpyramid_t tmp;
     t8_dpyramid_copy (p, &tmp);
+    /* If p already has the given level, it is its own descendant */
+    t8_dpyramid_copy (p, d);
     for (int i = p->pyramid.level; i < level; i++) {
       t8_dpyramid_child (&tmp, child_id, d);
       t8_dpyramid_copy (d, &tmp);
-- 
2.43.0


From b130db08c613fd310558d22d8a6ff23a6f8c8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:19 +0000
Subject: [PATCH 48/60] fix: checking whether a forest is balanced aborted if
 it had elements of maximum level

---
 src/t8_forest/t8_forest_balance.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_balance.cxx b/src/t8_forest/t8_forest_balance.cxx
index 391b0d2..dfa90cb 100644
--- a/src/t8_forest/t8_forest_balance.cxx
+++ b/src/t8_forest/t8_forest_balance.cxx
@@ -75,10 +75,12 @@ t8_forest_balance_adapt (t8_forest_t forest, t8_forest_t forest_from, const t8_l
    * Otherwise there cannot exist neighbors of level greater than the element's level plus one.
    * The variable maxlevel_existing is only set if we enter this function from t8_forest_balance.
    * If we enter from the check function is_balanced, then it may not be set.
+   * In this case, we use the maximum possible level.
    */
+  const int maxlevel
+    = forest_from->maxlevel_existing > 0 ? forest_from->maxlevel_existing : t8_forest_get_maxlevel (forest_from);
 
-  if (forest_from->maxlevel_existing <= 0
-      || scheme->element_get_level (tree_class, element) <= forest_from->maxlevel_existing - 2) {
+  if (scheme->element_get_level (tree_class, element) <= maxlevel - 2) {
 
     pdone = (int *) forest->t8code_data;
 
-- 
2.43.0


From 5ea50c8fc6b6bfa64250f0cf957ea745e64dd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:31 +0000
Subject: [PATCH 49/60] fix: the ghost layer of a balanced hybrid forest
 aborted if it had elements of maximum level

---
 src/t8_forest/t8_forest_ghost.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest_ghost.cxx b/src/t8_forest/t8_forest_ghost.cxx
index 4884bc1..d1e0c1c 100644
--- a/src/t8_forest/t8_forest_ghost.cxx
+++ b/src/t8_forest/t8_forest_ghost.cxx
@@ -850,7 +850,7 @@ t8_forest_ghost_fill_remote (t8_forest_t forest, t8_forest_ghost_t ghost, int gh
       /* Get the element of the tree */
       const t8_element_t *elem = t8_forest_get_tree_leaf_element (tree, ielem);
       num_faces = scheme->element_get_num_faces (tree_class, elem);
-      if (scheme->element_get_level (tree_class, elem) == scheme->get_maxlevel (tree_class)) {
+      if (scheme->element_get_level (tree_class, elem) >= t8_forest_get_maxlevel (forest)) {
         /* flag to decide whether this element is at the maximum level */
         is_atom = 1;
       }
-- 
2.43.0


From 43f3660cabac1d495bac8a767f827d0ee7b882f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:01 +0000
Subject: [PATCH 50/60] fix: looking up a local or ghost tree id in a forest
 without ghosts

t8_forest_get_local_or_ghost_id returns a negative number for trees that are
neither local nor ghosts. Without a ghost layer it dereferenced a null
pointer instead.
---
 src/t8_forest/t8_forest.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index a1f5339..17e7e96 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3867,6 +3867,10 @@ t8_forest_get_local_or_ghost_id (const t8_forest_t forest, const t8_gloidx_t gtr
     return ltreeid;
   }
   else {
+    if (forest->ghosts == nullptr) {
+      /* Without a ghost layer there are no ghost trees. */
+      return -1;
+    }
     t8_locidx_t const ghost_id = t8_forest_ghost_get_ghost_treeid (forest, gtreeid);
     if (ghost_id >= 0)
       return t8_forest_get_num_local_trees (forest) + ghost_id;
-- 
2.43.0


From 6bc511b3bca0d685aa535608cdd9cded27adb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:56 +0000
Subject: [PATCH 51/60] fix: the statistics of a forest on a part of the
 processes were computed over all processes (deadlock)

---
 src/t8_forest/t8_forest.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 17e7e96..5df830a 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3994,7 +3994,7 @@ t8_forest_compute_profile (t8_forest_t forest)
     sc_stats_set1 (&forest->stats[15], profile->balance_rounds, "forest: offset runtime.");
     sc_stats_set1 (&forest->stats[16], profile->balance_rounds, "forest: first descendant runtime.");
     /* compute stats */
-    sc_stats_compute (sc_MPI_COMM_WORLD, T8_PROFILE_NUM_STATS, forest->stats);
+    sc_stats_compute (forest->mpicomm, T8_PROFILE_NUM_STATS, forest->stats);
     forest->stats_computed = 1;
   }
 }
-- 
2.43.0


From 600bfcad07d7590a39fdb9172af027d7174da383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:44 +0000
Subject: [PATCH 52/60] fix: giving a search object new queries overwrote the
 vector with its former queries

---
 .../t8_forest_search/t8_forest_search.hxx     | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.hxx b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
index 2a5c985..7ab2b42 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.hxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
@@ -467,7 +467,7 @@ struct t8_search_with_queries: public t8_search<Udata>
   t8_search_with_queries (t8_search_element_callback<Udata> element_callback,
                           t8_search_query_callback<Query_T, Udata> queries_callback, std::vector<Query_T> &queries,
                           const t8_forest_t forest = nullptr, Udata *user_data = nullptr)
-    : t8_search<Udata> (element_callback, forest, user_data), queries_callback (queries_callback), queries (queries)
+    : t8_search<Udata> (element_callback, forest, user_data), queries_callback (queries_callback), queries (&queries)
   {
   }
 
@@ -478,7 +478,7 @@ struct t8_search_with_queries: public t8_search<Udata>
   void
   update_queries (std::vector<Query_T> &queries)
   {
-    this->queries = queries;
+    this->queries = &queries;
   }
 
   /**
@@ -517,7 +517,7 @@ struct t8_search_with_queries: public t8_search<Udata>
       std::copy_if (this->active_queries.begin (), this->active_queries.end (), std::back_inserter (new_active_queries),
                     [&] (size_t &query_index) {
                       return this->queries_callback (this->forest, ltreeid, element, is_leaf, leaf_elements,
-                                                     tree_leaf_index, queries[query_index], this->user_data);
+                                                     tree_leaf_index, (*this->queries)[query_index], this->user_data);
                     });
     }
   }
@@ -538,7 +538,7 @@ struct t8_search_with_queries: public t8_search<Udata>
   void
   init_queries () override
   {
-    this->active_queries.resize (this->queries.size ());
+    this->active_queries.resize (this->queries->size ());
     std::iota (this->active_queries.begin (), this->active_queries.end (), 0);
   }
 
@@ -547,9 +547,9 @@ struct t8_search_with_queries: public t8_search<Udata>
    */
   t8_search_query_callback<Query_T, Udata> queries_callback;
   /**
-   * A reference to a vector of queries to be processed.
+   * A pointer to the vector of queries to be processed.
    */
-  std::vector<Query_T> &queries;
+  std::vector<Query_T> *queries;
   /**
    * A vector of indices of active queries.
    */
@@ -582,7 +582,7 @@ struct t8_search_with_batched_queries: public t8_search<Udata>
                                   t8_search_batched_queries_callback<Query_T, Udata> queries_callback,
                                   std::vector<Query_T> &queries, const t8_forest_t forest = nullptr,
                                   Udata *user_data = nullptr)
-    : t8_search<Udata> (element_callback, forest, user_data), queries_callback (queries_callback), queries (queries)
+    : t8_search<Udata> (element_callback, forest, user_data), queries_callback (queries_callback), queries (&queries)
   {
   }
 
@@ -593,7 +593,7 @@ struct t8_search_with_batched_queries: public t8_search<Udata>
   void
   update_queries (std::vector<Query_T> &queries)
   {
-    this->queries = queries;
+    this->queries = &queries;
   }
 
   /**
@@ -627,8 +627,8 @@ struct t8_search_with_batched_queries: public t8_search<Udata>
   {
     T8_ASSERT (new_active_queries.empty ());
     if (!this->active_queries.empty ()) {
-      std::vector<bool> query_matches (this->queries.size ());
-      this->queries_callback (this->forest, ltreeid, element, is_leaf, leaf_elements, tree_leaf_index, this->queries,
+      std::vector<bool> query_matches (this->queries->size ());
+      this->queries_callback (this->forest, ltreeid, element, is_leaf, leaf_elements, tree_leaf_index, *this->queries,
                               this->active_queries, query_matches, this->user_data);
       std::copy_if (this->active_queries.begin (), this->active_queries.end (), std::back_inserter (new_active_queries),
                     [&] (size_t &query_index) { return query_matches[query_index]; });
@@ -651,7 +651,7 @@ struct t8_search_with_batched_queries: public t8_search<Udata>
   void
   init_queries () override
   {
-    this->active_queries.resize (this->queries.size ());
+    this->active_queries.resize (this->queries->size ());
     std::iota (this->active_queries.begin (), this->active_queries.end (), 0);
   }
 
@@ -660,9 +660,9 @@ struct t8_search_with_batched_queries: public t8_search<Udata>
    */
   t8_search_batched_queries_callback<Query_T, Udata> queries_callback;
   /**
-   * A reference to a vector of queries to be processed.
+   * A pointer to the vector of queries to be processed.
    */
-  std::vector<Query_T> &queries;
+  std::vector<Query_T> *queries;
   /**
    * A vector of indices of active queries.
    */
-- 
2.43.0


From dbcbfe35481d94c5a29fcf6ae41b97b9dcd049fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:44 +0000
Subject: [PATCH 53/60] fix: a search object without user data passed an
 uninitialised pointer to its callbacks

---
 src/t8_forest/t8_forest_search/t8_forest_search.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_forest/t8_forest_search/t8_forest_search.hxx b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
index 7ab2b42..a6872e9 100644
--- a/src/t8_forest/t8_forest_search/t8_forest_search.hxx
+++ b/src/t8_forest/t8_forest_search/t8_forest_search.hxx
@@ -372,7 +372,7 @@ struct t8_search: public t8_search_base
   /**
    * The user data associated with the object.
    */
-  Udata *user_data;
+  Udata *user_data = nullptr;
 
  private:
   /**
-- 
2.43.0


From bce29b96d51e34b0aca34ac86cbc039020fc8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 54/60] fix: the joins of a prismed spherical shell of several
 layers were computed from flat trees

---
 src/t8_cmesh/t8_cmesh_examples.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t8_cmesh/t8_cmesh_examples.cxx b/src/t8_cmesh/t8_cmesh_examples.cxx
index 6d47013..7633811 100644
--- a/src/t8_cmesh/t8_cmesh_examples.cxx
+++ b/src/t8_cmesh/t8_cmesh_examples.cxx
@@ -3471,8 +3471,8 @@ t8_cmesh_new_spherical_shell (t8_cmesh_t cmesh, t8_eclass_t eclass, t8_geometry_
       /* Transfer the coordinates from the 2D forest mesh to the cmesh via stacking 3D elements along radial direction. */
       for (int istack = 0; istack < num_layers; istack++) {
         {
-          const double iscale = 1.0 + istack / num_layers;
-          const double oscale = 1.0 + (istack + 1) / num_layers;
+          const double iscale = 1.0 + static_cast<double> (istack) / num_layers;
+          const double oscale = 1.0 + static_cast<double> (istack + 1) / num_layers;
 
           double elem_vertices_3d[T8_ECLASS_MAX_CORNERS * 3];
           for (int ivert = 0; ivert < t8_eclass_num_vertices[eclass_2d]; ivert++) {
-- 
2.43.0


From 8b170707aa2cba2c7549c75a666127eb211a68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 55/60] fix: the bounding box of a process without coarse trees
 was read from trees that it does not have

---
 src/t8_cmesh/t8_cmesh.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t8_cmesh/t8_cmesh.cxx b/src/t8_cmesh/t8_cmesh.cxx
index 4de189b..cf8871b 100644
--- a/src/t8_cmesh/t8_cmesh.cxx
+++ b/src/t8_cmesh/t8_cmesh.cxx
@@ -2418,7 +2418,10 @@ t8_cmesh_get_local_bounding_box (const t8_cmesh_t cmesh, double bounds[6])
 {
   T8_ASSERT (t8_cmesh_is_committed (cmesh));
   const t8_locidx_t num_local_trees = t8_cmesh_get_num_local_trees (cmesh);
-  T8_ASSERT (num_local_trees > 0);
+  if (num_local_trees <= 0) {
+    /* There is no bounding box of an empty (local part of a) cmesh */
+    return false;
+  }
   double tree_bounds[6] = { 0.0 };
   t8_geometry_handler *geom_handler = cmesh->geometry_handler;
   if (geom_handler == nullptr) {
-- 
2.43.0


From a90e34929dcb2b48e79687723cf4bcc7b32e14bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:26 +0000
Subject: [PATCH 56/60] fix: weights and offsets of a partition were ignored if
 the forest was also balanced

---
 src/t8_forest/t8_forest.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index 5df830a..ca144f0 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -3352,6 +3352,11 @@ t8_forest_commit (t8_forest_t forest)
           t8_forest_ref (forest->set_from);
         }
         t8_forest_set_partition (forest_partition, forest->set_from, forest->set_for_coarsening);
+        /* The weights and the offsets that were set describe this partition */
+        t8_forest_set_partition_weight_function (forest_partition, forest->weight_function);
+        if (forest->set_partition_offset) {
+          t8_forest_set_partition_offset (forest_partition, forest->set_first_global_element);
+        }
         /* activate profiling, if this forest has profiling */
         t8_forest_set_profiling (forest_partition, forest->profile != nullptr);
         /* Commit the partitioned forest */
-- 
2.43.0


From 82c32f6a4fdfcdec0261e14903e79d658481f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:26 +0000
Subject: [PATCH 57/60] fix: a weighted partition divided by zero if no element
 has any weight

---
 src/t8_forest/t8_forest_partition.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest_partition.cxx b/src/t8_forest/t8_forest_partition.cxx
index 7234287..8d7b784 100644
--- a/src/t8_forest/t8_forest_partition.cxx
+++ b/src/t8_forest/t8_forest_partition.cxx
@@ -580,7 +580,8 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
     // Thus, the slices of all processes are guaranteed to be disjoint and to cover all ranks.
     std::vector<int> rank_begins (mpisize);
     {
-      int local_rank_begin = std::ceil (mpisize * partition_weight_offset / forest_weight);
+      // If no element has any weight, each process computes its own offset below.
+      int local_rank_begin = forest_weight > 0 ? std::ceil (mpisize * partition_weight_offset / forest_weight) : mpirank;
       const int retval = sc_MPI_Allgather (&local_rank_begin, 1, sc_MPI_INT, rank_begins.data (), 1, sc_MPI_INT, comm);
       SC_CHECK_MPI (retval);
       for (int irank = 1; irank < mpisize; ++irank) {
@@ -614,8 +615,12 @@ t8_forest_partition_compute_new_offset (t8_forest_t forest)
       }
     }
     // Offsets that were not reached due to rounding start behind the last local element.
+    // If no element has any weight, the elements are distributed equally.
     for (; iproc < rank_end; ++iproc) {
-      local_offsets[iproc - rank_begin] = global_elm_idx;
+      local_offsets[iproc - rank_begin]
+        = forest_weight > 0
+            ? global_elm_idx
+            : static_cast<t8_gloidx_t> (std::floor (static_cast<double> (global_num_leaf_elements) * iproc / mpisize));
     }
 
     // Allgather local offsets into the global element offset array.
-- 
2.43.0


From cd4b5be67e5161770ac16b357a3c3bbf2a8b2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:15 +0000
Subject: [PATCH 58/60] fix: the older owner search took the next process for
 the next owner, empty processes misled it

---
 src/t8_forest/t8_forest.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/t8_forest/t8_forest.cxx b/src/t8_forest/t8_forest.cxx
index ca144f0..452374d 100644
--- a/src/t8_forest/t8_forest.cxx
+++ b/src/t8_forest/t8_forest.cxx
@@ -2277,8 +2277,11 @@ t8_forest_element_find_owner_compare (const void *find_owner_data, const void *p
       /* We have to look further left */
       return -1;
     }
-    /* Get the linear id of the first element on the next process. */
-    next_proc_first_desc_id = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) proc + 1);
+    /* Get the linear id of the first element on the next owner, there may be empty processes in between.
+     * Since proc is not the last owner, the next owner follows in the array of owners. */
+    const int next_proc = ((const int *) process)[1];
+    next_proc_first_desc_id
+      = *(t8_linearidx_t *) t8_shmem_array_index (forest->global_first_desc, (size_t) next_proc);
     if (next_proc_first_desc_id <= linear_id) {
       /* We have to look further right */
       return 1;
-- 
2.43.0


From fb6410aa913d32f4a91bcc89f4e3dbe422fdd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:22 +0000
Subject: [PATCH 59/60] fix: several points of a vertex tree were read from
 behind its only vertex

---
 src/t8_geometry/t8_geometry_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 23235bb..43063a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -114,7 +114,7 @@ t8_geom_compute_linear_geometry (t8_eclass_t tree_class, const double *tree_vert
     for (i_coord = 0; i_coord < num_coords; i_coord++) {
       const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
       for (i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; i_dim++) {
-        out_coords[offset_domain_dim + i_dim] = tree_vertices[offset_domain_dim + i_dim];
+        out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
       }
     }
     break;
-- 
2.43.0


From 8aceacb62de3ab45ea23c59d5baac3163b313c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:22 +0000
Subject: [PATCH 60/60] fix: the axis-aligned geometry of lines and quads read
 coordinates behind the point

---
 src/t8_geometry/t8_geometry_helpers.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t8_geometry/t8_geometry_helpers.c b/src/t8_geometry/t8_geometry_helpers.c
index 43063a6..bbbe1a6 100644
--- a/src/t8_geometry/t8_geometry_helpers.c
+++ b/src/t8_geometry/t8_geometry_helpers.c
@@ -227,9 +227,15 @@ t8_geom_compute_linear_axis_aligned_geometry (const t8_eclass_t tree_class, cons
   for (size_t i_coord = 0; i_coord < num_coords; ++i_coord) {
     const size_t offset_tree_dim = i_coord * dimension;
     const size_t offset_domain_dim = i_coord * T8_ECLASS_MAX_DIM;
+    /* Lines and quads have fewer reference coordinates than axes: the axes along which
+     * they extend take them in order. */
+    int i_ref = 0;
     for (int i_dim = 0; i_dim < T8_ECLASS_MAX_DIM; ++i_dim) {
       out_coords[offset_domain_dim + i_dim] = tree_vertices[i_dim];
-      out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_dim] * vector[i_dim];
+      if (i_ref < dimension && (dimension == T8_ECLASS_MAX_DIM || vector[i_dim] != 0)) {
+        out_coords[offset_domain_dim + i_dim] += ref_coords[offset_tree_dim + i_ref] * vector[i_dim];
+        ++i_ref;
+      }
     }
   }
 }
-- 
2.43.0

