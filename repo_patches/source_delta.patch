From 1511162d7662d9fb58de0380645124337555164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:03 +0000
Subject: [PATCH 1/4] fix: bulk loading yields subtrees of unequal height,
 making later inserts panic

bulk_load derived the height of every subtree from its own element count, so
sibling subtrees whose sizes straddle a power of MAX_SIZE (e.g. 6 and 7 with
the default parameters) ended up with different heights. R* reinsertion
addresses nodes by their depth and relies on all leaves being on the same
level: inserting into such a tree could put leaves and parents into the same
node and later panic with "This is a bug in rstar.".

Derive the shape of all subtrees on one level from a shared upper bound of
their size instead.
---
 .../bulk_load/bulk_load_sequential.rs         | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..788350c 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -12,14 +12,20 @@ use num_traits::Float;
 
 use super::cluster_group_iterator::{calculate_number_of_clusters_on_axis, ClusterGroupIterator};
 
-fn bulk_load_recursive<T, Params>(mut elements: Vec<T>) -> ParentNode<T>
+/// Loads `elements` into a single subtree.
+///
+/// `max_elements` is an upper bound for `elements.len()` which is shared by all subtrees on the
+/// same level. Deriving the subtree's shape from this bound instead of from `elements.len()`
+/// ensures that sibling subtrees always have the same height, even if their sizes differ slightly.
+fn bulk_load_recursive<T, Params>(mut elements: Vec<T>, max_elements: usize) -> ParentNode<T>
 where
     T: RTreeObject,
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
+    debug_assert!(elements.len() <= max_elements);
     let m = Params::MAX_SIZE;
-    if elements.len() <= m {
+    if max_elements <= m {
         // Reached leaf level. Shrink excess capacity so the in-place collect
         // (which reuses the allocation when size_of::<T> == size_of::<RTreeNode<T>>)
         // doesn't preserve a massively over-sized buffer in the final tree node.
@@ -28,12 +34,16 @@ where
         return ParentNode::new_parent(elements);
     }
     let number_of_clusters_on_axis =
-        calculate_number_of_clusters_on_axis::<T, Params>(elements.len()).max(2);
+        calculate_number_of_clusters_on_axis::<T, Params>(max_elements).max(2);
+    let dimensions = <T::Envelope as Envelope>::Point::DIMENSIONS;
+    let max_cluster_size =
+        (0..dimensions).fold(max_elements, |n, _| n.div_ceil(number_of_clusters_on_axis));
 
     let iterator = PartitioningTask::<_, Params> {
         number_of_clusters_on_axis,
+        max_cluster_size,
         work_queue: vec![PartitioningState {
-            current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
+            current_axis: dimensions,
             elements,
         }],
         _params: Default::default(),
@@ -54,6 +64,8 @@ struct PartitioningState<T: RTreeObject> {
 struct PartitioningTask<T: RTreeObject, Params: RTreeParams> {
     work_queue: Vec<PartitioningState<T>>,
     number_of_clusters_on_axis: usize,
+    /// Upper bound for the size of the resulting clusters
+    max_cluster_size: usize,
     _params: core::marker::PhantomData<Params>,
 }
 
@@ -68,7 +80,7 @@ impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Param
             } = next;
             if current_axis == 0 {
                 // Partitioning finished successfully on all axis. The remaining cluster forms a new node
-                let data = bulk_load_recursive::<_, Params>(elements);
+                let data = bulk_load_recursive::<_, Params>(elements, self.max_cluster_size);
                 return RTreeNode::Parent(data).into();
             } else {
                 // The cluster group needs to be partitioned further along the next axis
@@ -97,7 +109,8 @@ where
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    bulk_load_recursive::<_, Params>(elements)
+    let max_elements = elements.len();
+    bulk_load_recursive::<_, Params>(elements, max_elements)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 06ff1711d7145fe36540ab3ba09361a30325815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 2/4] fix: draining by distance from an empty integer tree
 overflows

---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..d52408b 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // An empty node has an empty envelope, which isn't meaningful to inspect.
+            if *idx > 0
+                || (!node.children.is_empty()
+                    && self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From f191557dc0a581a8f550d81f0ef820f6c733e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:26 +0000
Subject: [PATCH 3/4] fix: nearest_neighbor returns a farther object when a
 distance is rounded up

The search discards objects farther than the bound derived from envelopes
(min_max_dist_2). If the distance computed by the object is rounded to slightly
more than that bound, e.g. for the circles of the documentation, which take a
square root, the nearest object itself was discarded and an arbitrary farther
candidate that was already queued was returned. Report failure instead, so that
the caller falls back to the iterator as it already does if all candidates were
discarded.
---
 rstar/src/algorithm/nearest_neighbor.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/nearest_neighbor.rs b/rstar/src/algorithm/nearest_neighbor.rs
index 20283f5..478bfb1 100644
--- a/rstar/src/algorithm/nearest_neighbor.rs
+++ b/rstar/src/algorithm/nearest_neighbor.rs
@@ -229,6 +229,10 @@ impl<T: Ord> SmallHeap<T> {
     }
 }
 
+/// Returns the nearest neighbor of `query_point`.
+///
+/// Returns `None` if the tree is empty or, in rare cases, if rounding issues prevent the search
+/// from finding the nearest neighbor.
 pub fn nearest_neighbor_with_distance_2<T>(
     node: &ParentNode<T>,
     query_point: <T::Envelope as Envelope>::Point,
@@ -287,7 +291,14 @@ where
                 node: RTreeNode::Leaf(ref t),
                 distance,
             } => {
-                return Some((t, distance));
+                // A leaf's distance may be rounded to slightly more than the bound derived from
+                // the envelopes, in which case the nearest leaf itself was discarded. Any object
+                // within the bound is nearer than all discarded ones.
+                return if distance <= smallest_min_max {
+                    Some((t, distance))
+                } else {
+                    None
+                };
             }
         }
     }
-- 
2.43.0


From 6bb63afd55c866895e27888c409acc5b97725b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 4/4] fix: distance to a degenerate line with integer
 coordinates divides by zero

---
 rstar/src/primitives/line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rstar/src/primitives/line.rs b/rstar/src/primitives/line.rs
index ea5f078..1d75838 100644
--- a/rstar/src/primitives/line.rs
+++ b/rstar/src/primitives/line.rs
@@ -75,7 +75,12 @@ where
     fn project_point(&self, query_point: &P) -> P::Scalar {
         let (ref p1, ref p2) = (self.from.clone(), self.to.clone());
         let dir = p2.sub(p1);
-        query_point.sub(p1).dot(&dir) / dir.length_2()
+        let length_2 = dir.length_2();
+        if length_2 == P::Scalar::zero() {
+            // Both ends coincide. Dividing would panic for integers.
+            return P::Scalar::zero();
+        }
+        query_point.sub(p1).dot(&dir) / length_2
     }
 
     /// Returns the nearest point on this line relative to a given point.
-- 
2.43.0

