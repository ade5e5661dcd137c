From 381c18986c8938897072ad5ed92904899686a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 01/14] Add verification hooks guarded by cfg(verif_hooks)

---
 src/lib.rs                                    |   3 +
 src/math/clustering/hdbscan/mod.rs            |   2 +
 src/math/clustering/hdbscan/verif_hooks.rs    |  18 ++
 src/math/clustering/hierarchical/algorithm.rs |  10 ++
 src/math/clustering/hierarchical/mod.rs       |   2 +
 .../clustering/hierarchical/verif_hooks.rs    |  14 ++
 src/verif_hooks.rs                            | 169 ++++++++++++++++++
 7 files changed, 218 insertions(+)
 create mode 100644 src/math/clustering/hdbscan/verif_hooks.rs
 create mode 100644 src/math/clustering/hierarchical/verif_hooks.rs
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b005593..116c0cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,6 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..ab7eae1 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,5 @@
 pub(crate) mod algorithm;
 mod core_distance;
 pub(crate) mod params;
+#[cfg(verif_hooks = "hdbscan")]
+pub mod verif_hooks;
diff --git a/src/math/clustering/hdbscan/verif_hooks.rs b/src/math/clustering/hdbscan/verif_hooks.rs
new file mode 100644
index 0000000..61ba6c7
--- /dev/null
+++ b/src/math/clustering/hdbscan/verif_hooks.rs
@@ -0,0 +1,18 @@
+//! Hooks for external verification harnesses, compiled only with `--cfg verif_hooks`.
+
+use super::core_distance::CoreDistance;
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::number::Float;
+use crate::math::point::Point;
+
+/// Return the core distance of each point.
+pub fn core_distances<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: DistanceMetric,
+) -> Vec<F> {
+    let core_distance = CoreDistance::new(dataset, min_samples, &metric);
+    (0..dataset.len())
+        .map(|index| core_distance.distance_at(index))
+        .collect()
+}
diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..bd16ddd 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -117,6 +117,16 @@ where
     }
 }
 
+#[cfg(verif_hooks = "hierarchical")]
+impl<F> HierarchicalClustering<F>
+where
+    F: Float,
+{
+    pub(super) fn verif_hierarchy(&self) -> &[Node<F>] {
+        &self.hierarchy
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..cb6b733 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,5 @@
 mod algorithm;
 mod node;
 mod union_find;
+#[cfg(verif_hooks = "hierarchical")]
+pub mod verif_hooks;
diff --git a/src/math/clustering/hierarchical/verif_hooks.rs b/src/math/clustering/hierarchical/verif_hooks.rs
new file mode 100644
index 0000000..b327c78
--- /dev/null
+++ b/src/math/clustering/hierarchical/verif_hooks.rs
@@ -0,0 +1,14 @@
+//! Hooks for external verification harnesses, compiled only with `--cfg verif_hooks`.
+
+pub use super::algorithm::HierarchicalClustering;
+pub use super::union_find::UnionFind;
+use crate::math::number::Float;
+
+/// Return the merges as tuples of left node, right node, weight and size.
+pub fn merges<F: Float>(clustering: &HierarchicalClustering<F>) -> Vec<(usize, usize, F, usize)> {
+    clustering
+        .verif_hierarchy()
+        .iter()
+        .map(|node| (node.left, node.right, node.weight, node.size))
+        .collect()
+}
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..583db03
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,169 @@
+//! Hooks for external verification harnesses.
+//!
+//! Compiled only with `--cfg verif_hooks`, together with one `--cfg verif_hooks="<group>"` per
+//! group of hooks. Nothing in here is part of the public API.
+
+#[cfg(verif_hooks = "math")]
+pub mod math {
+    pub use crate::math::distance::metric::DistanceMetric;
+    pub use crate::math::number::{Clamp, Float, Number};
+    pub use crate::math::point::{Point, Point2, Point3, Point5};
+}
+
+#[cfg(verif_hooks = "color")]
+pub mod color {
+    pub use crate::color::lab::Lab;
+    pub use crate::color::rgba::Rgba;
+    pub use crate::color::white_point::D65;
+    pub use crate::color::xyz::XYZ;
+}
+
+#[cfg(verif_hooks = "graph")]
+pub mod graph {
+    pub use crate::math::graph::edge::{Edge, WeightedEdge};
+    pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+}
+
+#[cfg(verif_hooks = "neighbors")]
+pub mod neighbors {
+    use crate::math::distance::metric::DistanceMetric;
+    use crate::math::neighbors::kdtree::KDTree;
+    use crate::math::neighbors::linear::LinearSearch;
+    use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
+    use crate::math::number::Float;
+    use crate::math::point::Point;
+
+    fn unwrap<F: Float>(neighbor: Neighbor<F>) -> (usize, F) {
+        (neighbor.index, neighbor.distance)
+    }
+
+    /// Neighbor search reporting neighbors as pairs of an index and a distance.
+    pub trait Search<F: Float, P> {
+        fn search(&self, query: &P, k: usize) -> Vec<(usize, F)>;
+        fn search_nearest(&self, query: &P) -> Option<(usize, F)>;
+        fn search_radius(&self, query: &P, radius: F) -> Vec<(usize, F)>;
+    }
+
+    struct Wrapper<N>(N);
+
+    impl<F, P, N> Search<F, P> for Wrapper<N>
+    where
+        F: Float,
+        N: NeighborSearch<F, P>,
+    {
+        fn search(&self, query: &P, k: usize) -> Vec<(usize, F)> {
+            self.0.search(query, k).into_iter().map(unwrap).collect()
+        }
+
+        fn search_nearest(&self, query: &P) -> Option<(usize, F)> {
+            self.0.search_nearest(query).map(unwrap)
+        }
+
+        fn search_radius(&self, query: &P, radius: F) -> Vec<(usize, F)> {
+            self.0
+                .search_radius(query, radius)
+                .into_iter()
+                .map(unwrap)
+                .collect()
+        }
+    }
+
+    pub fn kdtree<'a, F: Float, P: Point<F>>(
+        dataset: &'a Vec<P>,
+        metric: &'a DistanceMetric,
+    ) -> impl Search<F, P> + 'a
+    where
+        F: 'a,
+    {
+        Wrapper(KDTree::new(dataset, metric))
+    }
+
+    pub fn linear<'a, F: Float, P: Point<F>>(
+        dataset: &'a Vec<P>,
+        metric: &'a DistanceMetric,
+    ) -> impl Search<F, P> + 'a
+    where
+        F: 'a,
+    {
+        Wrapper(LinearSearch::new(dataset, *metric))
+    }
+}
+
+#[cfg(verif_hooks = "dbscan")]
+pub mod dbscan {
+    use crate::math::clustering::dbscan::algorithm::DBSCAN;
+    use crate::math::clustering::dbscan::params::Params;
+    use crate::math::clustering::traits::Fit;
+    use crate::math::distance::metric::DistanceMetric;
+    use crate::math::number::Float;
+    use crate::math::point::Point;
+
+    pub fn fit<F: Float, P: Point<F>>(
+        dataset: &[P],
+        min_points: usize,
+        epsilon: F,
+        metric: DistanceMetric,
+    ) -> DBSCAN<F, P> {
+        DBSCAN::fit(dataset, &Params::new(min_points, epsilon, metric))
+    }
+}
+
+#[cfg(verif_hooks = "kmeans")]
+pub mod kmeans {
+    use crate::math::clustering::kmeans::algorithm::Kmeans;
+    use crate::math::clustering::kmeans::init::Initializer;
+    use crate::math::clustering::kmeans::params::KmeansParams;
+    use crate::math::clustering::traits::Fit;
+    use crate::math::distance::metric::DistanceMetric;
+    use crate::math::number::Float;
+    use crate::math::point::Point;
+    use rand::Rng;
+
+    fn initializer<R: Rng + Clone>(rng: R, plus_plus: bool) -> Initializer<R> {
+        if plus_plus {
+            Initializer::KmeansPlusPlus(rng)
+        } else {
+            Initializer::Random(rng)
+        }
+    }
+
+    /// Return the initial centroids.
+    pub fn initialize<F: Float, P: Point<F>, R: Rng + Clone>(
+        dataset: &[P],
+        k: usize,
+        metric: DistanceMetric,
+        rng: R,
+        plus_plus: bool,
+    ) -> Vec<P> {
+        initializer(rng, plus_plus).initialize(dataset, k, &metric)
+    }
+
+    /// Fit and return the centroid and the number of points of each cluster.
+    #[allow(clippy::too_many_arguments)]
+    pub fn fit<F: Float, P: Point<F>, R: Rng + Clone>(
+        dataset: &[P],
+        k: usize,
+        metric: DistanceMetric,
+        rng: R,
+        plus_plus: bool,
+        max_iterations: usize,
+        tolerance: F,
+    ) -> Vec<(P, usize)> {
+        let params = KmeansParams::new(k, metric, initializer(rng, plus_plus))
+            .with_max_iterations(max_iterations)
+            .with_tolerance(tolerance);
+        let kmeans: Kmeans<F, P> = Kmeans::fit(dataset, &params);
+        kmeans
+            .centroids()
+            .into_iter()
+            .enumerate()
+            .map(|(index, centroid)| (centroid, kmeans.count_at(index)))
+            .collect()
+    }
+}
+
+#[cfg(verif_hooks = "hierarchical")]
+pub use crate::math::clustering::hierarchical::verif_hooks as hierarchical;
+
+#[cfg(verif_hooks = "hdbscan")]
+pub use crate::math::clustering::hdbscan::verif_hooks as hdbscan;
-- 
2.43.0


From 94e4c637f7c08430b04207c791ab6218a8f5189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 02/14] fix: clip out-of-gamut colors instead of panicking

The mean of the Lab colors of a cluster may lie outside of the sRGB gamut, in which case a channel
was below 0 or above 255 and the conversion to u8 failed, so that extracting a palette panicked.
---
 src/color/rgba.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..1eb1f02 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,11 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        // Colors outside of the sRGB gamut are clipped to the nearest representable value.
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From 24f2cb937f913c5bd960fbc2116b31ee93d9b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 03/14] fix: return DBSCAN centroids in the order of cluster
 IDs

The centroids were returned in the arbitrary order of a hash map, but callers look up the count of
the i-th centroid by cluster ID i, so swatches got the percentage of another cluster and extracting
the same image twice gave different palettes.
---
 src/math/clustering/dbscan/algorithm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..5bf53be 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -28,9 +28,12 @@ where
 {
     /// Return a set of centroid.
     pub fn centroids(&self) -> Vec<P> {
-        self.centroids
-            .values()
-            .map(|centroid| centroid.clone())
+        // The position of a centroid must match its cluster ID regardless of the order of the map.
+        let mut centroids: Vec<(&usize, &P)> = self.centroids.iter().collect();
+        centroids.sort_unstable_by_key(|(cluster_id, _)| **cluster_id);
+        centroids
+            .into_iter()
+            .map(|(_, centroid)| centroid.clone())
             .collect()
     }
 
-- 
2.43.0


From 10b0b0e14f71d42a066006ceaed5403a7b2a71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 04/14] fix: prune k-nearest-neighbor search by the k-th
 nearest distance

---
 src/math/neighbors/kdtree/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..88665ad 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -48,6 +49,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +57,12 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        nearest.push(Reverse(Element::new(index, distance)));
+        if nearest.len() > k {
+            nearest.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +71,18 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        // The distance to the k-th nearest of the visited points.
+        let distance = nearest
+            .peek()
+            .map(|Reverse(e)| e.distance())
+            .unwrap_or(F::min_value());
+        if nearest.len() < k || delta.abs() <= distance {
+            self.search_recursively(node.left(), query, k, heap, nearest);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         }
     }
 
@@ -147,7 +154,8 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
         let mut neighbors = Vec::with_capacity(k);
         while let Some(element) = heap.pop() {
-- 
2.43.0


From a40f75eb334ca9822b36b4a555e1c5abeb1c9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 05/14] fix: bound the capacity reserved for k nearest
 neighbors by the dataset

---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 src/math/neighbors/linear.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 88665ad..0478a24 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -157,7 +157,7 @@ where
         let mut nearest: BinaryHeap<Reverse<Element<F>>> = BinaryHeap::new();
         self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(heap.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From 56ad9bc99e7b11c4862bf926221816ef610a01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 06/14] fix: prune kd-tree searches in the units of the metric

---
 src/math/neighbors/kdtree/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 0478a24..ee0646f 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -76,7 +76,7 @@ where
             .peek()
             .map(|Reverse(e)| e.distance())
             .unwrap_or(F::min_value());
-        if nearest.len() < k || delta.abs() <= distance {
+        if nearest.len() < k || self.axis_distance(delta) <= distance {
             self.search_recursively(node.left(), query, k, heap, nearest);
             self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
@@ -108,7 +108,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.axis_distance(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
@@ -118,6 +118,14 @@ where
         }
     }
 
+    /// Return the least distance in the metric between points that differ by delta on one axis.
+    fn axis_distance(&self, delta: F) -> F {
+        match self.metric {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
+
     fn build_node(dataset: &'a [P], indices: &mut [usize], depth: usize) -> Option<Node> {
         if dataset.is_empty() || indices.is_empty() {
             return None;
-- 
2.43.0


From c9cb1ebd0f5f894fdef0c8e704f64a2951625641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 07/14] fix: do not double the centroids of k-means for k of at
 least the dataset size

---
 src/math/clustering/kmeans/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..167402b 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -97,8 +97,9 @@ where
                 .iter()
                 .enumerate()
                 .map(|(index, data)| {
-                    let mut cluster = Cluster::new(data);
+                    let mut cluster = Cluster::new(&P::zero());
                     cluster.insert(index, data);
+                    cluster.update_centroid();
                     cluster
                 })
                 .collect();
-- 
2.43.0


From b8f1432a343a9dad80d0c9a42e69ff0006add89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 08/14] fix: stop k-means only after every centroid has
 converged

---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 167402b..7cb377a 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if difference >= tolerance {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 530ae41491035eaec1855aabaa174f8bcf9506aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 09/14] fix: keep the centroid of k-means clusters that lose
 all members

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 7cb377a..6bbb8f8 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From aac8fdde917deca3cf8b442d3953647cfe892e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 10/14] fix: never choose the same initial centroid of k-means
 twice

---
 src/math/clustering/kmeans/init.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,17 +69,14 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
@@ -93,7 +90,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From d3ca69db972143040c2820b24c919bcb586a4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 11/14] fix: partition an empty dataset into no clusters

---
 src/math/clustering/hierarchical/algorithm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index bd16ddd..f816147 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -9,6 +9,7 @@ use std::collections::{BinaryHeap, VecDeque};
 
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
+    n_data: usize,
     hierarchy: Vec<Node<F>>,
 }
 
@@ -23,6 +24,7 @@ where
     {
         if dataset.is_empty() {
             return Self {
+                n_data: 0,
                 hierarchy: Vec::new(),
             };
         }
@@ -53,13 +55,16 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            n_data: dataset.len(),
+            hierarchy: nodes,
+        }
     }
 
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
-- 
2.43.0


From 942d82abd861bb9163ceaa499ca4b580f663ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 12/14] fix: do not overflow for the largest number of samples
 of core distances

---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
-- 
2.43.0


From 6e05f373ee8d04ff4042d4cddfa97c88b4b52c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 13/14] fix: keep centroids of large clusters accurate in
 single precision

Naive summation accumulates rounding errors: the centroid of 100,000 f32 points
that share the coordinate 0.98272 was 0.98375 there, and colors of large uniform
areas of an image drifted by several levels.
---
 src/math/clustering/dbscan/algorithm.rs | 11 ++++++++++-
 src/math/clustering/kmeans/cluster.rs   |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 5bf53be..e34ca32 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -135,6 +135,7 @@ where
         }
 
         let mut centroids: HashMap<usize, P> = HashMap::new();
+        let mut compensations: HashMap<usize, P> = HashMap::new();
         let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
@@ -144,7 +145,15 @@ where
                         let entry = centroids.entry(cluster_id);
                         entry.or_insert(P::zero())
                     };
-                    centroid.add_assign(dataset[index]);
+                    let compensation = {
+                        let entry = compensations.entry(cluster_id);
+                        entry.or_insert(P::zero())
+                    };
+                    // Sum up with compensation so that rounding errors of large clusters do not accumulate.
+                    let addend = dataset[index] - *compensation;
+                    let total = *centroid + addend;
+                    *compensation = (total - *centroid) - addend;
+                    *centroid = total;
 
                     let children = {
                         let entry = membership.entry(cluster_id);
diff --git a/src/math/clustering/kmeans/cluster.rs b/src/math/clustering/kmeans/cluster.rs
index e255412..277f50f 100644
--- a/src/math/clustering/kmeans/cluster.rs
+++ b/src/math/clustering/kmeans/cluster.rs
@@ -11,6 +11,7 @@ where
 {
     _t: PhantomData<F>,
     centroid: P,
+    compensation: P,
     children: HashSet<usize>,
 }
 
@@ -23,6 +24,7 @@ where
         Self {
             _t: PhantomData::default(),
             centroid: *initial_centroid,
+            compensation: P::zero(),
             children: HashSet::new(),
         }
     }
@@ -49,12 +51,17 @@ where
     }
 
     pub fn insert(&mut self, index: usize, data: &P) {
-        self.centroid.add_assign(*data);
+        // Sum up with compensation so that rounding errors of large clusters do not accumulate.
+        let addend = *data - self.compensation;
+        let total = self.centroid + addend;
+        self.compensation = (total - self.centroid) - addend;
+        self.centroid = total;
         self.children.insert(index);
     }
 
     pub fn clear(&mut self) {
         self.centroid.set_zero();
+        self.compensation.set_zero();
         self.children.clear();
     }
 }
-- 
2.43.0


From 7db7483751a91789ecf870e8657f08c5bdc524d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 14/14] Add hooks for requests beyond the valid range

---
 src/math/clustering/hdbscan/verif_hooks.rs | 10 ++++++++++
 src/verif_hooks.rs                         | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/math/clustering/hdbscan/verif_hooks.rs b/src/math/clustering/hdbscan/verif_hooks.rs
index 61ba6c7..5512f47 100644
--- a/src/math/clustering/hdbscan/verif_hooks.rs
+++ b/src/math/clustering/hdbscan/verif_hooks.rs
@@ -16,3 +16,13 @@ pub fn core_distances<F: Float, P: Point<F>>(
         .map(|index| core_distance.distance_at(index))
         .collect()
 }
+
+/// Return the core distance of one point.
+pub fn core_distance_at<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: DistanceMetric,
+    index: usize,
+) -> F {
+    CoreDistance::new(dataset, min_samples, &metric).distance_at(index)
+}
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 583db03..80d0efc 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -160,6 +160,21 @@ pub mod kmeans {
             .map(|(index, centroid)| (centroid, kmeans.count_at(index)))
             .collect()
     }
+
+    /// Fit with the default limits and return the number of points of the clusters.
+    pub fn counts<F: Float, P: Point<F>, R: Rng + Clone>(
+        dataset: &[P],
+        k: usize,
+        rng: R,
+        indices: &[usize],
+    ) -> Vec<usize> {
+        let params = KmeansParams::new(k, DistanceMetric::Euclidean, initializer(rng, false));
+        let kmeans: Kmeans<F, P> = Kmeans::fit(dataset, &params);
+        indices
+            .iter()
+            .map(|&index| kmeans.count_at(index))
+            .collect()
+    }
 }
 
 #[cfg(verif_hooks = "hierarchical")]
-- 
2.43.0

