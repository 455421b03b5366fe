From 4403a12431fe1248cb7f4829cd1df5a27c100030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 01/16] fix: VecOption::clone produced a collection whose
 length was 0

---
 trellis/src/vec_option.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..64db792 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -37,22 +37,13 @@ pub struct VecOption<T> {
 
 impl<T: Clone> Clone for VecOption<T> {
     fn clone(&self) -> Self {
-        let clone_capacity = self.vec.len();
-        let mut clone_vec: Vec<T> = Vec::with_capacity(clone_capacity);
-        for (i, item_present) in self.present.iter().enumerate() {
-            if item_present {
-                unsafe {
-                    core::ptr::write(
-                        clone_vec.as_mut_ptr().add(i),
-                        (*self.vec.as_ptr().add(i)).clone(),
-                    );
-                }
-            }
-        }
-        Self {
-            vec: clone_vec,
-            present: self.present.clone(),
+        // Build the clone through push(), so that it is a valid VecOption (and owns exactly the
+        // items cloned so far) at every point where T::clone() could panic.
+        let mut clone = Self::with_capacity(self.len());
+        for item in self.iter() {
+            clone.push(item.cloned());
         }
+        clone
     }
 }
 
-- 
2.43.0


From d486e951cfcf2d810153bcea7eefbad43f5652bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 02/16] fix: VecOption dropped its items again when one of them
 panicked in drop

---
 trellis/src/vec_option.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 64db792..8e53d7a 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -742,6 +742,11 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // Empty 'vec' first. If one of the items panics when it is dropped, then 'vec' is still
+        // dropped while unwinding, and it must not touch any of the items.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -751,9 +756,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 85ebd105b455e19a8e72c63fd6a55d6a36dc8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 03/16] fix: PQ::remove could promote the lesser child and
 break the heap order

---
 trellis/src/priority_queue.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..5cdb487 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,16 +62,15 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
-            let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Move the greater of the two children up, so that it is ordered with its sibling.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && self.pq[i] < self.pq[right] {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && self.pq[child] < self.pq[right] {
+                child = right;
+            }
+            if child < self.pq.len() && self.pq[i] < self.pq[child] {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
-- 
2.43.0


From 289bb7c36e0177d0324bc6ddf9791db0416d2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 04/16] fix: find_shortest_path could take a path from its
 queue that was not the shortest

---
 trellis/src/ortho/shortest_path.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..e82c891 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -52,16 +52,15 @@ impl FindPathState {
         let mut i: usize = index;
         while i < self.pq.len() {
             let i_key = &self.pq[i];
-            let left = left(i);
-            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Move the lesser of the two children up, so that it is ordered with its sibling.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[right]) {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && !Self::pq_is_ordered(&self.pq[child], &self.pq[right]) {
+                child = right;
+            }
+            if child < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[child]) {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
-- 
2.43.0


From c6adbf0992a57c74d92810f5b974b1ab2c2b6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 05/16] fix: find_shortest_path confused vertices with path
 indices when building its result

---
 trellis/src/ortho/shortest_path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index e82c891..c81cb55 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -152,10 +152,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From 94c35eb09ae68b6d2a9603ef3f9ec4196e96e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 06/16] fix: find_shortest_path did not terminate when a cycle
 was reachable

---
 trellis/src/ortho/shortest_path.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index c81cb55..f3886ea 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,4 +1,6 @@
 
+use std::collections::BTreeMap;
+
 type Weight = i32;
 
 // Each entry in the priority queue represents a path.
@@ -114,6 +116,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // The least weight with which each vertex has been reached and expanded. A path that reaches
+    // a vertex without improving on this is abandoned; otherwise a cycle would be followed forever.
+    let mut expanded: BTreeMap<V, Weight> = BTreeMap::new();
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -132,6 +138,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             }
         } else {
             // The current_path has not yet reached the goal.
+            match expanded.get(&current_vert) {
+                Some(&weight) if weight <= current_path_weight => continue,
+                _ => expanded.insert(current_vert, current_path_weight),
+            };
             // Find all the forward edges from this path and generate
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
-- 
2.43.0


From 8968fa3868eb3cf9976ee7c1d507034dd6100327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 07/16] fix: find_disjoint_subgraphs forgot connections when a
 subgraph was joined twice

---
 trellis/src/disjoint.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..7c18fe5 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,14 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+fn find_leader(graph_alias: &[u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        leader = graph_alias[leader as usize];
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,6 +69,10 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
+                    // Edit the entries of their current leaders, so that no earlier connection
+                    // is forgotten.
+                    let g_from = find_leader(&graph_alias, g_from);
+                    let g_to = find_leader(&graph_alias, g_to);
                     let g_low = g_from.min(g_to);
                     let g_high = g_from.max(g_to);
                     graph_alias[g_high as usize] = g_low;
-- 
2.43.0


From 6b8ea81cd4cbdc45386e0546b94689d6fd7ff47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 08/16] fix: find_disjoint_subgraphs wrote to stdout, and
 panicked if it could not

---
 trellis/src/disjoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 7c18fe5..3251a37 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -188,7 +188,7 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
         values: output_values,
     };
 
-    println!("Disjoint subgraphs: {:#?}", subgraphs);
+    debug!("Disjoint subgraphs: {:#?}", subgraphs);
 
     DisjointSubgraphs { subgraphs }
 }
-- 
2.43.0


From a9d893d8a5587fa293af03c56217d236954b13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 09/16] fix: RampTable::iter_pairs_manual yielded the wrong
 keys, and panicked on unowned values

---
 trellis/src/ramp_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..fda0145 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -201,14 +201,14 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // Values which are not owned by any key are not part of any pair.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +217,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From 10cbd5d311b4ed0d45d7d9a662e2215be1a2ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 10/16] fix: RampTable::clear kept its keys when dropping a
 value panicked

---
 trellis/src/ramp_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index fda0145..872bb23 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -99,9 +99,11 @@ impl<T> RampTable<T> {
     }
 
     pub fn clear(&mut self) {
-        self.values.clear();
+        // Clear the index first, so that it does not refer to missing values if dropping a value
+        // panics.
         self.index.clear();
         self.index.push(0);
+        self.values.clear();
     }
 
     /// Iterates slices of values, one slice for each key.
-- 
2.43.0


From 97e1ac58f05996d77374afd65e56edb2acde3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 11/16] fix: ellipticWedge could draw one and a half turns for
 a half turn

---
 trellis/src/common/ellipse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..4aea05a 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -235,7 +235,8 @@ fn initEllipse(
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
     // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    // (anything below PI / 2 is that case: a half turn may round to either side of PI)
+    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < 0.5 * PI) {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From 2a73cf6df1d82cf01a99f00141c97a8eab1747a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 12/16] fix: Pobsopen does not underflow at the first corner of
 a map

---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..6aeaf66 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From a53263d07d81ca38e6db81e5adc97947712403b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 13/16] fix: Pshortestpath copies the polygon and sizes its
 deque before using them

---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..7feaafd 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, 0);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From da503dee66cf95746da86785cb86b8d891d0d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 14/16] fix: find_shortest_path overflowed when the weights of
 a path do not fit an i32

---
 trellis/src/ortho/shortest_path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index f3886ea..3f1dd51 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -3,6 +3,9 @@ use std::collections::BTreeMap;
 
 type Weight = i32;
 
+// The sum of the weights of a path, which need not fit a Weight.
+type PathWeight = i64;
+
 // Each entry in the priority queue represents a path.
 struct Path {
     vert: V, // vertex
@@ -12,7 +15,7 @@ struct Path {
 
 struct PQEntry {
     path: i32,
-    weight: Weight,
+    weight: PathWeight,
 }
 
 fn left(parent: usize) -> usize { parent * 2 + 1 }
@@ -111,14 +114,14 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     struct BestPath {
         path: i32,
-        weight: Weight,
+        weight: PathWeight,
     }
 
     let mut best_path: Option<BestPath> = None;
 
     // The least weight with which each vertex has been reached and expanded. A path that reaches
     // a vertex without improving on this is abandoned; otherwise a cycle would be followed forever.
-    let mut expanded: BTreeMap<V, Weight> = BTreeMap::new();
+    let mut expanded: BTreeMap<V, PathWeight> = BTreeMap::new();
 
     loop {
         // iterate on search
@@ -146,7 +149,7 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
-                let next_path_weight = current_path.weight + edge_weight;
+                let next_path_weight = current_path.weight + PathWeight::from(edge_weight);
                 state.paths.push(Path {
                     vert: next_vert_index as i32,
                     // weight: next_path_weight,
-- 
2.43.0


From 6ee70723620f2b936da6765ab5fcc68855127e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 15/16] fix: shortestPath took distances beyond i32::MAX for
 unreachable

---
 trellis/src/pathplan/shortestpth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortestpth.rs b/trellis/src/pathplan/shortestpth.rs
index cf004b8..bfad36d 100644
--- a/trellis/src/pathplan/shortestpth.rs
+++ b/trellis/src/pathplan/shortestpth.rs
@@ -4,7 +4,8 @@ use super::visibility::directVis;
 use super::*;
 use crate::vec2::Ppoint_t;
 
-const UNSEEN: COORD = core::i32::MAX as f64;
+/* Greater than the length of any path. */
+const UNSEEN: COORD = core::f64::MAX;
 
 /* shortestPath:
  * Given a VxV weighted adjacency matrix, compute the shortest
@@ -30,7 +31,7 @@ pub fn shortestPathGeneric<Wadj: Fn(usize, usize) -> f64>(
     /* initialize arrays */
     let mut dad: Vec<i32> = vec![-1; V];
     let mut vl: Vec<COORD> = vec![-UNSEEN; V + 1]; /* One extra for sentinel, which is at index 0 */
-    vl[0] = -(UNSEEN + 1.0); /* Set sentinel */
+    vl[0] = -core::f64::INFINITY; /* Set sentinel */
     const val: usize = 1; // an offset into vl; rewrite val[x] as vl[val + x]
 
     let mut min = root;
-- 
2.43.0


From 4fa30c5b8901b74727ba77d7487c407e73a94d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 16/16] fix: Pshortestpath took the wrong direction of turning
 for polygons with repeated corners

---
 trellis/src/pathplan/shortest.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 7feaafd..e133666 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -85,20 +85,20 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
             }
         }
 
+        // The corner may be repeated; its neighbors are the nearest corners that differ from it.
+        let n = polyp.ps.len();
         let p2 = polyp.ps[minpi];
-        let p1 = polyp.ps[if minpi == 0 {
-            polyp.ps.len() - 1
-        } else {
-            minpi - 1
-        }];
-        let p3 = polyp.ps[if minpi == polyp.ps.len() - 1 {
-            0
-        } else {
-            minpi + 1
-        }];
+        let p1 = (1..n)
+            .map(|i| polyp.ps[(minpi + n - i) % n])
+            .find(|p| *p != p2)
+            .unwrap_or(p2);
+        let p3 = (1..n)
+            .map(|i| polyp.ps[(minpi + i) % n])
+            .find(|p| *p != p2)
+            .unwrap_or(p2);
         if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
             for pi in (0..polyp.ps.len()).rev() {
-                if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
+                if polyp.ps[pi] == polyp.ps[(pi + 1) % n] {
                     continue;
                 }
                 let pnll = pnls.len();
@@ -110,7 +110,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
             }
         } else {
             for pi in 0..polyp.ps.len() {
-                if pi > 0 && polyp.ps[pi] == polyp.ps[pi - 1] {
+                if polyp.ps[pi] == polyp.ps[(pi + n - 1) % n] {
                     continue;
                 }
                 let pnll = pnls.len();
-- 
2.43.0

