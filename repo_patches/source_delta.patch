From afa8d9045b796302d5c8a684779e33ac28b2f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 1/5] fix: read_off_diagram lists no paired column as
 essential, in either direction

---
 phlite/src/reduction/standard.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phlite/src/reduction/standard.rs b/phlite/src/reduction/standard.rs
index 6e94415..6c2f8fa 100644
--- a/phlite/src/reduction/standard.rs
+++ b/phlite/src/reduction/standard.rs
@@ -145,6 +145,11 @@ where
         if r_i.pop_pivot().is_none() {}
     }
 
+    // A zero column may have been read off after the column it is paired with
+    for (birth, _death) in &pairings {
+        essential.remove(birth);
+    }
+
     Diagram {
         essential,
         pairings,
-- 
2.43.0


From 4bd6cb66c8dd739e71a93c016149d36a0705ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 2/5] fix: Rips coboundary values cofacets by the vertex it
 inserted, not the next one

---
 phlite_rips/src/cohomology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phlite_rips/src/cohomology.rs b/phlite_rips/src/cohomology.rs
index ded27da..570b92e 100644
--- a/phlite_rips/src/cohomology.rs
+++ b/phlite_rips/src/cohomology.rs
@@ -95,8 +95,9 @@ impl<CF: NonZeroCoefficient> Iterator for CoboundaryIterator<CF> {
             CF::one().additive_inverse()
         };
 
+        let inserted_vertex = self.next_vertex;
         self.next_vertex += 1;
-        Some((coeff, index, self.next_vertex))
+        Some((coeff, index, inserted_vertex))
     }
 }
 
-- 
2.43.0


From 7a22d57f6d4806e703b17d659fd1bf1bfd8ccb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 3/5] fix: Rips bases can be built for max_dim 0

---
 phlite_rips/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phlite_rips/src/lib.rs b/phlite_rips/src/lib.rs
index 8bc9032..c13c1a6 100644
--- a/phlite_rips/src/lib.rs
+++ b/phlite_rips/src/lib.rs
@@ -145,7 +145,7 @@ fn add_cofacets(
     let max_element = simplex_as_vec.last().unwrap();
     let prev_dimension = simplex_as_vec.len() - 1;
     let new_dimension = prev_dimension + 1;
-    if *max_element == n_vertices - 1 {
+    if *max_element == n_vertices - 1 || new_dimension > max_dim {
         // Cannot extend
         return;
     }
-- 
2.43.0


From 165df9497d3b217fe4829931af77df372c667c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 4/5] fix: a cached column can be read while another is being
 computed

---
 phlite/src/matrices/adaptors.rs | 44 ++++++++-------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/phlite/src/matrices/adaptors.rs b/phlite/src/matrices/adaptors.rs
index 49619bf..eb7f319 100644
--- a/phlite/src/matrices/adaptors.rs
+++ b/phlite/src/matrices/adaptors.rs
@@ -8,7 +8,7 @@
 // ====== WithTrivialFiltration ================
 
 use std::{
-    cell::{Ref, RefCell},
+    cell::RefCell,
     cmp::Reverse,
     collections::HashMap,
     hash::Hash,
@@ -198,29 +198,6 @@ pub struct WithCachedCols<M: MatrixOracle> {
     pub cache: RefCell<HashMap<M::ColT, Vec<(M::CoefficientField, M::RowT)>>>,
 }
 
-// Essentialy https://stackoverflow.com/questions/33541492/returning-iterator-of-a-vec-in-a-refcell
-struct CachedColIter<'a, T> {
-    inner: Option<Ref<'a, [T]>>,
-}
-
-impl<'a, T> Iterator for CachedColIter<'a, T> {
-    type Item = Ref<'a, T>;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        match self.inner.take() {
-            Some(borrow) => match *borrow {
-                [] => None,
-                [_, ..] => {
-                    let (head, tail) = Ref::map_split(borrow, |slice| (&slice[0], &slice[1..]));
-                    self.inner.replace(tail);
-                    Some(head)
-                }
-            },
-            None => None,
-        }
-    }
-}
-
 impl<M> MatrixOracle for WithCachedCols<M>
 where
     M: MatrixOracle<ColT: Hash>,
@@ -242,16 +219,15 @@ where
                 .borrow_mut()
                 .insert(col.clone(), col_as_vec.clone());
         }
-        // Get a borrow to the column
-        let cache_borrow = self.cache.borrow();
-        let col_borrow = Ref::map(cache_borrow, |c| {
-            &c.get(&col).expect("Just populated key")[..]
-        });
-        // Return an iterator
-        CachedColIter {
-            inner: Some(col_borrow),
-        }
-        .map(|entry| entry.clone())
+        // Hand out a copy of the column, so that the cache is not borrowed while the iterator is alive.
+        // Otherwise another column could not be inserted into the cache in the meantime.
+        let col_as_vec = self
+            .cache
+            .borrow()
+            .get(&col)
+            .expect("Just populated key")
+            .clone();
+        col_as_vec.into_iter()
     }
 }
 
-- 
2.43.0


From d12dd75a4b3dcfcd37d639bf3d771f7218b0de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 5/5] fix: the Rips CLI rejects distance matrices that are not
 square

---
 phlite_rips/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phlite_rips/src/main.rs b/phlite_rips/src/main.rs
index c67aca3..fcb6e60 100644
--- a/phlite_rips/src/main.rs
+++ b/phlite_rips/src/main.rs
@@ -31,6 +31,10 @@ pub fn main() {
         .collect();
 
     let n_points = distance_matrix.len();
+    assert!(
+        distance_matrix.iter().all(|row| row.len() == n_points),
+        "Distance matrix should be square"
+    );
     let max_dim = std::env::args()
         .nth(1)
         .map(|arg| {
-- 
2.43.0

