From 0a17ce272ee1a526c8ac64113800f12dbbbe767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 01/36] fix: report correct touch point for concentric opposite
 direction arcs touching at arc2 start

---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..5ff40d4 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,13 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at start of arc2 (which is u2 if arc2 direction was reversed)
+                    let point = if same_direction_arcs {
+                        u1.pos()
+                    } else {
+                        u2.pos()
+                    };
+                    OneIntersect { point }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From fe71b71d69cdf63c7877422b5fdace418e5f25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 02/36] fix: angle_is_between epsilon inclusion at the start
 angle

---
 cavalier_contours/src/core/math/base_math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index bc71e77..72f6679 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -120,7 +120,8 @@ where
     let end_sweep = normalize_radians(end_angle - start_angle);
     let mid_sweep = normalize_radians(test_angle - start_angle);
 
-    mid_sweep < end_sweep + epsilon
+    // also fuzzy inclusive at the start (test angle just before start wraps to nearly full turn)
+    mid_sweep < end_sweep + epsilon || mid_sweep > T::tau() - epsilon
 }
 
 /// Same as [angle_is_between_eps] using default epsilon.
-- 
2.43.0


From ac5529fba048fffb2c11ba08172b262eb75ef9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 03/36] fix: overlapping slice end bulge when several overlaps
 join on its last segment

---
 .../src/polyline/internal/pline_intersects.rs    | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 0471a66..25adfad 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -594,7 +594,7 @@ where
                     } else {
                         // slice is not on one pline2 segment
                         // updated_start positioned at start_intr.point1 and connects with start_u2
-                        // updated_end positioned at end_intr.point1 and connects with end_intr.point2
+                        // updated_end positioned at end_u1 and connects with end_intr.point2
                         // end_point positioned at end_intr.point2
                         let updated_start = {
                             let split1 = seg_split_at_point(
@@ -611,15 +611,11 @@ where
                             let end_u2 =
                                 pline2.at(pline2.next_wrapping_index(end_intr.start_index2));
 
-                            let split1 =
-                                seg_split_at_point(end_u1, end_u2, end_intr.point1, pos_equal_eps);
-                            let split2 = seg_split_at_point(
-                                split1.split_vertex,
-                                end_u2,
-                                end_intr.point2,
-                                pos_equal_eps,
-                            );
-                            split2.updated_start
+                            // slice follows the whole segment from its start vertex (end_intr.point1
+                            // may be part way along it if multiple intersects are on the segment)
+                            let split =
+                                seg_split_at_point(end_u1, end_u2, end_intr.point2, pos_equal_eps);
+                            split.updated_start
                         };
 
                         Self {
-- 
2.43.0


From 041fd67476b641e1e5df479ceb593737be2b77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 04/36] fix: check all vertexes of a raw offset without self
 intersects before accepting it

---
 .../src/polyline/internal/pline_offset.rs     | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..34f2985 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -718,16 +718,19 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // no self intersects, test vertexes on polyline are valid (testing only one vertex is not
+        // enough, it may lie exactly where a part of the offset collapses)
+        if raw_offset_polyline.iter_vertexes().any(|v| {
+            !point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                v.pos(),
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        }) {
             // not valid
             return result;
         }
@@ -1103,16 +1106,19 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // test vertexes on raw offset polyline are valid (testing only one vertex is not
+        // enough, it may lie exactly where a part of the offset collapses)
+        if raw_offset_polyline.iter_vertexes().any(|v| {
+            !point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                v.pos(),
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        }) {
             return result;
         }
 
-- 
2.43.0


From 0bad65b38fd60922db6faa9c1abe257843c0717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 05/36] fix: last() of an empty polyline returns None instead
 of overflowing

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..ff6408a 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,7 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        self.get(self.vertex_count().checked_sub(1)?)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From 79ea5a9761df5c6e57333153cc387314967970c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 06/36] fix: removing repeat positions handles the closing
 joint by the vertexes that are left

A closed polyline with all vertexes on one position became empty, and repeats between the vertexes
left at the closing joint were missed or removed twice.
---
 cavalier_contours/src/polyline/traits.rs | 42 +++++++++++++++---------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index ff6408a..dae8d06 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -437,19 +437,26 @@ pub trait PlineSource {
             }
         }
 
-        // check if is_closed and last repeats position on first
-        if self.is_closed()
-            && self
-                .last()
-                .unwrap()
-                .pos()
-                .fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
-        {
-            result
-                .get_or_insert_with(|| {
-                    Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
-                })
-                .remove_last();
+        // check if is_closed and last repeats position on first (comparing the vertexes that are
+        // left, and always leaving at least one vertex)
+        if self.is_closed() {
+            let repeats_first = |pl: &Self::OutputPolyline| {
+                let last = pl.at(pl.vertex_count() - 1);
+                pl.vertex_count() > 1 && last.pos().fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+            };
+
+            if result.is_none() && prev_pos.fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps) {
+                result = Some(Self::OutputPolyline::from_iter(
+                    self.iter_vertexes(),
+                    self.is_closed(),
+                ));
+            }
+
+            if let Some(ref mut r) = result {
+                while repeats_first(r) {
+                    r.remove_last();
+                }
+            }
         }
 
         result
@@ -1798,10 +1805,13 @@ pub trait PlineCreation: PlineSourceMut + Sized {
             result.add_or_replace_vertex(v, pos_equal_eps);
         }
 
-        if pline.is_closed() && result.vertex_count() >= 2 {
+        if pline.is_closed() {
             // catch last position overlapping first for closed polyline case
-            let last = result.last().unwrap();
-            if last.pos().fuzzy_eq_eps(result.at(0).pos(), pos_equal_eps) {
+            while result.vertex_count() >= 2 {
+                let last = result.last().unwrap();
+                if !last.pos().fuzzy_eq_eps(result.at(0).pos(), pos_equal_eps) {
+                    break;
+                }
                 result.remove_last();
             }
         }
-- 
2.43.0


From 43410338ea5daf5654c464cea622378ea2653c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 07/36] fix: remove_redundant keeps the path when only the last
 vertex follows repeats at the start

The remaining vertex count was taken without the repeats skipped at the start, so the path to the
last vertex was lost and open polylines were processed past their end.
---
 cavalier_contours/src/polyline/traits.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index dae8d06..2ff3a96 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -549,10 +549,12 @@ pub trait PlineSource {
 
         // remove all repeat positions at the start
         let mut i = 2;
+        let mut all_repeats = false;
         while v1.pos().fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
             v1.bulge = v2.bulge;
             // check for reaching the end of polyline
             if i >= vc {
+                all_repeats = true;
                 break;
             }
             v2 = self.at(i);
@@ -566,8 +568,8 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
+        // if every vertex is a repeat return polyline with the only vertex
+        if all_repeats {
             return result;
         }
 
@@ -577,7 +579,8 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // remaining vertexes to visit as v3, a closed polyline ends at the first vertex again
+        let iter_count = if self.is_closed() { vc - i + 1 } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
-- 
2.43.0


From a2c53084a529d60181c5ff3d947948cc5b9b0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 08/36] fix: remove_redundant takes the updated first vertex
 when closing, and never indexes past it

---
 cavalier_contours/src/polyline/traits.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 2ff3a96..9ff457d 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -705,11 +705,12 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
-                    if pl
-                        .last()
-                        .unwrap()
-                        .pos()
-                        .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+                    if pl.vertex_count() > 1
+                        && pl
+                            .last()
+                            .unwrap()
+                            .pos()
+                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
                     }
@@ -737,10 +738,14 @@ pub trait PlineSource {
             // v1 => last
             // v2 => first
             // v3 => second
-            let v3 = match result.as_ref() {
-                Some(pl) => pl.at(1),
-                None => self.at(1),
+            // first and second are taken from the result since their bulges may have been updated
+            let (v2, v3) = match result.as_ref() {
+                Some(pl) if pl.vertex_count() < 2 => return result,
+                Some(pl) => (pl.at(0), pl.at(1)),
+                None => (self.at(0), self.at(1)),
             };
+            let v2_bulge_is_zero = v2.bulge_is_zero();
+            let v2_bulge_is_pos = v2.bulge_is_pos();
             if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
                 // first vertex is in middle of line
                 let p = result.get_or_insert_with(|| {
-- 
2.43.0


From fb3d63bd68f71941bb811867f7641549d82cddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 09/36] fix: remove_redundant keeps the turning point of short
 back-tracking lines

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 9ff457d..2a6bf09 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -539,7 +539,7 @@ pub trait PlineSource {
                     (v1.x * (v2.y - v3.y) + v2.x * (v3.y - v1.y) + v3.x * (v1.y - v2.y))
                         .fuzzy_eq_zero_eps(pos_equal_eps);
                 let same_direction =
-                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -pos_equal_eps;
+                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > Self::Num::zero();
 
                 collinear && same_direction
             };
-- 
2.43.0


From 885a6bb27a4f04ab64d1b035356cfc3725f5aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 10/36] fix: approximating arcs of a single vertex closed
 polyline keeps the vertex

---
 cavalier_contours/src/polyline/traits.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 2a6bf09..a97c285 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1261,8 +1261,9 @@ pub trait PlineSource {
             }
         }
 
-        if !self.is_closed() {
-            // add the final missing vertex in the case that the polyline is not closed
+        if !self.is_closed() || self.vertex_count() == 1 {
+            // add the final missing vertex in the case that the polyline is not closed (or has no
+            // segments)
             result.add_vertex(self.last().unwrap());
         }
 
-- 
2.43.0


From 8dc320f9de1d813877149d22d00a4647155aedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 11/36] fix: finding a point by path length on an empty
 polyline returns Err instead of panicking

---
 cavalier_contours/src/polyline/traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index a97c285..3278c8e 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1528,7 +1528,11 @@ pub trait PlineSource {
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
         if target_path_length <= Self::Num::zero() {
-            return Ok((0, self.at(0).pos()));
+            // an empty polyline has no points (total path length is zero)
+            return match self.get(0) {
+                Some(v) => Ok((0, v.pos())),
+                None => Err(Self::Num::zero()),
+            };
         }
 
         let mut acc_length = Self::Num::zero();
-- 
2.43.0


From 0b27a32b9d41280fd16a7e5aa95174d06dc748d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 12/36] fix: two intersects of arc segments are reported in
 order along the second segment

---
 .../src/polyline/pline_seg_intersect.rs       | 56 ++++++++-----------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 5ff40d4..f8a1aa5 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -362,64 +362,52 @@ where
                 try_add_end_point_intr(v2.pos());
             }
 
+            // return points ordered according to second segment direction
+            let ordered_two_intersects = |pt1: Vector2<T>, pt2: Vector2<T>| -> PlineSegIntr<T> {
+                if dist_squared(pt1, u1.pos()) < dist_squared(pt2, u1.pos()) {
+                    TwoIntersects {
+                        point1: pt1,
+                        point2: pt2,
+                    }
+                } else {
+                    TwoIntersects {
+                        point1: pt2,
+                        point2: pt1,
+                    }
+                }
+            };
+
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-                    (None, None) => TwoIntersects { point1, point2 },
+                    (None, None) => ordered_two_intersects(point1, point2),
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
                         if dist_squared(end_pt, point1) < dist_squared(end_pt, point2) {
-                            TwoIntersects {
-                                point1: end_pt,
-                                point2,
-                            }
+                            ordered_two_intersects(end_pt, point2)
                         } else {
-                            TwoIntersects {
-                                point1,
-                                point2: end_pt,
-                            }
-                        }
-                    }
-                    (Some(end_pt1), Some(end_pt2)) => {
-                        if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            TwoIntersects {
-                                point1: end_pt1,
-                                point2: end_pt2,
-                            }
-                        } else {
-                            TwoIntersects {
-                                point1: end_pt2,
-                                point2: end_pt1,
-                            }
+                            ordered_two_intersects(point1, end_pt)
                         }
                     }
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => NoIntersect,
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             }
         }
-- 
2.43.0


From 28f4f346c6c123f37cd7b683724098194a603b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 13/36] fix: overlap of nearly vertical collinear lines is
 measured along the larger component

---
 cavalier_contours/src/core/math/line_line_intersect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index b9ac959..9046f1b 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -188,7 +188,8 @@ where
 
     // neither segment is a point, check if they overlap
     let w2 = v2 - u1;
-    let (mut seg2_t0, mut seg2_t1) = if u.x.fuzzy_eq_zero_eps(eps) {
+    // use larger component to avoid adding error from a small denominator (nearly vertical lines)
+    let (mut seg2_t0, mut seg2_t1) = if u.x.abs() < u.y.abs() {
         (w.y / u.y, w2.y / u.y)
     } else {
         (w.x / u.x, w2.x / u.x)
-- 
2.43.0


From 70fa1f31d5efb6cc9692ecaa11428c306eccc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 14/36] fix: line and circle intersects of nearly vertical
 lines keep full precision

---
 .../src/core/math/line_circle_intersect.rs    | 31 ++-----------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index c10f808..318b103 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -94,36 +94,11 @@ where
         return NoIntersect;
     }
 
-    let p0_shifted = p0 - circle_center;
     let p1_shifted = p1 - circle_center;
 
-    // note: using Real number's defined epsilon for this check since it's just avoiding division by
-    // too small a number, using the epsilon passed into this function causes unneeded loss of
-    // precision (this branch is not directly determining the intersect result case returned)
-    let (a, b, c) = if dx.fuzzy_eq_zero() {
-        // vertical line, using average of point x values for fuzziness
-        let x_pos = (p1_shifted.x + p0_shifted.x) / T::two();
-        // x = x_pos
-        // x - x_pos = 0
-
-        // A = 1
-        // B = 0
-        // C = -x_pos
-        (T::one(), T::zero(), -x_pos)
-    } else {
-        // (y - y1) = m(x - x1)
-        // y - y1 = mx - mx1
-        // mx - y + y1 - mx1 = 0
-
-        // A = -m
-        // B = 1.0
-        // C = -y1 + m*x1
-
-        // m = (y1 - y0) / (x1 - x0)
-
-        let m = dy / dx;
-        (m, -T::one(), p1_shifted.y - m * p1_shifted.x)
-    };
+    // line as Ax + By + C = 0, scaled by dx rather than using the slope so that nearly vertical lines
+    // lose no precision
+    let (a, b, c) = (dy, -dx, dx * p1_shifted.y - dy * p1_shifted.x);
 
     let a2 = a * a;
     let b2 = b * b;
-- 
2.43.0


From 6c76fc77414c9ff83337a4378bc6fc62b7a1a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 15/36] fix: segment intersects compare the arc sweep by
 position difference for every radius

---
 .../src/polyline/pline_seg_intersect.rs         | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index f8a1aa5..16fbd4b 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -95,6 +95,8 @@ where
                                  a2: PlineVertex<T>|
      -> PlineSegIntr<T> {
         let (arc_radius, arc_center) = seg_arc_radius_and_center(a1, a2);
+        // sweep test compares an area, scale by radius so that epsilon is a position difference
+        let sweep_eps = pos_equal_eps * arc_radius;
 
         let point_lies_on_arc = |pt: Vector2<T>| -> bool {
             point_within_arc_sweep(
@@ -103,7 +105,7 @@ where
                 a2.pos(),
                 a1.bulge_is_neg(),
                 pt,
-                pos_equal_eps,
+                sweep_eps,
             ) && dist_squared(pt, arc_center)
                 .sqrt()
                 .fuzzy_eq_eps(arc_radius, pos_equal_eps)
@@ -124,7 +126,7 @@ where
                 a2.pos(),
                 a1.bulge_is_neg(),
                 p,
-                pos_equal_eps,
+                sweep_eps,
             );
             if within_sweep { Some(p) } else { None }
         };
@@ -240,6 +242,9 @@ where
     // both v and u are arcs
     let (arc1_radius, arc1_center) = seg_arc_radius_and_center(v1, v2);
     let (arc2_radius, arc2_center) = seg_arc_radius_and_center(u1, u2);
+    // sweep test compares an area, scale by radius so that epsilon is a position difference
+    let sweep1_eps = pos_equal_eps * arc1_radius;
+    let sweep2_eps = pos_equal_eps * arc2_radius;
 
     let start_and_sweep_angle = |sp: Vector2<T>, center: Vector2<T>, bulge: T| -> (T, T) {
         let start_angle = normalize_radians(angle(center, sp));
@@ -255,14 +260,14 @@ where
             v2.pos(),
             v1.bulge_is_neg(),
             pt,
-            pos_equal_eps,
+            sweep1_eps,
         ) && point_within_arc_sweep(
             arc2_center,
             u1.pos(),
             u2.pos(),
             u1.bulge_is_neg(),
             pt,
-            pos_equal_eps,
+            sweep2_eps,
         )
     };
 
@@ -274,7 +279,7 @@ where
             v2.pos(),
             v1.bulge_is_neg(),
             pt,
-            pos_equal_eps,
+            sweep1_eps,
         ) && dist_squared(pt, arc1_center)
             .sqrt()
             .fuzzy_eq_eps(arc1_radius, pos_equal_eps)
@@ -288,7 +293,7 @@ where
             u2.pos(),
             u1.bulge_is_neg(),
             pt,
-            pos_equal_eps,
+            sweep2_eps,
         ) && dist_squared(pt, arc2_center)
             .sqrt()
             .fuzzy_eq_eps(arc2_radius, pos_equal_eps)
-- 
2.43.0


From 9db926c7ffde5a65ada23cf6a103cee05b894b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/36] fix: an end point just touching the other segment no
 longer hides a separate intersect

---
 .../src/polyline/pline_seg_intersect.rs       | 65 +++++++++++++++----
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 16fbd4b..ca6e510 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -131,6 +131,37 @@ where
             if within_sweep { Some(p) } else { None }
         };
 
+        // helper function for when only one of the line-circle intersects is in sweep, check if either
+        // end point lies on arc and substitute intersect point with end point if so, unless the end
+        // point belongs to the other intersect (which was just missed) then both are reported
+        let end_point_and_swept = |swept: Vector2<T>, other_t: T| -> PlineSegIntr<T> {
+            let end_pt = if point_lies_on_arc(p0) {
+                p0
+            } else if point_lies_on_arc(p1) {
+                p1
+            } else {
+                return OneIntersect { point: swept };
+            };
+
+            let other = point_from_parametric(p0, p1, other_t);
+            if end_pt.fuzzy_eq_eps(swept, pos_equal_eps)
+                || dist_squared(end_pt, swept) < dist_squared(end_pt, other)
+            {
+                OneIntersect { point: end_pt }
+            } else if dist_squared(end_pt, u1.pos()) < dist_squared(swept, u1.pos()) {
+                // return points ordered according to second segment direction
+                TwoIntersects {
+                    point1: end_pt,
+                    point2: swept,
+                }
+            } else {
+                TwoIntersects {
+                    point1: swept,
+                    point2: end_pt,
+                }
+            }
+        };
+
         // Note if intersect is detected we check if the line segment starts or ends on the arc
         // segment and if so then use that end point as the intersect point.
         // Why: this avoids inconsistencies between segment intersects where a line may "overlap" an
@@ -163,17 +194,8 @@ where
                 let t1_point = point_in_sweep(t1);
                 match (t0_point, t1_point) {
                     (None, None) => NoIntersect,
-                    (None, Some(point)) | (Some(point), None) => {
-                        // check if either end point lies on arc and substitute intersect point with
-                        // end point if so
-                        if point_lies_on_arc(p0) {
-                            OneIntersect { point: p0 }
-                        } else if point_lies_on_arc(p1) {
-                            OneIntersect { point: p1 }
-                        } else {
-                            OneIntersect { point }
-                        }
-                    }
+                    (None, Some(point)) => end_point_and_swept(point, t0),
+                    (Some(point), None) => end_point_and_swept(point, t1),
                     (Some(point1), Some(point2)) => {
                         // check if either end point lies on arc and substitute intersect point with
                         // end point if so (using distance check to determine which to substitute)
@@ -382,6 +404,19 @@ where
                 }
             };
 
+            // with only one of the intersects in sweep an end point substitutes that intersect unless
+            // it belongs to the other one (which was just missed), in which case both are reported
+            let end_point_and_swept =
+                |end_pt: Vector2<T>, swept: Vector2<T>, other: Vector2<T>| -> PlineSegIntr<T> {
+                    if end_pt.fuzzy_eq_eps(swept, pos_equal_eps)
+                        || dist_squared(end_pt, swept) < dist_squared(end_pt, other)
+                    {
+                        OneIntersect { point: end_pt }
+                    } else {
+                        ordered_two_intersects(end_pt, swept)
+                    }
+                };
+
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
@@ -399,13 +434,17 @@ where
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        end_point_and_swept(end_pt, point1, point2)
+                    }
                     (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        end_point_and_swept(end_pt, point2, point1)
+                    }
                     (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else {
-- 
2.43.0


From 11458bf8f3f95bc39e0486b62aca682d719579e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 17/36] fix: a closed offset curve touching its opposite side
 at one point only is no longer dropped

---
 .../src/polyline/internal/pline_offset.rs     | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 34f2985..19fe566 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1312,14 +1312,24 @@ where
                 return result;
             };
 
-        let slice = PlineViewData::from_slice_points(
-            raw_offset_polyline,
-            *intr_list.last().unwrap(),
-            start_index,
-            next_intr_list[0],
-            *found_index,
-            pos_equal_eps,
-        );
+        let last_intr = *intr_list.last().unwrap();
+        let slice = if original_polyline.is_closed()
+            && *found_index == start_index
+            && last_intr.fuzzy_eq_eps(next_intr_list[0], pos_equal_eps)
+        {
+            // there is only one intersect point on the closed raw offset polyline (offset curves just
+            // touch), slice is the whole polyline starting and ending at the intersect
+            PlineViewData::from_new_start(raw_offset_polyline, last_intr, start_index, pos_equal_eps)
+        } else {
+            PlineViewData::from_slice_points(
+                raw_offset_polyline,
+                last_intr,
+                start_index,
+                next_intr_list[0],
+                *found_index,
+                pos_equal_eps,
+            )
+        };
 
         if let Some(s) = slice {
             if slice_is_valid(&s, &mut query_stack) {
-- 
2.43.0


From 8abac8fe369e5240ac97ef690653830544ce2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 18/36] fix: end point circles of open offsets include segments
 ending exactly at their extents

---
 .../src/polyline/internal/pline_offset.rs              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 19fe566..7d3a892 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -960,11 +960,13 @@ fn visit_circle_intersects<P, T, F>(
             )
     };
 
+    // expand by epsilon so segments which end exactly where the circle extends to are included
+    let query_radius = circle_radius + pos_equal_eps;
     let query_results = aabb_index.query(
-        circle_center.x - circle_radius,
-        circle_center.y - circle_radius,
-        circle_center.x + circle_radius,
-        circle_center.y + circle_radius,
+        circle_center.x - query_radius,
+        circle_center.y - query_radius,
+        circle_center.x + query_radius,
+        circle_center.y + query_radius,
     );
 
     for start_index in query_results {
-- 
2.43.0


From d2a1835900f47e30563054fe824f7473699d91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 19/36] fix: an end point circle meeting the very end of an
 offset line is no longer missed

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 7d3a892..930d5af 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -938,8 +938,9 @@ fn visit_circle_intersects<P, T, F>(
     let pos_equal_eps = options.pos_equal_eps;
 
     let is_valid_line_intr = |t: T| -> bool {
-        // skip false intersects and intersects at start of seg
-        !is_false_intersect(t) && t.abs() > pos_equal_eps
+        // skip false intersects and intersects at start of seg (end of seg compared with epsilon,
+        // the intersect is not found again at the start of the next seg)
+        t > pos_equal_eps && t <= T::one() + pos_equal_eps
     };
 
     let is_valid_arc_intr = |arc_center: Vector2<T>,
-- 
2.43.0


From f5eeee97b8c274dbcf427482f9054a02219e2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 20/36] fix: shape offset keeps no loop or slice that is only
 valid at one segment's midpoint

---
 cavalier_contours/src/shape_algorithms/mod.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index e231206..cf1dca4 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -381,7 +381,6 @@ where
                               query_stack: &mut Vec<usize>|
          -> bool {
             let slice_view = v_data.view(offset_loop);
-            let midpoint = seg_midpoint(slice_view.at(0), slice_view.at(1));
             // loop through input polylines and check if slice is too close (skipping parent
             // polyline since it's never too close)
             for input_loop_idx in
@@ -393,15 +392,21 @@ where
                     &self.cw_plines[input_loop_idx - self.ccw_plines.len()]
                 };
 
-                if !point_valid_for_offset(
-                    &parent_loop.polyline,
-                    offset,
-                    &parent_loop.spatial_index,
-                    midpoint,
-                    query_stack,
-                    pos_equal_eps,
-                    offset_dist_eps,
-                ) {
+                // test all segments, a single point may lie exactly at the offset distance from an
+                // input polyline that collapsed (leaving no offset loop to intersect with)
+                let all_valid = slice_view.iter_segments().all(|(v1, v2)| {
+                    point_valid_for_offset(
+                        &parent_loop.polyline,
+                        offset,
+                        &parent_loop.spatial_index,
+                        seg_midpoint(v1, v2),
+                        query_stack,
+                        pos_equal_eps,
+                        offset_dist_eps,
+                    )
+                });
+
+                if !all_valid {
                     return false;
                 }
             }
-- 
2.43.0


From 57f1da60b35c3ebdfa4cd04795e53e7d2675f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 21/36] fix: offset result that closes onto a single point is
 dropped instead of returned as a one vertex polyline

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 930d5af..84c462e 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1378,7 +1378,10 @@ where
             pline.remove_last();
         }
 
-        result.push(pline);
+        // slice may be so short that it closes onto a single point
+        if pline.vertex_count() > 1 {
+            result.push(pline);
+        }
 
         return result;
     }
-- 
2.43.0


From c7cb6c7c0ac8344cc6fe51b7949d17b709d8800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 22/36] fix: freeing a polyline list through the C interface
 frees the polylines it owns

---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..b3f4bf7 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            let plinelist = Box::from_raw(plinelist);
+            for pline in plinelist.0 {
+                drop(Box::from_raw(pline));
+            }
+        }
     }
 }
 
-- 
2.43.0


From 6549bdaaf6c89afd630baaf9b4604acd41ecb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 23/36] fix: Vector2 announces the two elements it serializes,
 not three

---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From 4a811e9ba9e767b2e0f3077a234df4bc9cf72aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 24/36] fix: tangent point of nearly coincident circles lies on
 the circles

When two circles touch within epsilon without crossing the reported point was the radical axis foot,
which is off of both circles by the gap magnified by radius / center distance. Report the point of
circle 1 on the line through the centers.
---
 cavalier_contours/src/core/math/circle_circle_intersect.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/circle_circle_intersect.rs b/cavalier_contours/src/core/math/circle_circle_intersect.rs
index aa832c8..dde07de 100644
--- a/cavalier_contours/src/core/math/circle_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/circle_circle_intersect.rs
@@ -93,7 +93,12 @@ where
     let diff = rad1_sq - a * a;
 
     if diff < T::zero() {
-        return TangentIntersect { point: midpoint };
+        // circles touch within epsilon without crossing, midpoint lies off of both circles by that
+        // gap magnified by radius / d so take the point of circle 1 on the line through the centers
+        let r = if a < T::zero() { -radius1 } else { radius1 };
+        return TangentIntersect {
+            point: center1 + cv.scale(r / d),
+        };
     }
 
     let h = diff.sqrt();
-- 
2.43.0


From bf68236fad4324195bfeb50835ec95da7df06b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 25/36] fix: segments much shorter than 1 are not treated as
 parallel just for being short (line_line_intr compared areas with epsilon)

---
 .../src/core/math/line_line_intersect.rs              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index 9046f1b..28e9e12 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -120,8 +120,15 @@ where
     let seg1_length = (v2 - v1).length();
     let seg2_length = (u2 - u1).length();
 
+    // perpendicular products are areas, for segments shorter than 1 the epsilon value is scaled by
+    // the length to not treat short segments as parallel and collinear just for being short
+    let area_eps = {
+        let length = num_traits::real::Real::max(seg1_length, seg2_length);
+        eps * num_traits::real::Real::max(eps, num_traits::real::Real::min(length, T::one()))
+    };
+
     // threshold check here to avoid almost parallel lines resulting in very distant intersection
-    if !v_pdot_u.fuzzy_eq_zero_eps(eps) {
+    if !v_pdot_u.fuzzy_eq_zero_eps(area_eps) {
         // segments not parallel or collinear
         let seg1_t = u.perp_dot(w) / v_pdot_u;
         let seg2_t = v.perp_dot(w) / v_pdot_u;
@@ -138,7 +145,7 @@ where
     let u_pdot_w = u.perp_dot(w);
 
     // threshold check here, we consider almost parallel lines to be parallel
-    if !v_pdot_w.fuzzy_eq_zero_eps(eps) || !u_pdot_w.fuzzy_eq_zero_eps(eps) {
+    if !v_pdot_w.fuzzy_eq_zero_eps(area_eps) || !u_pdot_w.fuzzy_eq_zero_eps(area_eps) {
         // parallel and not collinear so no intersect
         return NoIntersect;
     }
-- 
2.43.0


From ae306ca80769c0ec70e5673a40ad531a49aaf9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 26/36] fix: line_circle_intr of a single point compares its
 distance from the center with the radius (squares were compared with epsilon)

---
 cavalier_contours/src/core/math/line_circle_intersect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index 318b103..9b301ba 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -87,7 +87,7 @@ where
         // fuzziness
         let xh = (p0.x + p1.x) / T::two() - h;
         let yk = (p0.y + p1.y) / T::two() - k;
-        if (xh * xh + yk * yk).fuzzy_eq_eps(radius * radius, eps) {
+        if (xh * xh + yk * yk).sqrt().fuzzy_eq_eps(radius, eps) {
             return TangentIntersect { t0: T::zero() };
         }
 
-- 
2.43.0


From c9cb4dee3e24276111cfb3388df88c8f8f333bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 27/36] fix: scale sweep epsilon by radius when joining raw
 offset arcs

An offset arc near collapsing (radius around the position epsilon) treated points far
outside of its sweep as true intersects, the raw offset polyline then had wrong joins and
the offset result was empty.
---
 .../src/polyline/internal/pline_offset.rs     | 68 ++++++++++---------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 84c462e..e093c6a 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -101,6 +101,37 @@ where
     t < T::zero() || t > T::one()
 }
 
+/// Test if `point` is within the sweep of a raw offset arc.
+///
+/// The epsilon is compared with areas when testing the sweep, it is scaled down for arcs with radius
+/// smaller than 1, otherwise points far outside of the sweep of a small arc (arc near collapsing)
+/// are treated as being part of the arc.
+#[inline]
+fn point_within_raw_arc_sweep<T>(
+    arc_radius: T,
+    arc_center: Vector2<T>,
+    arc_start: PlineVertex<T>,
+    arc_end: PlineVertex<T>,
+    point: Vector2<T>,
+    pos_equal_eps: T,
+) -> bool
+where
+    T: Real,
+{
+    let scale = num_traits::real::Real::max(
+        pos_equal_eps,
+        num_traits::real::Real::min(arc_radius, T::one()),
+    );
+    point_within_arc_sweep(
+        arc_center,
+        arc_start.pos(),
+        arc_end.pos(),
+        arc_start.bulge_is_neg(),
+        point,
+        pos_equal_eps * scale,
+    )
+}
+
 /// Compute the bulge for connecting two raw offset segments.
 #[inline]
 fn bulge_for_connection<T>(
@@ -231,14 +262,8 @@ fn line_arc_join<T, O>(
 
     let mut process_intersect = |t: T, intersect: Vector2<T>| {
         let true_line_intr = !is_false_intersect(t);
-        let true_arc_intr = point_within_arc_sweep(
-            arc_center,
-            u1.pos(),
-            u2.pos(),
-            u1.bulge_is_neg(),
-            intersect,
-            pos_equal_eps,
-        );
+        let true_arc_intr =
+            point_within_raw_arc_sweep(arc_radius, arc_center, *u1, *u2, intersect, pos_equal_eps);
 
         if true_line_intr && true_arc_intr {
             // trim at intersect
@@ -324,14 +349,8 @@ fn arc_line_join<T, O>(
 
     let mut process_intersect = |t: T, intersect: Vector2<T>| {
         let true_line_intr = !is_false_intersect(t);
-        let true_arc_intr = point_within_arc_sweep(
-            arc_center,
-            v1.pos(),
-            v2.pos(),
-            v1.bulge_is_neg(),
-            intersect,
-            pos_equal_eps,
-        );
+        let true_arc_intr =
+            point_within_raw_arc_sweep(arc_radius, arc_center, *v1, *v2, intersect, pos_equal_eps);
 
         if true_line_intr && true_arc_intr {
             let prev_vertex = result.last().unwrap();
@@ -412,21 +431,8 @@ fn arc_arc_join<T, O>(
     let (arc2_radius, arc2_center) = seg_arc_radius_and_center(*u1, *u2);
 
     let both_arcs_sweep_point = |point: Vector2<T>| {
-        point_within_arc_sweep(
-            arc1_center,
-            v1.pos(),
-            v2.pos(),
-            v1.bulge_is_neg(),
-            point,
-            pos_equal_eps,
-        ) && point_within_arc_sweep(
-            arc2_center,
-            u1.pos(),
-            u2.pos(),
-            u1.bulge_is_neg(),
-            point,
-            pos_equal_eps,
-        )
+        point_within_raw_arc_sweep(arc1_radius, arc1_center, *v1, *v2, point, pos_equal_eps)
+            && point_within_raw_arc_sweep(arc2_radius, arc2_center, *u1, *u2, point, pos_equal_eps)
     };
 
     let mut process_intersect = |intersect: Vector2<T>, true_intersect: bool| {
-- 
2.43.0


From 23d4f4d246ff9d57e520bcea141c8fba1ffe3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 28/36] fix: slice of a single segment that ends on the segment
 start is collapsed

Start and end point both within epsilon of the vertex but not of each other created view data
with end point on top of the final vertex (debug assertion, invalid view).
---
 cavalier_contours/src/polyline/pline_view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_view.rs b/cavalier_contours/src/polyline/pline_view.rs
index 5b2ba6b..4c2c14e 100644
--- a/cavalier_contours/src/polyline/pline_view.rs
+++ b/cavalier_contours/src/polyline/pline_view.rs
@@ -251,7 +251,8 @@ where
 
     /// Create view data from source polyline that selects over a single segment.
     ///
-    /// Returns `None` if `updated_start` is on top of `end_intersect` (collapsed selection).
+    /// Returns `None` if `updated_start` is on top of `end_intersect` or if `end_intersect` is on top
+    /// of the start of the segment (collapsed selection).
     pub fn create_on_single_segment<P>(
         source: &P,
         start_index: usize,
@@ -265,6 +266,10 @@ where
         if updated_start
             .pos()
             .fuzzy_eq_eps(end_intersect, pos_equal_eps)
+            || source
+                .at(start_index)
+                .pos()
+                .fuzzy_eq_eps(end_intersect, pos_equal_eps)
         {
             return None;
         }
-- 
2.43.0


From e857797a097487113efcb9c589c960ea59e7a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 29/36] fix: round the gap between line and arc when the
 intersect is before the line end

A line close to tangent with the raw offset arc may have its intersect before the end of the
line with the corner being convex, the gap was joined by a line cutting the rounded corner.
---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index e093c6a..47b5bd3 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -285,7 +285,11 @@ fn line_arc_join<T, O>(
             return;
         }
 
-        if t > T::one() && !true_arc_intr {
+        // arc segment starts further along the line, gap must be rounded (intersect may be found
+        // before the end of the line if line is close to tangent with the circle of the arc)
+        let gap_along_line = (u1.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > T::zero();
+
+        if (t > T::one() || gap_along_line) && !true_arc_intr {
             connect_using_arc(s1, s2, connection_arcs_ccw, result, pos_equal_eps);
             return;
         }
-- 
2.43.0


From 035d0f38c7e22611d878570cc8e5daf8eab9e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 30/36] fix: arcs_to_approx_lines compares radius with the
 magnitude of the error distance

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 3278c8e..f3f86c0 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1230,7 +1230,7 @@ pub trait PlineSource {
             }
 
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
-            if arc_radius.fuzzy_lt(error_distance) {
+            if arc_radius.fuzzy_lt(abs_error) {
                 result.add(v1.x, v1.y, Self::Num::zero());
                 continue;
             }
-- 
2.43.0


From c78991a9e9d7cbf626d455c50bdd24fb23b6acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 31/36] fix: quadratic_solutions gives NaN for a double root at
 zero

---
 cavalier_contours/src/core/math/base_math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index 72f6679..6bc32f5 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -198,7 +198,12 @@ where
         (-b - sqrt_discriminant) / denom
     };
 
-    let sol2 = (c / a) / sol1;
+    // sol1 is the solution with the larger magnitude, if it is zero then both are
+    let sol2 = if sol1 == T::zero() {
+        sol1
+    } else {
+        (c / a) / sol1
+    };
 
     (sol1, sol2)
 }
-- 
2.43.0


From de11840a1a5c20bde3efca8bce0885f69fe405f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:51 +0000
Subject: [PATCH 32/36] fix: curves drawn for arcs are off by a fixed part of
 the radius

---
 cavalier_contours_ui/src/plotting/mod.rs      | 54 ++++++++++++++++++-
 cavalier_contours_ui/src/plotting/plines.rs   | 34 ++----------
 .../src/plotting/raw_pline_offset_segs.rs     | 38 +++----------
 3 files changed, 63 insertions(+), 63 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/mod.rs b/cavalier_contours_ui/src/plotting/mod.rs
index 6d3a6a3..5f7e4f6 100644
--- a/cavalier_contours_ui/src/plotting/mod.rs
+++ b/cavalier_contours_ui/src/plotting/mod.rs
@@ -4,11 +4,15 @@ mod raw_pline_offset_segs;
 pub use plines::*;
 pub use raw_pline_offset_segs::*;
 
-use cavalier_contours::{core::math::Vector2, static_aabb2d_index::AABB};
+use cavalier_contours::{
+    core::math::{Vector2, angle, angle_from_bulge, point_on_circle},
+    polyline::{PlineVertex, seg_arc_radius_and_center},
+    static_aabb2d_index::AABB,
+};
 use egui::epaint;
 use egui_plot::PlotTransform;
 use lyon::{
-    path::{Path, PathEvent},
+    path::{Path, PathEvent, builder::SvgPathBuilder},
     tessellation::{FillVertexConstructor, StrokeVertexConstructor},
 };
 
@@ -30,6 +34,52 @@ fn lyon_point(v: Vector2, transform: &PlotTransform) -> lyon::math::Point {
     )
 }
 
+/// Max distance (in pixels) the curves drawn for an arc may be from the arc.
+const ARC_TOLERANCE: f64 = 0.1;
+
+/// Adds the polyline segment from `v1` to `v2` to the path being built, `v1` must be the current
+/// position of the builder.
+fn add_segment(
+    builder: &mut impl SvgPathBuilder,
+    v1: PlineVertex,
+    v2: PlineVertex,
+    transform: &PlotTransform,
+) {
+    let end = lyon_point(v2.pos(), transform);
+    if v1.bulge_is_zero() {
+        builder.line_to(end);
+        return;
+    }
+
+    // Not using the arc function of the builder: it approximates with quadratic bezier curves that
+    // sweep a fixed angle, so their distance from the arc is proportional to the radius in pixels.
+    let (radius, center) = seg_arc_radius_and_center(v1, v2);
+    let start_angle = angle(center, v1.pos());
+    let sweep_angle = angle_from_bulge(v1.bulge);
+
+    // scale using x value (assuming uniform scaling)
+    let pixel_radius = (transform.dpos_dvalue_x() * radius).abs();
+    // distance of the curve from the arc is approximately radius * half_sweep^4 / 8
+    let max_half_sweep = (8.0 * ARC_TOLERANCE / pixel_radius)
+        .powf(0.25)
+        .clamp(1e-3, std::f64::consts::FRAC_PI_8);
+    let count = (0.5 * sweep_angle.abs() / max_half_sweep).ceil().max(1.0);
+    let half_step = 0.5 * sweep_angle / count;
+    let ctrl_radius = radius / half_step.cos();
+
+    for i in 0..count as usize {
+        let ctrl_angle = start_angle + (2 * i + 1) as f64 * half_step;
+        let ctrl = point_on_circle(ctrl_radius, center, ctrl_angle);
+        let to = if i + 1 == count as usize {
+            end
+        } else {
+            let to = point_on_circle(radius, center, ctrl_angle + half_step);
+            lyon_point(to, transform)
+        };
+        builder.quadratic_bezier_to(lyon_point(ctrl, transform), to);
+    }
+}
+
 fn aabb_to_plotbounds(aabb: &AABB) -> egui_plot::PlotBounds {
     egui_plot::PlotBounds::from_min_max([aabb.min_x, aabb.min_y], [aabb.max_x, aabb.max_y])
 }
diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index 761d630..8ea9752 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -1,8 +1,7 @@
 use std::sync::Arc;
 
 use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{PlineSource, Polyline, seg_arc_radius_and_center},
+    polyline::{PlineSource, Polyline},
     shape_algorithms::Shape,
     static_aabb2d_index::AABB,
 };
@@ -19,8 +18,8 @@ use lyon::{
 use crate::plotting::plotbounds_to_aabb;
 
 use super::{
-    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, cull_path, empty_aabb, lyon_point,
-    plot_bounds_valid,
+    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, add_segment, cull_path, empty_aabb,
+    lyon_point, plot_bounds_valid,
 };
 
 /// Core trait for plotting polylines data, supports plotting multiple polylines.
@@ -174,9 +173,6 @@ where
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut builder = Path::svg_builder();
 
         if self.stroke_color != epaint::Color32::TRANSPARENT
@@ -189,32 +185,12 @@ where
                 }
                 let mut initial = true;
                 for (v1, v2) in pline.iter_segments() {
-                    let p1 = lyon_point(v1.pos(), transform);
-                    let p2 = lyon_point(v2.pos(), transform);
-
                     if initial {
-                        builder.move_to(p1);
+                        builder.move_to(lyon_point(v1.pos(), transform));
                         initial = false;
                     }
 
-                    if v1.bulge_is_zero() {
-                        builder.line_to(p2);
-                    } else {
-                        let (r, c) = seg_arc_radius_and_center(v1, v2);
-
-                        let radius = (scaling * r) as f32;
-                        let sweep_angle = angle_from_bulge(v1.bulge);
-
-                        builder.arc(
-                            lyon_point(c, transform),
-                            lyon::path::math::vector(radius, radius),
-                            lyon::geom::Angle {
-                                // negate the sweep angle because y axis is flipped
-                                radians: -sweep_angle as f32,
-                            },
-                            lyon::geom::Angle { radians: 0.0 },
-                        );
-                    }
+                    add_segment(&mut builder, v1, v2, transform);
                 }
             });
         }
diff --git a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
index f8d8820..5524e53 100644
--- a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
+++ b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
@@ -1,11 +1,6 @@
 use std::sync::Arc;
 
-use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{
-        internal::pline_offset::RawPlineOffsetSeg, seg_arc_radius_and_center, seg_bounding_box,
-    },
-};
+use cavalier_contours::polyline::{internal::pline_offset::RawPlineOffsetSeg, seg_bounding_box};
 use egui::epaint;
 use egui_plot::PlotItem;
 use lyon::{
@@ -13,7 +8,9 @@ use lyon::{
     tessellation::{BuffersBuilder, StrokeOptions, StrokeTessellator, VertexBuffers},
 };
 
-use super::{VertexConstructor, aabb_to_plotbounds, cull_path, lyon_point, plot_bounds_valid};
+use super::{
+    VertexConstructor, aabb_to_plotbounds, add_segment, cull_path, lyon_point, plot_bounds_valid,
+};
 
 pub struct RawPlineOffsetSegsPlotItem<'a> {
     pub segs: &'a [RawPlineOffsetSeg<f64>],
@@ -69,9 +66,6 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut lyon_mesh: VertexBuffers<_, u32> = VertexBuffers::new();
         let mut stroke_tess = StrokeTessellator::new();
         let line_width = 1.0;
@@ -88,28 +82,8 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             }
 
             let mut builder = WithSvg::<lyon::path::Builder>::new(lyon::path::Builder::new());
-            let p1 = lyon_point(seg.v1.pos(), transform);
-            let p2 = lyon_point(seg.v2.pos(), transform);
-
-            builder.move_to(p1);
-            if seg.v1.bulge_is_zero() {
-                builder.line_to(p2);
-            } else {
-                let (r, c) = seg_arc_radius_and_center(seg.v1, seg.v2);
-
-                let radius = (scaling * r) as f32;
-                let sweep_angle = angle_from_bulge(seg.v1.bulge);
-
-                builder.arc(
-                    lyon_point(c, transform),
-                    lyon::path::math::vector(radius, radius),
-                    lyon::geom::Angle {
-                        // negate the sweep angle because y axis is flipped
-                        radians: -sweep_angle as f32,
-                    },
-                    lyon::geom::Angle { radians: 0.0 },
-                );
-            }
+            builder.move_to(lyon_point(seg.v1.pos(), transform));
+            add_segment(&mut builder, seg.v1, seg.v2, transform);
 
             let path = builder.build();
 
-- 
2.43.0


From 0b4bd53bf9eed8db20b5583b3c81ed8a370205a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:40 +0000
Subject: [PATCH 33/36] fix: parallel and collinear lines longer than 1 are
 told apart by a position difference

The perpendicular products compared are areas: long lines that are collinear up to rounding within
epsilon were taken for parallel (or crossing), booleans of outlines sharing such edges went wrong.
---
 cavalier_contours/src/core/math/line_line_intersect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index 28e9e12..5ea7d1a 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -120,11 +120,12 @@ where
     let seg1_length = (v2 - v1).length();
     let seg2_length = (u2 - u1).length();
 
-    // perpendicular products are areas, for segments shorter than 1 the epsilon value is scaled by
-    // the length to not treat short segments as parallel and collinear just for being short
+    // perpendicular products are areas, the epsilon value is scaled by the length of the longer
+    // segment so that it is a position difference (short segments are not parallel and collinear
+    // just for being short, long ones are if their positions are within epsilon of one line)
     let area_eps = {
         let length = num_traits::real::Real::max(seg1_length, seg2_length);
-        eps * num_traits::real::Real::max(eps, num_traits::real::Real::min(length, T::one()))
+        eps * num_traits::real::Real::max(eps, length)
     };
 
     // threshold check here to avoid almost parallel lines resulting in very distant intersection
-- 
2.43.0


From 94564314dc360869f72a9db8e31c977c8085702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 34/36] fix: shape offset panics on stitched polyline with all
 positions equal

---
 cavalier_contours/src/shape_algorithms/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index cf1dca4..e7a31af 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -584,6 +584,10 @@ where
                 );
 
                 if query_results.is_empty() {
+                    if current_pline.vertex_count() < 2 {
+                        // all positions of the slices are equal, nothing left to keep
+                        break;
+                    }
                     if current_pline.vertex_count() > 2 {
                         current_pline.remove_last();
                         current_pline.set_is_closed(true);
-- 
2.43.0


From 0da6762c77a7d1761af2793aed54c6c6e3d6bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:03 +0000
Subject: [PATCH 35/36] fix: slices between positions equal within epsilon at a
 vertex ran all the way around

Two slice points on a segment which are both at its end, or at its end and just past it on the next
segment, created a slice of the whole closed polyline (offset curves came out twice).
---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 6 ++++++
 cavalier_contours/src/polyline/pline_view.rs            | 1 +
 cavalier_contours/src/shape_algorithms/mod.rs           | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 47b5bd3..9780e84 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -886,6 +886,12 @@ where
     for (&start_index, intr_list) in intersects_lookup.iter() {
         let mut intr_list_iter = intr_list.windows(2);
         while let Some(&[intr1, intr2]) = intr_list_iter.next() {
+            // skip if collapsed (slice points both at the end of the segment would otherwise
+            // create a slice all the way around the polyline)
+            if intr1.fuzzy_eq_eps(intr2, pos_equal_eps) {
+                continue;
+            }
+
             let slice = PlineViewData::from_slice_points(
                 raw_offset_polyline,
                 intr1,
diff --git a/cavalier_contours/src/polyline/pline_view.rs b/cavalier_contours/src/polyline/pline_view.rs
index 4c2c14e..ef8e210 100644
--- a/cavalier_contours/src/polyline/pline_view.rs
+++ b/cavalier_contours/src/polyline/pline_view.rs
@@ -527,6 +527,7 @@ where
             let index_dist = source.fwd_wrapping_dist(start_index, end_index);
             if index_dist == 0
                 && source.is_closed()
+                && !start_point_at_seg_end
                 && !start_point.fuzzy_eq_eps(end_point, pos_equal_eps)
             {
                 let seg_start = source.at(start_index).pos();
diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index e7a31af..3526208 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -469,6 +469,14 @@ where
                     // create slices from adjacent points
                     let mut windows = sorted_intrs.windows(2);
                     while let Some([pt1, pt2]) = windows.next() {
+                        // skip if collapsed (slice points both at the end of the segment would
+                        // otherwise create a slice all the way around the polyline)
+                        if pt1.seg_idx == pt2.seg_idx
+                            && pt1.pos.fuzzy_eq_eps(pt2.pos, pos_equal_eps)
+                        {
+                            continue;
+                        }
+
                         let v_data = create_slice(pt1, pt2, &curr_loop.indexed_pline.polyline);
                         if let Some(v_data) = v_data {
                             if is_slice_valid(
-- 
2.43.0


From 4f3b1dc9d0129b909f4c0049e768e3ac6b803f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 36/36] fix: closest point of a small arc lay past its ends
 (offsets with small fillets were lost)

---
 cavalier_contours/src/polyline/pline_seg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index be73022..2eda22f 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -234,17 +234,21 @@ where
         return v1.pos();
     }
 
+    let center_to_point = point - arc_center;
+    let dist_to_center = center_to_point.length();
+    // sweep test compares areas, scaling makes epsilon the distance that the resulting point may be
+    // past the ends of the arc (if not scaled then small arcs do not end at their end points)
+    let sweep_eps = epsilon * num_traits::real::Real::min(arc_radius, dist_to_center);
     if point_within_arc_sweep(
         arc_center,
         v1.pos(),
         v2.pos(),
         v1.bulge_is_neg(),
         point,
-        epsilon,
+        sweep_eps,
     ) {
         // closest point is on the arc
-        let v_to_point = (point - arc_center).normalize();
-        return v_to_point.scale(arc_radius) + arc_center;
+        return center_to_point.scale(arc_radius / dist_to_center) + arc_center;
     }
 
     // closest point is one of the ends
-- 
2.43.0

