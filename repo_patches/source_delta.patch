From 70e5be2b3995e155f0c585742ea6f493145d308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 01/16] fix: cavc_plinelist_f frees the polylines owned by the
 list

The list holds raw pointers released from Box, so dropping the list alone
leaked every polyline, contrary to the documented behaviour.
---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..b3f4bf7 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            let plinelist = Box::from_raw(plinelist);
+            for pline in plinelist.0 {
+                drop(Box::from_raw(pline));
+            }
+        }
     }
 }
 
-- 
2.43.0


From 110955a67855095c1001cf0f099e5e3a6a7a89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 02/16] fix: PlineSource::last returns None for an empty
 polyline

vertex_count() - 1 underflowed (panic with overflow checks) instead of
returning None as documented.
---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..ff6408a 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,7 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        self.get(self.vertex_count().checked_sub(1)?)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From 2edc63ac47e91af052f533f149a418e68b646dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 03/16] fix: serialize Vector2 as a tuple of its 2 elements

The announced length was 3 while 2 elements are written and read back,
which formats that store or check the length reject.
---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From 3b53f8114ba870459181949b2cedc55fab514d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 04/16] fix: arcs_to_approx_lines uses the absolute error for
 the small arc test

A negative error_distance larger in magnitude than twice an arc radius
went on to acos of a value below -1 and returned None.
---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index ff6408a..74865dd 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1215,7 +1215,7 @@ pub trait PlineSource {
             }
 
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
-            if arc_radius.fuzzy_lt(error_distance) {
+            if arc_radius.fuzzy_lt(abs_error) {
                 result.add(v1.x, v1.y, Self::Num::zero());
                 continue;
             }
-- 
2.43.0


From ac3cdf9ed3d0a0fdfa97c9e7f3bd4402da66d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 05/16] fix: remove_redundant keeps the last vertex when all
 before it repeat

With every vertex but the last at the same position the scan for leading
repeats ended at the end of the polyline without reaching a repeat there,
and the distinct last vertex was dropped.
---
 cavalier_contours/src/polyline/traits.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 74865dd..e2b7f14 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -544,9 +544,11 @@ pub trait PlineSource {
         let mut i = 2;
         while v1.pos().fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
             v1.bulge = v2.bulge;
-            // check for reaching the end of polyline
+            // if end is reached return polyline with the only vertex
             if i >= vc {
-                break;
+                let mut pl = Self::OutputPolyline::with_capacity(1, self.is_closed());
+                pl.add_vertex(v1);
+                return Some(pl);
             }
             v2 = self.at(i);
             i += 1;
@@ -559,10 +561,6 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
-            return result;
-        }
 
         let mut v1_v2_arc: Option<(Self::Num, Vector2<Self::Num>)> = None;
         let mut v1_bulge_is_zero = v1.bulge_is_zero();
-- 
2.43.0


From ca617e243dc0b530b6ce6ca640fb280c8100c891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 06/16] fix: seg_length is zero for an arc between repeated
 positions

The guard compared bulges too, so an arc segment of zero chord with
different bulges divided by the zero chord length.
---
 cavalier_contours/src/polyline/pline_seg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index be73022..9d1fa82 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -389,7 +389,7 @@ pub fn seg_length<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> T
 where
     T: Real,
 {
-    if v1.fuzzy_eq(v2) {
+    if v1.pos().fuzzy_eq(v2.pos()) {
         return T::zero();
     }
 
-- 
2.43.0


From e28ac4213df3baaaefea4621199f00e09a4ffc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 07/16] fix: find_point_at_path_length returns Err for an empty
 polyline

A zero or negative target indexed the missing first vertex and panicked.
---
 cavalier_contours/src/polyline/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index e2b7f14..4b98726 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1510,7 +1510,10 @@ pub trait PlineSource {
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
         if target_path_length <= Self::Num::zero() {
-            return Ok((0, self.at(0).pos()));
+            return match self.get(0) {
+                Some(v) => Ok((0, v.pos())),
+                None => Err(Self::Num::zero()),
+            };
         }
 
         let mut acc_length = Self::Num::zero();
-- 
2.43.0


From 2dc983d68c994aca9b6ff1c70ede325b9bb960c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 08/16] fix: remove_redundant no longer panics when a closed
 polyline collapses

When every vertex but the first was discarded the wrap around step removed
that vertex as a repeat of itself and then indexed the emptied result.
---
 cavalier_contours/src/polyline/traits.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 4b98726..7ca73e1 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -693,14 +693,20 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
-                    if pl
-                        .last()
-                        .unwrap()
-                        .pos()
-                        .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+                    if pl.vertex_count() > 1
+                        && pl
+                            .last()
+                            .unwrap()
+                            .pos()
+                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
                     }
+
+                    if pl.vertex_count() < 2 {
+                        // collapsed to a single vertex, nothing left to wrap around
+                        return result;
+                    }
                 }
                 None => {
                     if self
-- 
2.43.0


From aad4d4a2b48e7013349f0f1ecba332c12d7e1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 09/16] fix: joined overlapping slice starts at the last
 slice's start index

---
 cavalier_contours/src/polyline/internal/pline_intersects.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 0471a66..d7dbe1d 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -734,6 +734,7 @@ where
             let last_slice = result.pop().unwrap();
             let first_slice = &mut result[0];
             first_slice.start_indexes = last_slice.start_indexes;
+            first_slice.view_data.start_index = last_slice.view_data.start_index;
             first_slice.view_data.updated_start = last_slice.view_data.updated_start;
             first_slice.view_data.end_index_offset += last_slice.view_data.end_index_offset;
 
-- 
2.43.0


From a13d2bac29fded0d910ab6e69e0769fb927e9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:06 +0000
Subject: [PATCH 10/16] fix: remove_repeat_pos keeps one vertex when all of a
 closed polyline coincide

---
 cavalier_contours/src/polyline/traits.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 7ca73e1..7879f34 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -437,13 +437,11 @@ pub trait PlineSource {
             }
         }
 
-        // check if is_closed and last repeats position on first
+        // check if is_closed and last remaining vertex repeats position on first (if there is only
+        // one vertex left then it is not a repeat)
         if self.is_closed()
-            && self
-                .last()
-                .unwrap()
-                .pos()
-                .fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
+            && result.as_ref().map_or(true, |r| r.vertex_count() > 1)
+            && prev_pos.fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
         {
             result
                 .get_or_insert_with(|| {
-- 
2.43.0


From 7383536943b5587a15472d7b16d5bd308dd40917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 11/16] fix: remove_redundant does not wrap around an open
 polyline that starts with repeats

---
 cavalier_contours/src/polyline/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 7879f34..4304c35 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -566,7 +566,8 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // v2 never goes past the second to last vertex for an open polyline (no wrapping around)
+        let iter_count = if self.is_closed() { vc - 1 } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
-- 
2.43.0


From a0927f70986ed941d82a97b6dd8211dcd5b9f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:15 +0000
Subject: [PATCH 12/16] fix: remove_redundant uses the updated bulge of the
 first vertex when wrapping around

---
 cavalier_contours/src/polyline/traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 4304c35..e5bd632 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -731,7 +731,11 @@ pub trait PlineSource {
             // v2 => first
             // v3 => second
             let v3 = match result.as_ref() {
-                Some(pl) => pl.at(1),
+                Some(pl) => {
+                    // bulge of first vertex may have been updated
+                    v2.bulge = pl.at(0).bulge;
+                    pl.at(1)
+                }
                 None => self.at(1),
             };
             if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
-- 
2.43.0


From 1a8600dfc9b930f389d0a2d4ee8031136c9f0011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 13/16] fix: opposing arcs on one circle that touch at the
 second arc's end report that end

The sweep of the second arc is reversed to run the way of the first, so its
start is then u2 and not u1.
---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..2db12a3 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,12 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at start of arc2 (its end if the direction was reversed)
+                    if same_direction_arcs {
+                        OneIntersect { point: u1.pos() }
+                    } else {
+                        OneIntersect { point: u2.pos() }
+                    }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From 4cbd48df8c57add2b16126f5bed123fd5e069090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 14/16] fix: crossing arcs report their two intersects in the
 second segment's direction

---
 .../src/polyline/pline_seg_intersect.rs       | 53 +++++++------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 2db12a3..07989cd 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -362,64 +362,49 @@ where
                 try_add_end_point_intr(v2.pos());
             }
 
+            // helper function to return points ordered according to second segment direction
+            let two_intersects = |point1: Vector2<T>, point2: Vector2<T>| {
+                if dist_squared(point1, u1.pos()) < dist_squared(point2, u1.pos()) {
+                    TwoIntersects { point1, point2 }
+                } else {
+                    TwoIntersects {
+                        point1: point2,
+                        point2: point1,
+                    }
+                }
+            };
+
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-                    (None, None) => TwoIntersects { point1, point2 },
+                    (None, None) => two_intersects(point1, point2),
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
                         if dist_squared(end_pt, point1) < dist_squared(end_pt, point2) {
-                            TwoIntersects {
-                                point1: end_pt,
-                                point2,
-                            }
+                            two_intersects(end_pt, point2)
                         } else {
-                            TwoIntersects {
-                                point1,
-                                point2: end_pt,
-                            }
-                        }
-                    }
-                    (Some(end_pt1), Some(end_pt2)) => {
-                        if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            TwoIntersects {
-                                point1: end_pt1,
-                                point2: end_pt2,
-                            }
-                        } else {
-                            TwoIntersects {
-                                point1: end_pt2,
-                                point2: end_pt1,
-                            }
+                            two_intersects(point1, end_pt)
                         }
                     }
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => NoIntersect,
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             }
         }
-- 
2.43.0


From 34cb270e349e43c6a1892b6b076baff66edcda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 15/16] fix: stop at the first vertex when removing redundant
 vertexes that repeat it at the start

The loop of remove_redundant on a closed polyline walked past the first
vertex into the vertexes that were already removed as repeats of it. Two of
those may lie further apart than the epsilon, one was then added to the
result again and another corner was removed in its place.
---
 cavalier_contours/src/polyline/traits.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index e5bd632..c7edd84 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -566,8 +566,14 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        // v2 never goes past the second to last vertex for an open polyline (no wrapping around)
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - i };
+        // v2 never goes past the second to last vertex for an open polyline (no wrapping around), for
+        // a closed polyline v3 stops at the first vertex (the vertexes repeating it at the start are
+        // already removed)
+        let iter_count = if self.is_closed() {
+            vc - i + 1
+        } else {
+            vc - i
+        };
 
         enum RemoveRedundantCase<U>
         where
@@ -734,6 +740,8 @@ pub trait PlineSource {
                 Some(pl) => {
                     // bulge of first vertex may have been updated
                     v2.bulge = pl.at(0).bulge;
+                    v2_bulge_is_zero = v2.bulge_is_zero();
+                    v2_bulge_is_pos = v2.bulge_is_pos();
                     pl.at(1)
                 }
                 None => self.at(1),
-- 
2.43.0


From e29580db10ff8340a774abd5e38843066aadc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 16/16] fix: compare with the last vertex left when the first
 one is removed as redundant

When remove_redundant drops the last vertex of a closed polyline because it
repeats the first position, the vertex before it is the last one, but the
removed one was still used to decide whether the first vertex is redundant,
which removed a corner.
---
 cavalier_contours/src/polyline/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index c7edd84..61c91b7 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -706,6 +706,10 @@ pub trait PlineSource {
                             .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
+                        v1 = pl.last().unwrap();
+                        v1_v2_arc = None;
+                        v1_bulge_is_zero = v1.bulge_is_zero();
+                        v1_bulge_is_pos = v1.bulge_is_pos();
                     }
 
                     if pl.vertex_count() < 2 {
-- 
2.43.0

