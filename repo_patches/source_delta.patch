From 30bd3bb5c5ac874b339ecb10665d03b96f23dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:01 +0000
Subject: [PATCH 1/6] fix: bound the iteration in TransverseMercator::unproj

On non-finite (or wildly out of range) eastings/northings the iteration never
reached its tolerance and unproj never returned. Give up with
ENHOutOfBounds after a bounded number of iterations.
---
 geokit/src/projections/cyl/transverse_mercator.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5994327 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -159,13 +159,16 @@ impl Projection for TransverseMercator {
             Q_p + (e * (e * Q_pp.tanh()).atanh())
         }
 
+        // The iteration does not converge on non-finite values: bound it.
+        const MAX_ITER: usize = 5_000;
         let mut Q_pp = iter_fn(self.e, Q_p, Q_p);
-        loop {
+        let converged = (0..MAX_ITER).any(|_| {
             let old_Q_pp = Q_pp;
             Q_pp = iter_fn(self.e, Q_p, Q_pp);
-            if (Q_pp - old_Q_pp).abs() < 1e-12 {
-                break;
-            }
+            (Q_pp - old_Q_pp).abs() < 1e-12
+        });
+        if !converged {
+            return Err(ProjectionError::ENHOutOfBounds);
         }
 
         Ok(LLH {
-- 
2.43.0


From d72035c5bfdba77f4a09152b5a2a763995c7cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:33 +0000
Subject: [PATCH 2/6] fix: LineString::param at the end and on zero-length
 segments

Subtracting the segment lengths one after the other rounds differently from
summing them, so that for s at (or just below) the full length the walk could
run past the last segment and panic; and a zero-length segment gave 0/0.
Return the end position for the full length, never walk past the last segment,
and treat a zero-length segment as its start.
---
 .../geometry/coordinate/curve/line_string.rs  | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..8cb04c9 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -78,19 +78,25 @@ impl ParameterizedCurve for LineString {
     }
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
-        let mut len_iter = self.len.iter();
+        let length = self.length(_crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == length {
+            return self.end().into();
+        }
         let mut res_len = s;
         let mut start_pos_ix = 0;
-        let mut ratio = 0.;
-        while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
-                break;
-            }
-            res_len -= *l;
+        // Subtracting the lengths one by one rounds differently from adding them up:
+        // never walk past the last segment.
+        while start_pos_ix < self.len.len() - 1 && self.len[start_pos_ix] < res_len {
+            res_len -= self.len[start_pos_ix];
             start_pos_ix += 1;
         }
+        let seg_len = self.len[start_pos_ix];
+        let ratio = if seg_len > Length::ZERO {
+            (res_len / seg_len).min(1.)
+        } else {
+            0.
+        };
         let start = self.pos(start_pos_ix);
         let end = self.pos(start_pos_ix + 1);
 
-- 
2.43.0


From 3330a4fc3c51db1aae06f977a5df6134abfa9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:04 +0000
Subject: [PATCH 3/6] fix: LineStringBuilder::with_line checks the coordinate
 dimension

Positions of the wrong dimension panicked or, when their sizes happened to add
up, were accepted and regrouped into other positions. Report them the way
line_to does.
---
 geokit/src/geometry/coordinate/curve/line_string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index 8cb04c9..f0e816b 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -180,6 +180,9 @@ impl<'a> LineStringBuilder<'a> {
         let mut pos = vec![];
         let from_pos = from.as_ref();
         let to_pos = to.as_ref();
+        if from_pos.len() != crs.dim() || to_pos.len() != crs.dim() {
+            return Err("Invalid coordinate dimension");
+        }
         pos.extend(from_pos);
         pos.extend(to_pos);
         let len = vec![crs.dist(from_pos, to_pos)?];
-- 
2.43.0


From 40b57d990cef97aa7fa138a8ec85a10291c72f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:30 +0000
Subject: [PATCH 4/6] fix: CurveBuilder::with_seg checks the segment's
 dimension

append_segment refuses a segment whose dimension is not the CRS's; the first
segment was accepted whatever its dimension.
---
 geokit/src/geometry/primitive/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..55e6eae 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -144,6 +144,9 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
+        if crs.dim() != seg.coord_dim() {
+            return Err("Invalid coordinate dimension");
+        }
         Ok(Self::new(crs, vec![clone_box(&seg)]))
     }
 
-- 
2.43.0


From 434906ecd8bf5435e46b9efef7c2d12084bb4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:56 +0000
Subject: [PATCH 5/6] fix: Curve::param at and near the full length

Subtracting the segment lengths one after the other rounds differently from
summing them, so that the walk could run past the last segment and panic, or
ask the last segment for more than its length.
---
 geokit/src/geometry/primitive/curve.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index 55e6eae..d5e4574 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -98,15 +98,24 @@ impl ParameterizedCurve for Curve {
     }
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
-        assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
-        let mut seg_iter = self.seg.iter();
+        let length = self.length(crs);
+        assert!(s <= length, "Invalid curvilinear parameter `s`");
+        if s == length {
+            return self.end().into();
+        }
         let mut res_len = s;
         let mut seg_ix = 0;
-        while let Some(s) = seg_iter.next() {
-            let seg_len = s.length(crs);
+        loop {
+            let seg_len = self.seg[seg_ix].length(crs);
             if seg_len >= res_len {
                 break;
             }
+            if seg_ix == self.seg.len() - 1 {
+                // Subtracting the lengths one by one rounds differently from adding them up:
+                // never walk past the last segment.
+                res_len = seg_len;
+                break;
+            }
             res_len -= seg_len;
             seg_ix += 1;
         }
-- 
2.43.0


From da45adedc54a16ef0d8ccbfb5d2bf046c58f0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:10 +0000
Subject: [PATCH 6/6] fix: Curve::param at 0 when the first segment has no
 length

A first segment of length 0 whose ends differ (two longitudes of a pole, say)
answered for distance 0 with its end: the curve did not start at its start.
---
 geokit/src/geometry/primitive/curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index d5e4574..38558b6 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -103,6 +103,10 @@ impl ParameterizedCurve for Curve {
         if s == length {
             return self.end().into();
         }
+        if s == Length::ZERO {
+            // Not the end of a first segment without length.
+            return self.start().into();
+        }
         let mut res_len = s;
         let mut seg_ix = 0;
         loop {
-- 
2.43.0

