From 6f54e035f1df343282b40d6853d23e28dc680f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 1/8] fix: fill the concave node after the convex one on the
 right side of an edge

fill_right_convex_edge_event found that the front is concave at the node after
next, but filled at the node itself, which is convex there. The triangle created
was inverted and the run panicked, or returned overlapping triangles, e.g. for
(552,686) (886,802) (264,894) (285,884) (931,260). The left side does the same
with prev_node already.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From 73132249cd1dbbbb22c379cce3b911fffaca9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 2/8] fix: find the interior when steiner points lie outside of
 the polygon

finalize_polygon assumed that the first node of the advancing front is a vertex
of the polygon. With a steiner point outside of it, it is not always, and the
result came out empty, e.g. for (20,14) (5,20) (8,8) (4,1) with steiner points
(19,9) (4,8). add_steiner_point documents that such a point has no effect.
---
 src/sweeper.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..17fc970 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -59,27 +59,36 @@ impl Sweeper<'_> {
     }
 
     pub(crate) fn finalize_polygon(&mut self) -> Option<()> {
-        // get an internal triangle to start with
-        // the first node is head, artificial point, so skip
-        let node = self.advancing_front.nth(1)?;
+        // All triangles attached to the artificial points are outside of the polygon.
+        // Walk the outer triangles until a constrained edge is reached, the triangle on
+        // the other side of that edge is an internal one.
+        let head = self.points.head;
+        let (outer, _) = self
+            .triangles
+            .iter()
+            .find(|(_, t)| t.point_index(head).is_some())?;
 
-        let mut t = node.triangle?;
+        let mut visited = vec![false; self.triangles.len()];
+        let mut outer_triangles = vec![outer];
 
-        loop {
-            if let Some(tri) = self.triangles.get(t) {
-                if !tri.constrained_edge_cw(node.point_id()) {
-                    t = tri.neighbor_ccw(node.point_id());
-                } else {
-                    break;
-                }
-            } else {
-                // no valid triangle found, just break
-                break;
+        while let Some(t) = outer_triangles.pop() {
+            if std::mem::replace(&mut visited[t.as_usize()], true) {
+                continue;
             }
-        }
 
-        if !t.invalid() {
-            self.clean_mesh(t);
+            let tri = t.get(&self.triangles);
+            for i in 0..3 {
+                let neighbor = tri.neighbors[i];
+                if neighbor.invalid() {
+                    continue;
+                }
+
+                if tri.is_constrained(i) {
+                    self.clean_mesh(neighbor);
+                    return Some(());
+                }
+                outer_triangles.push(neighbor);
+            }
         }
 
         Some(())
-- 
2.43.0


From 8f97c6a3ccfb76a45da22ee4716b024f418eab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 3/8] fix: do not compare coordinates and areas with an
 absolute epsilon

in_scan_area and the left case of point_event compared against Float::EPSILON,
so a polygon with small coordinates (1e-8 and below) overflowed the stack or
got inverted triangles. Decide both without it, the former with the robust
predicate the rest of the sweep uses.
---
 src/sweeper.rs |  2 +-
 src/utils.rs   | 12 +-----------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 17fc970..7f85bf4 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -149,7 +149,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..6ef09b2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,17 +61,7 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
-        return false;
-    }
-
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
-        return false;
-    }
-
-    true
+    orient_2d(a, d, b).is_cw() && orient_2d(a, d, c).is_ccw()
 }
 
 #[derive(Debug, Clone, Copy)]
-- 
2.43.0


From e89bc647b04bfdce4a6f9547cf480f238cdd3c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 4/8] fix: decide with the robust predicate whether the front
 makes a hole at a node

The sign of the angle was computed in plain floating point, which rounds a
slightly reflex angle to a straight one. The node was then filled with an
inverted triangle and a constraint could get lost, e.g. for (3,0) (4,3) (7,5)
(4,6) (3,7) (2,5) (3,4) (0,3).
---
 src/sweeper.rs | 4 ++--
 src/utils.rs   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 7f85bf4..c040f2f 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -451,8 +451,8 @@ impl Sweeper<'_> {
 
         let angle = crate::utils::Angle::new(node.point(), next.point(), prev_node.point());
 
-        if angle.is_negative() {
-            // negative means next -> node -> prev is cw, then it is not a hole
+        if orient_2d(prev_node.point(), node.point(), next.point()).is_cw() {
+            // prev -> node -> next turns clockwise, then it is not a hole
             return true;
         } else if !angle.exceeds_90_degree() {
             // we only fill holes with angle less than PI/2
diff --git a/src/utils.rs b/src/utils.rs
index 6ef09b2..b057227 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -117,6 +117,7 @@ impl Angle {
     }
 
     /// whether the angle is negative
+    #[cfg(test)]
     pub fn is_negative(&self) -> bool {
         if self.dx == 0. && self.dy == 0. {
             false
-- 
2.43.0


From 5b6c08a2c53e455faa49a38f42874e100b34cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 5/8] fix: report malformed files as LoaderError instead of
 panicking

A file that is not UTF-8, a line with one number, a blank line with spaces or a
token which is not a number all panicked, though load returns a Result.
---
 src/loader.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..2be5532 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
@@ -75,10 +75,19 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
         return Ok(None);
     }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let Some(x) = iter.next() else {
+        // blank line
+        return Ok(None);
+    };
+    let x = parse_float(x)?;
+    let y = iter
+        .next()
+        .ok_or_else(|| LoaderError::Inner("y is missing".into()))?;
+    let y = parse_float(y)?;
 
     Ok(Some(Point::new(x, y)))
 }
+
+fn parse_float(value: &str) -> Result<Float, Box<dyn std::error::Error>> {
+    Ok(value.parse::<Float>()?)
+}
-- 
2.43.0


From 217adb1bf43b3cd902922196dfd617b7bc13eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 6/8] fix: check triangle ids and front positions instead of
 reading out of bounds

---
 src/advancing_front/vec_backed.rs | 2 +-
 src/triangles.rs                  | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..b760676 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,7 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..2800721 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,12 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
         debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
@@ -158,7 +155,7 @@ impl TriangleStore {
     }
 
     pub fn get_mut_unchecked(&mut self, id: TriangleId) -> &mut InnerTriangle {
-        unsafe { self.triangles.get_unchecked_mut(id.as_usize()) }
+        &mut self.triangles[id.as_usize()]
     }
 
     pub fn iter(&self) -> impl Iterator<Item = (TriangleId, &InnerTriangle)> {
-- 
2.43.0


From 94cdddfda8b9386c1aeb40483fadee07f8d6c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:57 +0000
Subject: [PATCH 7/8] fix: keep the artificial points apart from points far
 from the origin

---
 src/points.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/points.rs b/src/points.rs
index 3f137fb..29fa7ec 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -164,6 +164,10 @@ impl Points {
             let dx = (xmax - xmin) * 0.3;
             let dy = (ymax - ymin) * 0.3;
 
+            // far from the origin the margin may be lost in rounding, keep at least one ulp
+            let dx = dx.max(xmin.abs().max(xmax.abs()) * Float::EPSILON);
+            let dy = dy.max(ymin.abs() * Float::EPSILON);
+
             let head = Point::new(xmin - dx, ymin - dy);
             let head_id = PointId(points.len() as NumType);
             points.push(head);
-- 
2.43.0


From 7bcc28583084a3a195d586fde0bbfcfc5da35e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 8/8] fix: report repeated points in a file as LoaderError
 instead of panicking

---
 src/loader.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 2be5532..a74e501 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -64,6 +64,11 @@ impl Loader for PlainFileLoader {
             }
         }
 
+        check_ring(&polygon)?;
+        for hole in &holes {
+            check_ring(hole)?;
+        }
+
         Ok(Builder::new(polygon)
             .add_holes(holes)
             .add_steiner_points(steiner_points))
@@ -88,6 +93,15 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
     Ok(Some(Point::new(x, y)))
 }
 
+/// the builder panics when two successive points of a ring are equal
+fn check_ring(ring: &[Point]) -> Result<(), LoaderError> {
+    let next = ring.iter().cycle().skip(1);
+    if ring.iter().zip(next).any(|(p, q)| p.x == q.x && p.y == q.y) {
+        return Err(LoaderError::Inner("repeat points".into()));
+    }
+    Ok(())
+}
+
 fn parse_float(value: &str) -> Result<Float, Box<dyn std::error::Error>> {
     Ok(value.parse::<Float>()?)
 }
-- 
2.43.0

