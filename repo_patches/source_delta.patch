From 26a8a5a20c4cb6e3ae7cf4aaf16cfbc0ff65786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 01/35] fix: compute the ellipse polygon before using it as
 kernel

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 17f216e..952bb5c 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -207,7 +207,7 @@ class Ellipse(StarshapedObstacle):
         self._is_convex = True
 
     def _compute_kernel(self):
-        self._kernel = self._polygon
+        self._kernel = self.polygon(output_frame=Frame.OBSTACLE)
 
     def _compute_polygon_representation(self):
         # logprint(str(self) + ": " + str(self._polygon), 0)
-- 
2.43.0


From f49c4dc52e6d99d7f8567ff0984d1676841cde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:58 +0000
Subject: [PATCH 02/35] fix: order ellipse tangent points in one frame

---
 obstacles/ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 952bb5c..116065a 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -194,7 +194,7 @@ class Ellipse(StarshapedObstacle):
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
 
-        if is_ccw(x, tp1, tp2):
+        if is_ccw(x_obstacle, tp1_obstacle, tp2_obstacle):
             tp1, tp2 = tp2, tp1
 
         return [tp1, tp2]
-- 
2.43.0


From d5b89944cfd19b3f9f7a9d9a88b753e7bc9a7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 03/35] fix: ellipse intersections with steep lines and with
 tangent lines

---
 obstacles/ellipse.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 116065a..7b72ea7 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -100,31 +100,29 @@ class Ellipse(StarshapedObstacle):
         l_right_obstacle = l1_obstacle if l0_obstacle[0] < l1_obstacle[0] else l0_obstacle
 
 
-        vertical_line = abs(l_right_obstacle[0]-l_left_obstacle[0]) < 1e-4
+        vertical_line = abs(l_right_obstacle[0]-l_left_obstacle[0]) <= 0.01 * abs(l_right_obstacle[1]-l_left_obstacle[1])
         if not vertical_line:
             # Line parameters
             m = (l_right_obstacle[1] - l_left_obstacle[1]) / (l_right_obstacle[0] - l_left_obstacle[0])
             c = l_left_obstacle[1] - m * l_left_obstacle[0]
-            vertical_line = abs(m) > 100
 
-        # Special case with vertical line
+        # Special case with (close to) vertical line, described by x=k*y+c
         if vertical_line:
-            if l_right_obstacle[0] < -self._a[0] or l_right_obstacle[0] > self._a[0]:
-                return []
-
             l_top_obstacle = l_right_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_left_obstacle
             l_bottom_obstacle = l_left_obstacle if l_right_obstacle[1] > l_left_obstacle[1] else l_right_obstacle
-            x_intersect_top_obstacle, x_intersect_bottom_obstacle = np.array([0, self._a[1]]), np.array([0, -self._a[1]])
-            x_intersect_top = self.transform(x_intersect_top_obstacle, Frame.OBSTACLE, output_frame)
-            x_intersect_bottom = self.transform(x_intersect_bottom_obstacle, Frame.OBSTACLE, output_frame)
-            if l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_top, x_intersect_bottom]
-            elif l_top_obstacle[1] >= self._a[1] and l_bottom_obstacle[1] <= self._a[1]:
-                return [x_intersect_top]
-            elif l_top_obstacle[1] >= -self._a[1] and l_bottom_obstacle[1] <= -self._a[1]:
-                return [x_intersect_bottom]
-            else:
+            if l_top_obstacle[1] == l_bottom_obstacle[1]:
                 return []
+            k = (l_top_obstacle[0] - l_bottom_obstacle[0]) / (l_top_obstacle[1] - l_bottom_obstacle[1])
+            c = l_bottom_obstacle[0] - k * l_bottom_obstacle[1]
+            ky2 = self._a2[1] * k**2 + self._a2[0]
+            discriminant = ky2 - c**2
+            if discriminant < 0:
+                return []
+            y_mid = -self._a2[1] * k * c / ky2
+            y_off = self._a[0] * self._a[1] * np.sqrt(discriminant) / ky2
+            y_intersect = [y_mid] if discriminant == 0 else [y_mid + y_off, y_mid - y_off]
+            return [self.transform(np.array([k * y + c, y]), Frame.OBSTACLE, output_frame)
+                    for y in y_intersect if l_bottom_obstacle[1] <= y <= l_top_obstacle[1]]
 
         # obstacle ellipse coefficients at intersection with line m*x+c
         kx2 = self._a2[0] * m**2 + self._a2[1]
@@ -137,6 +135,8 @@ class Ellipse(StarshapedObstacle):
             return []
         elif discriminant == 0:
             tmp_x = -kx / (2 * kx2)
+            if tmp_x < l_left_obstacle[0] or tmp_x > l_right_obstacle[0]:
+                return []
             x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
             return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
         else:
-- 
2.43.0


From b90c5398204365355ad8843118f3065a5c9697a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 04/35] fix: ellipse tangent points next to a vertical tangent

---
 obstacles/ellipse.py | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 7b72ea7..a43adf9 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -164,32 +164,12 @@ class Ellipse(StarshapedObstacle):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         if not self.exterior_point(x_obstacle, Frame.OBSTACLE):
             return []
-        px, py = x_obstacle
-
-        # Special case with vertical tangent
-        a2 = self._a**2
-        vertical_tangent = abs(a2[0] - px**2) < 1e-5
-        if vertical_tangent:
-            m2 = (py**2-a2[1]) / (2*px*py)
-            x2 = (px * m2 ** 2 - py * m2) / (a2[1] / a2[0] + m2 ** 2)
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([px, 0])
-            tp2_obstacle = np.array([x2, y2])
-        else:
-            tmp = px**2 - a2[0]
-            c1 = (px * py) / tmp
-            c2 = (a2[1] - py**2) / tmp
-            tmp = np.sqrt(c1**2+c2)
-            m1, m2 = c1 + tmp, c1 - tmp
-            tmp = a2[1] / a2[0]
-            m1_sqr = m1**2
-            m2_sqr = m2**2
-            x1 = (px * m1_sqr - py * m1) / (tmp + m1_sqr)
-            x2 = (px * m2_sqr - py * m2) / (tmp + m2_sqr)
-            y1 = m1 * (x1 - px) + py
-            y2 = m2 * (x2 - px) + py
-            tp1_obstacle = np.array([x1, y1])
-            tp2_obstacle = np.array([x2, y2])
+        # Tangent points for the unit circle in coordinates scaled with the ellipse axes
+        px, py = x_obstacle[0] / self._a[0], x_obstacle[1] / self._a[1]
+        p2 = px**2 + py**2
+        tmp = np.sqrt(max(p2 - 1, 0))
+        tp1_obstacle = self._a * np.array([px - tmp * py, py + tmp * px]) / p2
+        tp2_obstacle = self._a * np.array([px + tmp * py, py - tmp * px]) / p2
 
         tp1 = self.transform(tp1_obstacle, Frame.OBSTACLE, output_frame)
         tp2 = self.transform(tp2_obstacle, Frame.OBSTACLE, output_frame)
-- 
2.43.0


From 126ab0e774bbaa3cfd3bd54901c32227b336b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 05/35] fix: keep the two crossings of a nearly tangent line
 with an ellipse apart

---
 obstacles/ellipse.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index a43adf9..1ff6153 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -140,9 +140,7 @@ class Ellipse(StarshapedObstacle):
             x_intersect_obstacle = np.array([tmp_x, m * tmp_x + c])
             return [self.transform(x_intersect_obstacle, Frame.OBSTACLE, output_frame)]
         else:
-            in_sqrt = kx ** 2 / (4 * kx2 ** 2) - k1 / kx2
-            if np.isclose(in_sqrt, 0):
-                in_sqrt = 0
+            in_sqrt = max(kx ** 2 / (4 * kx2 ** 2) - k1 / kx2, 0)
             tmp_x = -kx / (2 * kx2) - np.sqrt(in_sqrt)
             x_intersect_left_obstacle = np.array([tmp_x, m * tmp_x + c])
             tmp_x = -kx / (2 * kx2) + np.sqrt(in_sqrt)
-- 
2.43.0


From 841e6346117849e1d9c996c7e8b70e226c2bf4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 06/35] fix: classify points on the bounding box of a polygon

---
 obstacles/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index d8ec63a..0efa34b 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -61,7 +61,7 @@ class Polygon(Obstacle):
     def point_location(self, x, input_frame=Frame.GLOBAL):
         x_obstacle = self.transform(x, input_frame, Frame.OBSTACLE)
         xmin, ymin, xmax, ymax = self._pol_bounds
-        if not (xmin < x_obstacle[0] < xmax and ymin < x_obstacle[1] < ymax):
+        if not (xmin <= x_obstacle[0] <= xmax and ymin <= x_obstacle[1] <= ymax):
             return 1
         x_sh = shapely.geometry.Point(x_obstacle)
         if self._polygon.contains(x_sh):
-- 
2.43.0


From 9e9f7e8b8083a92646e36d9c33a0ec73bde75a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 07/35] fix: polygon intersections with a segment that overlaps
 an edge and crosses another

---
 obstacles/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obstacles/polygon.py b/obstacles/polygon.py
index 0efa34b..c45f76a 100644
--- a/obstacles/polygon.py
+++ b/obstacles/polygon.py
@@ -85,7 +85,8 @@ class Polygon(Obstacle):
         elif intersection_points_shapely.geom_type == 'MultiLineString':
             intersection_points_obstacle = [np.array([ip[0], ip[1]]) for line in intersection_points_shapely.geoms for ip in line.coords]
         else:
-            print(intersection_points_shapely)
+            # Both overlaps with edges and crossings
+            intersection_points_obstacle = [np.array([ip[0], ip[1]]) for geom in intersection_points_shapely.geoms for ip in geom.coords]
         return [self.transform(ip, Frame.OBSTACLE, output_frame) for ip in intersection_points_obstacle]
 
     def tangent_points(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-- 
2.43.0


From 385cebd60be9509bcab54525d0d26c9c183bcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 08/35] fix: betweenness of a point far from a long segment

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index bb7525d..c0dbcc4 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -67,7 +67,7 @@ def is_ccw(a, b, c):
 # TODO: Use [NOT is_cw and NOT is_ccw] instead?
 # Returns true if point b is between point and b
 def is_between(a, b, c):
-    return np.isclose(np.linalg.norm(a-b) + np.linalg.norm(c-b), np.linalg.norm(a-c), rtol=1e-7)
+    return is_collinear(a, b, c) and np.dot(b-a, b-c) < COLLINEAR_THRESHOLD
 
 
 def intersect(a1, a2, b1, b2):
-- 
2.43.0


From cf37475fc1ecc71c6d9165ddbbd560e861cb3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 09/35] fix: Line.intersects looks at both ends of the other
 line

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index c0dbcc4..a84b270 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -122,7 +122,7 @@ class Line:
         return Point(ip_x, ip_y)
 
     def intersects(self, other):
-        return (is_ccw(self.p1, other.p1, other.p1) != is_ccw(self.p2, other.p1, other.p1) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
+        return (is_ccw(self.p1, other.p1, other.p2) != is_ccw(self.p2, other.p1, other.p2) and is_ccw(self.p1, self.p2, other.p1) != is_ccw(self.p1, self.p2, other.p2))
 
 
 class LineSegment(Line):
-- 
2.43.0


From 00cf609405cf4a7e50c6bf263c4b534ee784b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 10/35] fix: convex hull of repeated points terminates

---
 utils/cg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/cg.py b/utils/cg.py
index a84b270..c2db142 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -216,6 +216,8 @@ def equilateral_triangle(centroid, side_length, rot=0):
 
 
 def convex_hull(points):
+    # Repeated points are considered once
+    points = [p for i, p in enumerate(points) if not any(p[0] == q[0] and p[1] == q[1] for q in points[:i])]
     n = len(points)
 
     # Find the leftmost point
-- 
2.43.0


From de18d20a7fe02a0312e0d4149a7da97f9cd2f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 11/35] fix: equilateral triangle rotates about its centroid

---
 utils/cg.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index c2db142..ca32011 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -204,15 +204,16 @@ def get_intersection(a1, a2, b1, b2):
 
 
 def equilateral_triangle(centroid, side_length, rot=0):
-    triangle = np.array(centroid) + np.array([[0, 1 / np.sqrt(3) * side_length],
-                                               [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
-                                               [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
+    centroid = np.array(centroid)
+    triangle = np.array([[0, 1 / np.sqrt(3) * side_length],
+                         [1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length],
+                         [-1 / 2 * side_length, -1 / (2*np.sqrt(3)) * side_length]])
     if not rot:
-        return triangle
+        return centroid + triangle
     c,s = np.cos(rot), np.sin(rot)
-    return np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
-                     [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
-                     [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
+    return centroid + np.array([[c * triangle[0, 0] - s * triangle[0, 1], s * triangle[0, 0] + c * triangle[0, 1]],
+                                [c * triangle[1, 0] - s * triangle[1, 1], s * triangle[1, 0] + c * triangle[1, 1]],
+                                [c * triangle[2, 0] - s * triangle[2, 1], s * triangle[2, 0] + c * triangle[2, 1]]])
 
 
 def convex_hull(points):
-- 
2.43.0


From 55b1abc06f02caf7997894eac02bef1000938a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:35 +0000
Subject: [PATCH 12/35] fix: setting a position does not alias the caller's
 array

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 64e4746..74c463a 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -18,7 +18,7 @@ class MotionModel(ABC):
         self._t += dt
 
     def set_pos(self, pos):
-        self._pos = pos
+        self._pos = np.array(pos, dtype='float64')
 
     def set_rot(self, rot):
         self._rot = rot
-- 
2.43.0


From e0742c542d948cb601d1b7b4d59e9ae08957af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:35 +0000
Subject: [PATCH 13/35] fix: interval motion rests at the last point from its
 time on

---
 obstacles/motion_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/motion_model.py b/obstacles/motion_model.py
index 74c463a..fe7521d 100644
--- a/obstacles/motion_model.py
+++ b/obstacles/motion_model.py
@@ -82,7 +82,7 @@ class Interval(MotionModel):
         super().__init__(init_pos, 0)
 
     def lin_vel(self):
-        if self._t > self.time_point[-1]:
+        if self._t >= self.time_point[-1]:
             vel_norm = np.linalg.norm((self.pos_point[-1] - self.pos_point[-2]) / (self.time_point[-1] - self.time_point[-2]))
             dir = self.pos_point[-1] - self.pos()
             if np.linalg.norm(dir) > vel_norm:
-- 
2.43.0


From 8e38aa2cbf2270f72e8981c3c684feff0446bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 14/35] fix: copy of ellipses and starshaped polygons takes the
 same arguments as of other obstacles

---
 obstacles/ellipse.py            | 2 +-
 obstacles/starshaped_polygon.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/ellipse.py b/obstacles/ellipse.py
index 1ff6153..318e15c 100644
--- a/obstacles/ellipse.py
+++ b/obstacles/ellipse.py
@@ -17,7 +17,7 @@ class Ellipse(StarshapedObstacle):
         super().__init__(xr=xr, **kwargs)
         self.enclosing_ball_diameter = max(2*self._a[0], 2*self._a[1])
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return Ellipse(id=id, name=name, a=self._a, xr=self._xr, n_pol=self._n_pol, motion_model=self._motion_model)
diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 85eba3c..518d32a 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -21,7 +21,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         self._update_vertex_angles()
         self.enclosing_ball_diameter = self._polygon.bounds[2]-self._polygon.bounds[0] + self._polygon.bounds[3]-self._polygon.bounds[1]
 
-    def copy(self, id, name):
+    def copy(self, id='temporary', name=None):
         if (id == 'duplicate' or id == 'd'):
             id = self.id()
         return StarshapedPolygon(id=id, name=name, polygon=self._polygon, xr=self._xr, motion_model=self._motion_model)
-- 
2.43.0


From 6fc3f4db7cad68e5c97213903060fd9491d7bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 15/35] fix: radial projection onto a dilated starshaped
 polygon reaches its boundary

---
 obstacles/starshaped_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 518d32a..b28f698 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -31,7 +31,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         cp = self.copy(id, name)
         cp._polygon = cp._polygon.buffer(padding, cap_style=1, join_style=1)
         cp._pol_bounds = cp._polygon.bounds
-        cp.enclosing_ball_diameter = max(cp._polygon.bounds[2]-cp._polygon.bounds[0], cp._polygon.bounds[3]-cp._polygon.bounds[1])
+        cp.enclosing_ball_diameter = cp._polygon.bounds[2]-cp._polygon.bounds[0] + cp._polygon.bounds[3]-cp._polygon.bounds[1]
         cp.vertices = np.array(cp._polygon.exterior.coords[:-1])
         cp.circular_vertices = np.array(cp._polygon.exterior.coords)
         cp._polygon_global_pose = None
-- 
2.43.0


From e70d1be8c0c3e63e275e7197554877a62847e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 16/35] fix: intersection of cones that share a boundary
 direction

---
 utils/cg.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index ca32011..22831aa 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -366,25 +366,29 @@ class Cone:
             return self.polygon().intersection(other.polygon())
 
     def intersection_same_apex(self, other: 'Cone') -> List['Cone']:
-        other_dir1_in_self = self.point_in_cone(other.apex+other.dir1)
-        other_dir2_in_self = self.point_in_cone(other.apex+other.dir2)
-        self_dir1_in_other = other.point_in_cone(self.apex+self.dir1)
-
-        if other_dir1_in_self and other_dir2_in_self:
-            # Check several cones
-            if self_dir1_in_other:
-                return [Cone(self.apex, self.dir1, other.dir2),
-                        Cone(self.apex, other.dir1, self.dir2)]
-            else:
-                return [other]
-        elif other_dir1_in_self:
-            return [Cone(self.apex, other.dir1, self.dir2)]
-        elif other_dir2_in_self:
-            return [Cone(self.apex, self.dir1, other.dir2)]
-        elif self_dir1_in_other:
-            return [self]
-        else:
-            return []
+        # Counter-clockwise angle from one direction to another
+        def angle(dir1, dir2):
+            return (np.arctan2(dir2[1], dir2[0]) - np.arctan2(dir1[1], dir1[0])) % (2 * np.pi)
+
+        self_width = 2 * np.pi - angle(self.dir2, self.dir1)
+        other_width = 2 * np.pi - angle(other.dir2, other.dir1)
+        self_to_other = angle(self.dir1, other.dir1)
+        other_to_self = 2 * np.pi - self_to_other
+
+        directions = []
+        # Part starting at the first direction of other
+        if self_to_other < self_width:
+            directions += [(other.dir1, self.dir2 if self_width - self_to_other < other_width else other.dir2)]
+        # Part starting at the first direction of self
+        if other_to_self < other_width:
+            directions += [(self.dir1, other.dir2 if other_width - other_to_self < self_width else self.dir2)]
+
+        # A single ray is no intersection
+        def is_ray(dir1, dir2):
+            return (dir1.dot(dir2) > 0 and
+                    orientation_val([0, 0], dir1, dir2) ** 2 < 1e-18 * dir1.dot(dir1) * dir2.dot(dir2))
+
+        return [Cone(self.apex, dir1, dir2) for dir1, dir2 in directions if not is_ray(dir1, dir2)]
 
     @staticmethod
     def list_intersection(cones: List['Cone'], same_apex=False) -> shapely.geometry.Polygon:
-- 
2.43.0


From 5032aca9b1c2683c93e958c6f24c61e91f90df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 17/35] fix: height of random convex polygons

---
 utils/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cg.py b/utils/cg.py
index 22831aa..8217d30 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -431,7 +431,7 @@ def generate_convex_polygon(n, box=None):
 
     # Generate two lists of random X and Y coordinates
     xPool = [box[0]*np.random.uniform() for i in range(n)]
-    yPool = [box[0]*np.random.uniform() for i in range(n)]
+    yPool = [box[1]*np.random.uniform() for i in range(n)]
 
     # Sort them
     xPool = np.sort(xPool)
-- 
2.43.0


From 567ce91140e94c2c47f56506bc6648bf464edf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 18/35] fix: random convex polygons keep the components of
 equally directed edges together

---
 utils/cg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 8217d30..3bae5ab 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -482,8 +482,9 @@ def generate_convex_polygon(n, box=None):
 
     # Sort the vectors by angle
     angle = [np.arctan2(yVec[i], xVec[i]) for i in range(n)]
-    xVec = [x for _, x in sorted(zip(angle, xVec))]
-    yVec = [y for _, y in sorted(zip(angle, yVec))]
+    vec = sorted(zip(angle, xVec, yVec))
+    xVec = [x for _, x, _ in vec]
+    yVec = [y for _, _, y in vec]
 
     # Lay them end-to-end
     x, y = 0, 0
-- 
2.43.0


From 6aefd6a3b93554fd7db739b9566dc4e2d21a1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 19/35] fix: normals of a combined obstacle before its polygon
 has been requested

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 6fdf2cd..e9c717b 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -210,8 +210,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             print(intersection_points_shapely)
 
     def _update_vertex_angles(self):
-        self.vertices = np.array(self._polygon.exterior.coords[:-1])
-        self.circular_vertices = np.array(self._polygon.exterior.coords)
+        self.vertices = np.array(self.polygon().exterior.coords[:-1])
+        self.circular_vertices = np.array(self.polygon().exterior.coords)
         self.vertex_angles = np.arctan2(self.vertices[:, 1] - self._xr[1], self.vertices[:, 0] - self._xr[0])
         idcs = np.argsort(self.vertex_angles)
         self.vertex_angles = self.vertex_angles[idcs]
-- 
2.43.0


From 1fe8e046cef03e14238acf689c9af9c453450656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 20/35] fix: projections and velocities of a combined obstacle
 near its reference point

---
 obstacles/starshaped_primitive_combination.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index e9c717b..27a0936 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -61,8 +61,7 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self._is_convex = StarshapedPolygon(self.polygon(), xr=self.xr(), id="temp").is_convex()
 
     def boundary_mapping(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL):
-        # intersection_points = [p for ps in self.line_intersection([self._xr, self._xr+10*(x-self._xr)]) for p in ps]
-        intersection_points = self.line_intersection([self._xr, self._xr+10*(x-self._xr)])
+        intersection_points = self.line_intersection(self._reference_segment(x))
         if not intersection_points:
             return None
         dist_intersection_points = [np.linalg.norm(ip - self._xr) for ip in intersection_points]
@@ -71,20 +70,20 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
     def vel_intertial_frame(self, x):
         boundary_obs_idx = 0
         max_dist = -1
-        for i, ps in enumerate(self.line_intersection([self._xr, self._xr+10*(x-self._xr)])):
+        line = self._reference_segment(x)
+        for i, o in enumerate(self._obstacle_cluster):
+            ps = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
             o_intersection_dist = max([np.linalg.norm(p-self._xr) for p in ps] + [-1])
             if o_intersection_dist > max_dist:
                 boundary_obs_idx = i
                 max_dist = o_intersection_dist
-        if boundary_obs_idx >= len(self._obstacle_cluster):
-            boundary_obs_idx -= len(self._obstacle_cluster)
         return self._obstacle_cluster[boundary_obs_idx].vel_intertial_frame(x)
 
     def normal(self, x, input_frame=Frame.GLOBAL, output_frame=Frame.GLOBAL, x_is_boundary=False, type='weigthed_polygon_approx'):
         if type == 'sub_normal':
             boundary_obs_idx = 0
             max_dist = -1
-            line = [self._xr, self._xr+10*(x-self._xr)]
+            line = self._reference_segment(x)
             for i, o in enumerate(self._obstacle_cluster):
                 intersection_points = o.line_intersection(line, Frame.GLOBAL, Frame.GLOBAL)
                 for p in intersection_points:
@@ -179,6 +178,12 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
         self.update_plot(line_handles)
         return line_handles, ax
 
+    # Segment from the reference point in the direction of x that leaves the obstacle
+    def _reference_segment(self, x):
+        x_min, y_min, x_max, y_max = self.polygon().bounds
+        reach = 2 * ((x_max - x_min) + (y_max - y_min))
+        return [self._xr, self._xr + reach * self.reference_direction(x)]
+
     def _hull_cluster_point_location(self, x):
         if self._hull_cluster is None:
             return 1
-- 
2.43.0


From 7db4f2b50293d6517e0a36f46ec7b647f0080d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 21/35] fix: hull intersections of a combined obstacle with a
 segment that overlaps an edge and crosses another

---
 obstacles/starshaped_primitive_combination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_primitive_combination.py b/obstacles/starshaped_primitive_combination.py
index 27a0936..17d3d9d 100644
--- a/obstacles/starshaped_primitive_combination.py
+++ b/obstacles/starshaped_primitive_combination.py
@@ -211,8 +211,8 @@ class StarshapedPrimitiveCombination(StarshapedObstacle):
             return [np.array([l[0], l[1]]) for line in intersection_points_shapely.geoms for
                                             l in line.coords]
         else:
-            print("[_hull_cluster_line_intersections]: Shapely geom_type not covered!")
-            print(intersection_points_shapely)
+            # Both overlaps with edges and crossings
+            return [np.array([ip[0], ip[1]]) for geom in intersection_points_shapely.geoms for ip in geom.coords]
 
     def _update_vertex_angles(self):
         self.vertices = np.array(self.polygon().exterior.coords[:-1])
-- 
2.43.0


From 707c94902c0909ccf1686a1669f4fce8226b7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 22/35] fix: polygon of a cone with a direction next to a
 corner of the bounding box

---
 utils/cg.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index 3bae5ab..a28fce3 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -300,20 +300,24 @@ class Cone:
         angle1 = np.arctan2(self.dir1[1], self.dir1[0]) + np.pi
         angle2 = np.arctan2(self.dir2[1], self.dir2[0]) + np.pi
 
-        if Cone.bb_corner_angles[0] <= angle1 < Cone.bb_corner_angles[1]:
+        # Bounding box corners as seen from the apex, starting with the bottom left
+        corners = [Cone.bb_corners[i - 1] for i in range(4)]
+        corner_angles = [np.arctan2(c[1] - self.apex[1], c[0] - self.apex[0]) + np.pi for c in corners]
+
+        if corner_angles[0] <= angle1 < corner_angles[1]:
             ray1_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle1 < Cone.bb_corner_angles[2]:
+        elif  corner_angles[1] <= angle1 < corner_angles[2]:
             ray1_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle1 < Cone.bb_corner_angles[3]:
+        elif  corner_angles[2] <= angle1 < corner_angles[3]:
             ray1_intersection_idx = 2
         else:
             ray1_intersection_idx = 3
 
-        if Cone.bb_corner_angles[0] <= angle2 < Cone.bb_corner_angles[1]:
+        if corner_angles[0] <= angle2 < corner_angles[1]:
             ray2_intersection_idx = 0
-        elif  Cone.bb_corner_angles[1] <= angle2 < Cone.bb_corner_angles[2]:
+        elif  corner_angles[1] <= angle2 < corner_angles[2]:
             ray2_intersection_idx = 1
-        elif  Cone.bb_corner_angles[2] <= angle2 < Cone.bb_corner_angles[3]:
+        elif  corner_angles[2] <= angle2 < corner_angles[3]:
             ray2_intersection_idx = 2
         else:
             ray2_intersection_idx = 3
@@ -337,7 +341,7 @@ class Cone:
                 if r2_border is None:
                     print("SOMETHING WRONG!")
 
-        vertices = [self.apex, r1_border.xy]
+        vertices = [self.apex, np.clip(r1_border.xy, -Cone.bb_width, Cone.bb_width)]
         c_idx = ray1_intersection_idx
         if not (self.is_convex and (ray1_intersection_idx == ray2_intersection_idx)):
             while True:
@@ -345,7 +349,7 @@ class Cone:
                 c_idx = (c_idx + 1) % 4
                 if c_idx == ray2_intersection_idx:
                     break
-        vertices += [r2_border.xy]
+        vertices += [np.clip(r2_border.xy, -Cone.bb_width, Cone.bb_width)]
 
         return shapely.geometry.Polygon(vertices)
 
-- 
2.43.0


From 3a8c72041e455e1a304f596267f0d1ac57fcdcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 23/35] fix: kernel of a starshaped polygon without points
 repeated up to rounding

---
 obstacles/starshaped_polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index b28f698..c31100b 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -861,6 +861,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
             plt.show()
         _, idx = np.unique(xk, axis=0, return_index=True)
         xk = xk[np.sort(idx), :]
+        # Remove points repeated up to rounding
+        xk = xk[np.linalg.norm(xk - np.roll(xk, 1, axis=0), axis=1) > 1e-9, :]
         self._kernel = shapely.geometry.Polygon(xk)
 
 
-- 
2.43.0


From edf872457623eec09549eb72b6adab24d5d249c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 24/35] fix: follow the tangent points of the kernel when its
 vertices are renumbered

---
 obstacles/starshaped_polygon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index c31100b..3281622 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -540,6 +540,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                 # draw(xk, F1_idx, L1_idx, i, xk_bounded)
                 # plt.show()
 
+                # L1 may have been moved within xk
+                L1_idx = next((j for j in range(xk.shape[0]) if np.array_equal(xk[j, :], L1)), L1_idx)
                 # L1 update
                 # scan xk ccw from L1 until find vertex wu s.t. wu+1 lies to the
                 # left of vi+1->(vi+1->wu)->. Let L1 = wu.
@@ -768,6 +770,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
 
                 # If vi+1 in vi->(vi->vi+1)->w1,
                 if case == 2 or is_between(vi, vi_1, w1):
+                    # F1 may have been moved within xk
+                    F1_idx = next((j for j in range(xk.shape[0]) if np.array_equal(xk[j, :], F1)), F1_idx)
                     # scan xk ccw from F1 until find vertex wt s.t. wt+1 lies to the
                     # right of vi+1->(vi+1->wt)->. Let F1 = wt.
                     idx_offsets = range(xk.shape[0])
-- 
2.43.0


From dd7f6daf83d963fc44fbdcba703a25a46f1422e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 25/35] fix: kernel tangent points for a vertex on the boundary
 of the kernel

---
 obstacles/starshaped_polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 3281622..3c21255 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -529,7 +529,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                         t = (F1_idx + off) % xk.shape[0]
                         w_next = xk[(t + 1) % xk.shape[0], :]
                         line_end_point = vi_1 + INF_VAL * (xk[t, :] - vi_1)
-                        if point_right_of_line(w_next, vi_1, line_end_point):
+                        if point_right_of_line(w_next, vi_1, line_end_point) or (is_between(xk[t, :], vi_1, w_next) and not np.allclose(xk[t, :], vi_1)):
                             F1_idx = t
                             break
 
@@ -790,7 +790,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                                     i + 1, i + 1))
                             plt.legend()
                             plt.show()
-                        if point_right_of_line(w_next, vi_1, line_end_point):
+                        if point_right_of_line(w_next, vi_1, line_end_point) or (is_between(xk[t, :], vi_1, w_next) and not np.allclose(xk[t, :], vi_1)):
                             F1_idx = t
                             break
                 else:
@@ -800,7 +800,7 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                 if case == 1:
                     if w2 is not None:
                         # If vi+1 in vi->(vi->vi+1)->w2
-                        if is_between(vi, vi_1, w2):
+                        if is_between(vi, vi_1, w2) and not np.allclose(vi_1, w2):
                             L1_idx = w2_idx
                         else:
                             # scan xk ccw from w2 until find vertex wu s.t. wu+1 lies to the
-- 
2.43.0


From 4a5da7fbc2cd56ece1e334093698b001401c03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 26/35] fix: safe change of the reference point

---
 obstacles/starshaped_obstacle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_obstacle.py b/obstacles/starshaped_obstacle.py
index 122ab8f..83f766b 100644
--- a/obstacles/starshaped_obstacle.py
+++ b/obstacles/starshaped_obstacle.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod
 import numpy as np
+import shapely
 from obstacles import Obstacle, Frame
 from shapely import affinity as sh_affinity
 
@@ -19,8 +20,8 @@ class StarshapedObstacle(Obstacle):
     def set_xr(self, xr, input_frame=Frame.OBSTACLE, safe_set=False):
         new_xr = self.transform(xr, input_frame, Frame.OBSTACLE)
         if safe_set:
-            k = self.kernel()
-            if not k.exterior_point(new_xr, Frame.OBSTACLE):
+            k = self.kernel(Frame.OBSTACLE)
+            if k.covers(shapely.geometry.Point(new_xr)):
                 self._xr = new_xr
         else:
             self._xr = new_xr
-- 
2.43.0


From 8d98ec964e1fceae8f8b9bcef4a2a61f05ec472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 27/35] fix: kernel still unbounded when a line meets no
 further edge of it

---
 obstacles/starshaped_polygon.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 3c21255..b821917 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -412,8 +412,11 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                     if w2 is None:
                         # Test if xk+1 is bounded
                         # If slope ->(vi->vi+1)->vi+1 is comprised between the slopes of initial and final half lines of xk,
+                        # or no edge after that of w1 is intersected
                         if (orientation_val(xk[-2, :], xk[-1, :], start_point) * orientation_val(vi_1, start_point,
-                                                                                                 xk[0, :])) > 0:
+                                                                                                 xk[0, :])) > 0 or (
+                                not xk_bounded and all(get_intersection(xk[r, :], xk[r - 1, :], start_point, vi_1) is None
+                                                       for r in range(t + 1, xk.shape[0]))):
                             beta = xk[t:, :]
                             if debug:
                                 draw(xk, F1_idx, L1_idx, i, xk_bounded)
@@ -694,10 +697,13 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                     if w2 is None:
                         # Test if xk+1 is bounded
                         # If slope vi->(vi->vi+1)-> is comprised between the slopes of initial and final half lines of xk,
+                        # or no edge before that of w1 is intersected
                         if not xk_bounded and ((orientation_val(xk[-2, :], xk[-1, :], end_point) * orientation_val(vi,
                                                                                                                    end_point,
                                                                                                                    xk[0,
-                                                                                                                   :])) > 0):
+                                                                                                                   :])) > 0 or
+                                               all(get_intersection(xk[r - 1, :], xk[r, :], vi, end_point) is None
+                                                   for r in range(1, t))):
                             alpha = xk[:t, :]
                             if debug:
                                 draw(xk, F1_idx, L1_idx, i, xk_bounded)
-- 
2.43.0


From ae4ce7f4bb8f797d058bb17615e40456f674ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 28/35] fix: tangent point of an unbounded kernel does not wrap
 around its end

---
 obstacles/starshaped_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index b821917..4eb1c4a 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -553,7 +553,8 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
                     u = (L1_idx + off) % xk.shape[0]
                     w_next = xk[(u + 1) % xk.shape[0], :]
                     line_end_point = vi_1 + INF_VAL * (xk[u, :] - vi_1)
-                    if point_left_of_line(w_next, vi_1, line_end_point):
+                    # The scan ends at the final half line of an unbounded xk
+                    if point_left_of_line(w_next, vi_1, line_end_point) or (not xk_bounded and u == xk.shape[0] - 1):
                         L1_idx = u
                         break
 
-- 
2.43.0


From 43c46709db90f7e7aab11aba4a11bbf890df6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 29/35] fix: previous clusters of an incomplete computation
 have no kernel points

---
 starshaped_hull/cluster_and_starify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 2e825e8..c6c38d8 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -84,7 +84,9 @@ def get_intersection_clusters(clusters):
 
 
 def compute_kernel_points(cl, x, xg, epsilon, cl_prev, workspace):
-    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if cl_prev else None
+    # Clusters returned when the computation could not complete have no kernel points
+    use_prev = cl_prev is not None and cl_prev.kernel_points is not None
+    triangle_center_prev = np.mean(cl_prev.kernel_points, axis=0) if use_prev else None
 
     t0 = tic()
     ts = {}
-- 
2.43.0


From 2cc8cb5687ddc42b0aa73f3ed25cd7226211fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 30/35] fix: reaching the maximum number of iterations is no
 completion

---
 starshaped_hull/cluster_and_starify.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index c6c38d8..d067246 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -409,8 +409,11 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
 
         n_iter += 1
 
-        if n_iter >= max_iterations:
-            break
+        if intersection_exists and n_iter >= max_iterations:
+            if verbose:
+                print("[Cluster and Starify]: Max number of iterations.")
+            cluster_iterations += [clusters]
+            return default_result()
 
     # ----------- Make Convex ----------- #
 
-- 
2.43.0


From a07b7955720157d2b5600088c510aa8e2e8efc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 31/35] fix: empty admissible kernel of a single obstacle

---
 starshaped_hull/cluster_and_starify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index d067246..99afe61 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -244,6 +244,12 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
         cl.admissible_kernel = adm_ker_robot_cones[o.id()].intersection(adm_ker_goal_cones[o.id()])
         kernel_time[0] += toc(t1)
 
+        # May be empty for obstacles which are not convex
+        if cl.admissible_kernel.is_empty or cl.admissible_kernel.area == 0:
+            if verbose:
+                print("[Cluster and Starify]: Admissible kernel empty for the obstacle " + cl.name)
+            return default_result()
+
         t1 = tic()
         cl_prev = extract_cluster(cl, previous_clusters)
         # if cl_prev is None:
-- 
2.43.0


From 81b31fa6426458599a2c437e0d2fd0d1edfcdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 32/35] fix: kernel of large polygons

---
 obstacles/starshaped_polygon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/obstacles/starshaped_polygon.py b/obstacles/starshaped_polygon.py
index 4eb1c4a..5e93805 100644
--- a/obstacles/starshaped_polygon.py
+++ b/obstacles/starshaped_polygon.py
@@ -221,6 +221,12 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         pol = shapely.ops.orient(self._polygon)
         v = np.asarray(pol.exterior.coords)[:-1, :]
 
+        # Scale large polygons (exactly) such that INF_VAL and the tolerances suit their size
+        scale = 1.
+        while np.max(np.max(v, axis=0) - np.min(v, axis=0)) > 16 * scale:
+            scale *= 2
+        v = v / scale
+
         # Remove points in line
         v_idcs = np.arange(v.shape[0])
         for i in range(v.shape[0]):
@@ -874,6 +880,6 @@ class StarshapedPolygon(Polygon, StarshapedObstacle):
         xk = xk[np.sort(idx), :]
         # Remove points repeated up to rounding
         xk = xk[np.linalg.norm(xk - np.roll(xk, 1, axis=0), axis=1) > 1e-9, :]
-        self._kernel = shapely.geometry.Polygon(xk)
+        self._kernel = shapely.geometry.Polygon(scale * xk)
 
 
-- 
2.43.0


From 94346f494a76643ca4075f534c69247a170fb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 33/35] fix: starshaped hull of large polygons

---
 starshaped_hull/starshaped_hull.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/starshaped_hull/starshaped_hull.py b/starshaped_hull/starshaped_hull.py
index 8fde482..14beafa 100644
--- a/starshaped_hull/starshaped_hull.py
+++ b/starshaped_hull/starshaped_hull.py
@@ -49,6 +49,16 @@ def convex_kernel_starshaped_hull(convex_obstacle, kernel_points):
 def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
     kernel_points = kernel_points.reshape((kernel_points.size//2, 2))
 
+    # Scale large polygons (exactly) such that the tolerances suit their size
+    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
+    scale = 1.
+    while np.max(np.max(vertices, axis=0) - np.min(vertices, axis=0)) > 16 * scale:
+        scale *= 2
+    if scale > 1:
+        polygon = shapely.geometry.Polygon(vertices / scale)
+        vertices = vertices / scale
+        kernel_points = kernel_points / scale
+
     if kernel_points.shape[0] > 2:
         # NOTE: Assumes kernel points convex
         # convex_kernel_subset = shapely.geometry.Polygon(kernel_points[ConvexHull(kernel_points).vertices, :])
@@ -56,7 +66,6 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
 
     # polygon_sh = polygon.polygon()  # Shapely represenation of polygon
     # vertices = np.asarray(polygon_sh.exterior.coords)[:-1, :]  # Vertices of polygon
-    vertices = np.asarray(polygon.exterior.coords)[:-1, :]  # Vertices of polygon
     star_vertices = []  # Vertices of starshaped hull polygon
     v_bar = kernel_points[0].copy() # Last vertex of starshaped hull polygon
     e1_idx = 0
@@ -203,5 +212,5 @@ def polygon_kernel_starshaped_hull(polygon, kernel_points, debug=0):
         ax.plot(*k_centroid, 'bs')
         plt.show()
 
-    return shapely.geometry.Polygon(star_vertices)
+    return shapely.geometry.Polygon([scale * sv for sv in star_vertices])
 
-- 
2.43.0


From 25fc608adc3265e87ba3be279a9b0fea1633ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 34/35] fix: convex hull of collinear points

---
 utils/cg.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/utils/cg.py b/utils/cg.py
index a28fce3..c227196 100644
--- a/utils/cg.py
+++ b/utils/cg.py
@@ -230,6 +230,15 @@ def convex_hull(points):
             if points[i][1] > points[l][1]:
                 l = i
 
+    def sq_dist(a, b):
+        return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
+
+    # Scale large point sets (exactly) such that the collinearity threshold suits their size
+    scale = 1.
+    while any([sgn * (p[k] - points[0][k]) > 16 * scale for p in points for k in (0, 1) for sgn in (-1, 1)]):
+        scale *= 2
+    pts = [[p[0] / scale, p[1] / scale] for p in points]
+
     hull = []
     '''
     Start from leftmost point, keep moving counterclockwise
@@ -237,9 +246,9 @@ def convex_hull(points):
     times where h is number of points in result or output.
     '''
     p = l
-    while (True):
+    while p not in hull:
         # Add current point to result
-        hull.append([points[p][0], points[p][1]])
+        hull.append(p)
 
         '''
         Search for a point 'q' such that orientation(p, q,
@@ -253,8 +262,11 @@ def convex_hull(points):
         for i in range(n):
 
             # If i is more counterclockwise
-            # than current q, then update q
-            if is_ccw(points[p], points[i], points[q]):
+            # than current q (or further away in
+            # the same direction), then update q
+            if is_ccw(pts[p], pts[i], pts[q]):
+                q = i
+            elif is_collinear(pts[p], pts[i], pts[q]) and sq_dist(pts[p], pts[i]) > sq_dist(pts[p], pts[q]):
                 q = i
         '''
         Now q is the most counterclockwise with respect to p
@@ -263,11 +275,7 @@ def convex_hull(points):
         '''
         p = q
 
-        # While we don't come to first point
-        if (p == l):
-            break
-
-    return hull
+    return [[points[i][0], points[i][1]] for i in hull[hull.index(p):]]
 
 
 class Cone:
-- 
2.43.0


From 50a6b9a105ef27a7f1e7ce4a07cb56d5e225a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 35/35] fix: convex hull with an excluded point on its boundary

---
 starshaped_hull/cluster_and_starify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starshaped_hull/cluster_and_starify.py b/starshaped_hull/cluster_and_starify.py
index 99afe61..665a7ad 100644
--- a/starshaped_hull/cluster_and_starify.py
+++ b/starshaped_hull/cluster_and_starify.py
@@ -437,7 +437,7 @@ def cluster_and_starify(obstacles, x, xg, epsilon, workspace=None, max_compute_t
                 v = np.array(cl.polygon().exterior.coords)[:-1, :]
                 hull = ConvexHull(v)
                 hull_polygon = shapely.geometry.Polygon(v[hull.vertices, :])
-                if not any([hull_polygon.contains(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
+                if not any([hull_polygon.intersects(shapely.geometry.Point(x_ex)) for x_ex in [x, xg]]) and not any(
                         [hull_polygon.intersects(clusters[k].polygon()) for k in range(len(clusters)) if k != j]):
                     # clusters[j].cluster_obstacle = StarshapedPrimitiveCombination(cl.obstacles, hull_polygon, cl.cluster_obstacle.xr(Frame.GLOBAL))
                     clusters[j].cluster_obstacle = StarshapedPolygon(hull_polygon, xr=cl.cluster_obstacle.xr(Frame.GLOBAL))
-- 
2.43.0

