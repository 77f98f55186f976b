From 52e4efdce9334c4103daadd90154b42612ecff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:00 +0000
Subject: [PATCH 01/32] fix: compare angles as directions across the +-180
 degree seam

AngleDeg(-180) and AngleDeg(180) are the same direction, but the raw
difference of +-360 made one of them strictly left of the other, so for
example AngleDeg(-180).is_within(170, 180) was False.
---
 src/pyrusgeom/angle_deg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0e24632 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -176,7 +176,7 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self.degree()
+        diff = (angle - self).degree()
         return (0.0 < diff < 180.0) or diff < -180.0
 
     def is_right_of(self, angle: Union[AngleDeg, float, int]) -> bool:
@@ -190,7 +190,7 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
+        diff = (self - angle).degree()
         return (0.0 < diff < 180.0) or diff < -180.0
 
     def is_left_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
@@ -204,7 +204,7 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self._degree
+        diff = (angle - self).degree()
         return 0.0 <= diff < 180.0 or diff < -180.0
 
     def is_right_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
@@ -218,7 +218,7 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
+        diff = (self - angle).degree()
         return (0.0 <= diff < 180.0) or diff < -180.0
 
     def __iadd__(self, other: Union[AngleDeg, float, int]) -> AngleDeg:
@@ -531,7 +531,7 @@ class AngleDeg:
         """
         result = AngleDeg(left)
         rel = AngleDeg(AngleDeg(right) - result)
-        diff = result.degree() - AngleDeg(right).degree()
+        diff = (result - AngleDeg(right)).degree()
         half_deg = rel.degree() * 0.5
         result += half_deg
         if (0.0 < diff < 180.0) or diff < -180.0:
-- 
2.43.0


From 562f8a2ab8c21046e4cac08d4af9bd4f8ef81bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:01 +0000
Subject: [PATCH 02/32] fix: use the Python 3 name of the in-place division
 operator

'angle /= 2' raised TypeError and 'vector /= 2' rebound the name to a new
vector instead of dividing in place like +=, -= and *= do.
---
 src/pyrusgeom/angle_deg.py | 2 +-
 src/pyrusgeom/vector_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 0e24632..f703edd 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..4b68e01 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -575,7 +575,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From 33f6179fe306b8a5f66ece1995d49380a49db2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:03 +0000
Subject: [PATCH 03/32] fix: keep the validity flag when copying a Vector2D

Vector2D(Vector2D.invalid()) and Vector2D.invalid().copy() were valid
vectors, so the 'no intersection' marker was lost by a copy.
---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 4b68e01..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From 6cd7b09932e21f0e99fd2527343b366d5f5ac998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:05 +0000
Subject: [PATCH 04/32] fix: compare Line2D as lines

Line2D(1, 0, 5) == Line2D(2, 0, 5) was True (different lines) and
Line2D(1, 0, 5) == Line2D(2, 0, 10) was False (the same line).
---
 src/pyrusgeom/line_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..53d9463 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -291,8 +291,9 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
-        return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+        return (math.fabs(self._a * other.b() - other.a() * self._b) < EPSILON
+                and math.fabs(self._a * other.c() - other.a() * self._c) < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c) < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From 9c9cd88ebcc909953c4550c08c63130e687e671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:06 +0000
Subject: [PATCH 05/32] fix: return fresh points from Segment2D.nearest_point
 and projection

Changing the returned point moved the end point of the segment.
---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..4213a6d 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From b277054153d0a550b53d285196f23655c71c6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:07 +0000
Subject: [PATCH 06/32] fix: on_segment of a zero length segment

Segment2D(1, 1, 1, 1).on_segment(Vector2D(5, 1)) was True.
---
 src/pyrusgeom/segment_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 4213a6d..b24a5c7 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -520,7 +520,8 @@ class Segment2D:
             float: True if point is on this segment. else False.
         """
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
-            and self.check_intersects_on_line(point)
+            and self.check_intersects_on_line(point) \
+            and (self._origin != self._terminal or self._origin == point)
 
     def on_segment_weakly(self, point: Vector2D) -> bool:
         """weakly check if point is on segment or not
-- 
2.43.0


From 814edd8c6eabc335bb27e5974ce1791fa19d569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:09 +0000
Subject: [PATCH 07/32] fix: Triangle2D.is_valid compared the first vertex with
 itself

No triangle was ever valid.
---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From d3f3ced241710b34ebbdea738f06c738a188167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 08/32] fix: Triangle2D.tri_centroid raised AttributeError for
 every input

Vector2D.add returns None and cannot be chained.
---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 34c5f59e11f49d301b55106b75aa9e78fc553115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:11 +0000
Subject: [PATCH 09/32] fix: Matrix2D product overwrote its left operand

'm1 * m2' stored the product in m1 and returned m1.
---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From 160edb771f4be5f2c76bf47fde0f16227fa5e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 10/32] fix: Matrix2D equality compared the x translation with
 the y translation

Matrix2D.make_translation(1, 2) was not equal to itself.
---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From 2a35e7986a7d2392a75997fc6afacb6abf8c0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 11/32] fix: Sector2D lost its inner radius and reported it as
 the outer one

Sector2D(c, 2, 5, 0, 90) contained points at distance 1, had the area of
the full sector, and radius_max() returned 0.
---
 src/pyrusgeom/sector_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From bee39afb8e25d56dbbf890b4488af15493e8f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:15 +0000
Subject: [PATCH 12/32] fix: wind_effect ignored the wind

polar2vector is a static factory, its result was dropped and the wind was
always (0, 0).
---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From 6ad3f444589276cd2bda438636ccfee50a8745d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:17 +0000
Subject: [PATCH 13/32] fix: Rect2D from two corners was always empty

Rect2D(Vector2D(0, 0), Vector2D(4, 3)), and assign with two corners, threw
the computed size away.
---
 src/pyrusgeom/rect_2d.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..c2b66ec 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,7 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
+            self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +153,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From 9dd1c02c588de1f4aaa3b9e5cea9a9c25265bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:18 +0000
Subject: [PATCH 14/32] fix: Rect2D.assign took the left coordinate for the
 length

assign(10, 20, 3, 4) made a rectangle of length 10; set_top_left and
set_bottom_right go through it and moved the opposite corner.
---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c2b66ec..77b1ddb 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -138,7 +138,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From 0c7e2fcb48c5bf48fef31d7a1773254b264388c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:20 +0000
Subject: [PATCH 15/32] fix: Rect2D shared the Size2D it was made from

Resizing the rectangle changed the caller's size object, and every other
rectangle made from it.
---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 77b1ddb..9b2cd7a 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -93,7 +93,7 @@ class Rect2D(Region2D):
             self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -155,7 +155,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From 31bdc9c9fe4e9b2acbbee0b45ace1da32fb85211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:21 +0000
Subject: [PATCH 16/32] fix: Rect2D.contains_almost raised TypeError for every
 input

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 9b2cd7a..f2f0c40 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -526,8 +526,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From 65b507b494018c80c2ee3fad92aa38d01606941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:23 +0000
Subject: [PATCH 17/32] fix: Rect2D.from_center with a center vector raised
 AttributeError

---
 src/pyrusgeom/rect_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f2f0c40..13c141b 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -835,7 +835,8 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5,
+                          args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 54caf3613ada11db6431312aff224c35735a03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:24 +0000
Subject: [PATCH 18/32] fix: Rect2D.intersected and united computed neither

Both overwrote the receiver; disjoint rectangles intersected to a non-empty
rectangle, and united was a copy of intersected.
---
 src/pyrusgeom/rect_2d.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 13c141b..c447553 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -764,9 +764,8 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -774,13 +773,9 @@ class Rect2D(Region2D):
         length = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
@@ -791,23 +786,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From aac7e2b132242cb2c827f9ca87f428fb9d774546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:26 +0000
Subject: [PATCH 19/32] fix: Rect2D.intersection lost a crossing of a line
 through a corner

The corner was found on two edges and both copies used up the two result
slots: the diagonal-like line from (0, 0) through (1, 3) met
Rect2D(0, 0, 2, 3) in the corner only.
---
 src/pyrusgeom/rect_2d.py | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c447553..c5bbfbf 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -704,35 +704,23 @@ class Rect2D(Region2D):
             list[Vector2D]: intersection Points
         """
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(0, 0), Vector2D(0, 0)]
             left_x = self.left()
             right_x = self.right()
             top_y = self.top()
             bottom_y = self.bottom()
-            t_sol[n_sol] = self.left_edge().intersection(other) # n_sol 0
-            if t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            t_sol[n_sol] = self.right_edge().intersection(other) # n_sol 0 1
-            if n_sol < 2 and t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            if n_sol == 0:
-                sol_list = []
-            elif n_sol == 1:
-                sol_list = [t_sol[0]]
-            else:
-                sol_list = [t_sol[0], t_sol[1]]
+            candidates = []
+            for edge in (self.left_edge(), self.right_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and top_y <= sol.y() <= bottom_y:
+                    candidates.append(sol)
+            for edge in (self.top_edge(), self.bottom_edge()):
+                sol = edge.intersection(other)
+                if sol.is_valid() and left_x <= sol.x() <= right_x:
+                    candidates.append(sol)
+            sol_list = []
+            for sol in candidates:
+                if len(sol_list) < 2 and not any(sol.equals_weakly(s) for s in sol_list):
+                    sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
-- 
2.43.0


From dce7ba1b0676c45abe69b3b1302e85505110bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:27 +0000
Subject: [PATCH 20/32] fix: bounding box of an empty polygon raised

Rect2D has no constructor without arguments.
---
 src/pyrusgeom/polygon_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..7c9c427 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -201,7 +201,7 @@ class Polygon2D(Region2D):
             bounding box of this polygon
         """
         if len(self._vertices) == 0:
-            return Rect2D()
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
         x_min = float("inf")
         x_max = - float("inf")
         y_min = float("inf")
-- 
2.43.0


From bd87d711da356b03539592603c231a7d71dbdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:28 +0000
Subject: [PATCH 21/32] fix: Polygon2D.contains rejected points on some edges

With allow_on_segment the square (0,0)-(4,4) contained (4, 2) but not
(0, 2), because the half line crosses two edges.
---
 src/pyrusgeom/polygon_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 7c9c427..f4d5d20 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,8 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if allow_on_segment and point == p_0:
                 return True
-- 
2.43.0


From b6da0fccbc94d6a3903095a26cc31d3cbf2b3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 22/32] fix: Polygon2D.contains rejected its own vertices by
 rounding

The right and bottom of the bounding box are left + (right - left), which
can round below the vertex they were made from.
---
 src/pyrusgeom/polygon_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index f4d5d20..38e4262 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -11,6 +11,7 @@ from pyrusgeom.angle_deg import AngleDeg
 from pyrusgeom.size_2d import Size2D
 from pyrusgeom.line_2d import Line2D
 from pyrusgeom.segment_2d import Segment2D
+from pyrusgeom.math_values import EPSILON
 
 
 class XLessEqual:
@@ -238,7 +239,7 @@ class Polygon2D(Region2D):
             return allow_on_segment and (self._vertices[0] == point)
 
         bounding_box = self.get_bounding_box()
-        if not bounding_box.contains(point):
+        if not bounding_box.contains_almost(point, EPSILON):
             return False
 
         # make virtual half line
-- 
2.43.0


From d06158d80b8ea90ae8cb5004fa74a6d0f3f9c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 23/32] fix: Polygon2D shared its vertices with the caller

Moving a vector after it was passed in a list, assigned or added, or one
returned by vertices(), moved the polygon; Polygon2D(v1, v2, ...) already
copied.
---
 src/pyrusgeom/polygon_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 38e4262..ce6f8dc 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -148,7 +148,7 @@ class Polygon2D(Region2D):
         if len(args) == 0:
             self._vertices = [Vector2D()]
         elif isinstance(args[0], list):
-            self._vertices = args[0].copy()
+            self._vertices = [point.copy() for point in args[0]]
         else:
             for item in args:
                 if isinstance(item,Vector2D):
@@ -167,7 +167,7 @@ class Polygon2D(Region2D):
             Polygon2D: rturn itself
         """
         if len(points) > 0:
-            self._vertices = points.copy()
+            self._vertices = [point.copy() for point in points]
         return self
 
     def add_vertex(self, point: Vector2D) -> None:
@@ -176,7 +176,7 @@ class Polygon2D(Region2D):
         Args:
             point(Vector2d): point to add
         """
-        self._vertices.append(point)
+        self._vertices.append(point.copy())
 
     def vertices(self) -> list[Vector2D]:
         """get a copy list from the vertex container
@@ -184,7 +184,7 @@ class Polygon2D(Region2D):
         Returns:
             list: a list with the vertex container values
         """
-        vertices_cp = self._vertices.copy()
+        vertices_cp = [point.copy() for point in self._vertices]
         return vertices_cp
 
     def vertices_(self) -> list:
-- 
2.43.0


From cc8029e1ec45f024d3c0c5421c8b251c1dcce63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 24/32] fix: Graham scan sorted around (0,0) and destroyed its
 input

The points were sorted around the origin instead of the extreme point, so
hulls not around the origin were wrong, and the vertices were cut out of
the caller's own list of points, which lost the others.
---
 src/pyrusgeom/convex_hull.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..978437a 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = list(point_list)
         self._vertices = []
         self._edges = []
 
@@ -373,11 +373,11 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
+        self._vertices = self._input_points.copy()
 
         top = 1
         for i in range(2, point_size):
-            while not is_clockwise(self._vertices[top - 1],
+            while top > 0 and not is_clockwise(self._vertices[top - 1],
                 self._vertices[top], self._input_points[i]):
                 top -= 1
 
@@ -394,7 +394,7 @@ class ConvexHull:
             if self._vertices[i] != self._vertices[-1]:
                 self._edges.append(
                     Segment2D(self._vertices[i], self._vertices[i + 1]))
-        self._edges.append(Segment2D(self._vertices[0], self._vertices[-1]))
+        self._edges.append(Segment2D(self._vertices[-1], self._vertices[0]))
 
     def get_min_point_index(self) -> int:
         """get the index of minimum coordinate point
@@ -421,7 +421,7 @@ class ConvexHull:
         return min_index
 
     def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+        """sort points by anlge from the point at the given index
         """
         if len(self._input_points) <= index:
             return
@@ -430,8 +430,10 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        angle_key = functools.cmp_to_key(
+            lambda lhs, rhs: angle_sort_predicate(lhs, rhs, base))
+        self._input_points.sort(key=lambda point: (point != base, angle_key(point)))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From f1dbf419c2796b93e8060e8904933db1eceecc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:55 +0000
Subject: [PATCH 25/32] fix: Triangle2D.intersection raised or lost crossings

A line through the first two edges wrote a third result slot (IndexError),
a segment hit an unbound name and a list/int comparison, a line through a
vertex lost its second crossing, and a ray tested the first crossing twice.
---
 src/pyrusgeom/triangle_2d.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..4017f79 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -270,32 +270,27 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
-            t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
+            t_sol = [Vector2D.invalid(), Vector2D.invalid()]
+            for edge in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = edge.intersection(other)
+                if n_sol == 2 or not sol.is_valid():
+                    continue
+                if n_sol == 1 and sol.equals_weakly(t_sol[0]):
+                    continue
+                t_sol[n_sol] = sol
                 n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
             sol_list = [n_sol, t_sol[0], t_sol[1]]
 
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +305,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 3574f7e5224175a2c78553e0c73c262b6b787048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:26 +0000
Subject: [PATCH 26/32] fix: wrapping method lost vertices and an edge of the
 hull

Of collinear candidates it took the nearest one, so it could turn back or
close early, a duplicate of the start point was not recognised as the end,
and the edge leaving the start point was never listed.
---
 src/pyrusgeom/convex_hull.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 978437a..4228c60 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,19 +344,18 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
             vertices_index.append(current_index)
             self._vertices.append(current_point)
 
-            if current_index == min_index:
+            if current_point == self._input_points[min_index]:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 7afd29068e0c968ba61729745ba2d3a0966003b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:58 +0000
Subject: [PATCH 27/32] fix: separated collinear segments reported as crossing

For (almost) collinear points the four areas are rounding errors of any sign,
so that exist_intersection could be True (and dist 0) for segments far apart
on one line.
---
 src/pyrusgeom/segment_2d.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index b24a5c7..0b8ec56 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -344,6 +344,9 @@ class Segment2D:
         """
 
         if isinstance(other, Segment2D):
+            if not self._boxes_overlap(other):
+                return False
+
             tri_a0 = Triangle2D.double_signed_area_st(
                 self._origin, self._terminal, other.origin())
             tri_a1 = Triangle2D.double_signed_area_st(
@@ -377,6 +380,27 @@ class Segment2D:
                 self._terminal.y() + other.c()
             return tri_a0 * tri_a1 <= 0.0
 
+    def _boxes_overlap(self, other: Segment2D) -> bool:
+        """check if the bounding boxes of the segments share a point.
+        the signs of the areas of (almost) collinear points are only rounding errors,
+        so that they can not tell separated segments apart.
+
+        Args:
+            other (Segment2D): other segment
+
+        Returns:
+            bool: True if boxes overlap. else False
+        """
+        return (
+            max(self._origin.x(), self._terminal.x())
+            >= min(other.origin_().x(), other.terminal_().x())
+            and max(other.origin_().x(), other.terminal_().x())
+            >= min(self._origin.x(), self._terminal.x())
+            and max(self._origin.y(), self._terminal.y())
+            >= min(other.origin_().y(), other.terminal_().y())
+            and max(other.origin_().y(), other.terminal_().y())
+            >= min(self._origin.y(), self._terminal.y()))
+
     def check_intersects_on_line(self, point: Vector2D) -> bool:
         """check if given point intersects on line
 
@@ -403,7 +427,7 @@ class Segment2D:
                 terminal point of segment.
                 False if segments do not intersect or intersect on terminal point of segment.
         """
-        return (Triangle2D.double_signed_area_st(
+        return self._boxes_overlap(other) and (Triangle2D.double_signed_area_st(
             self._origin,
             self._terminal,
             other.origin())
-- 
2.43.0


From 39a6c8bb8d2fb19bc0a3162139bd32f489b62032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:43 +0000
Subject: [PATCH 28/32] fix: Graham scan reports the hull counter clockwise, as
 documented

---
 src/pyrusgeom/convex_hull.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 4228c60..aabf04d 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -388,6 +388,8 @@ class ConvexHull:
         top += 1
 
         del self._vertices[top:len(self._vertices)]
+        # the scan goes round clockwise
+        self._vertices[1:] = self._vertices[:0:-1]
 
         for i in range(len(self._vertices)):
             if self._vertices[i] != self._vertices[-1]:
-- 
2.43.0


From 128ed9c9a46de79e707913fb7f09ab014fa8017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:03 +0000
Subject: [PATCH 29/32] fix: clipping keeps the rest of a polygon whose edge
 crosses a side within tolerance

---
 src/pyrusgeom/polygon_2d.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index ce6f8dc..c1973d4 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -448,17 +448,14 @@ class Polygon2D(Region2D):
                 else:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
-                    if not cuted.is_valid():
-                        return new_points
-
-                    new_points.append(cuted)
+                    if cuted.is_valid():
+                        new_points.append(cuted)
                     new_points.append(p_1)
         return new_points
 
-- 
2.43.0


From b7f0b5921ec4efd2617f5b39cd08bfb8e40f26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:03 +0000
Subject: [PATCH 30/32] fix: a line through a corner of a rectangle meets it
 there despite rounding

---
 src/pyrusgeom/rect_2d.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c5bbfbf..e1345cf 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -22,7 +22,7 @@ from pyrusgeom.region_2d import Region2D
 from pyrusgeom.ray_2d import Ray2D
 from pyrusgeom.vector_2d import Vector2D
 from pyrusgeom.line_2d import Line2D
-from pyrusgeom.math_values import EPSILON
+from pyrusgeom.math_values import CALC_ERROR, EPSILON
 
 
 class Rect2D(Region2D):
@@ -711,15 +711,18 @@ class Rect2D(Region2D):
             candidates = []
             for edge in (self.left_edge(), self.right_edge()):
                 sol = edge.intersection(other)
-                if sol.is_valid() and top_y <= sol.y() <= bottom_y:
-                    candidates.append(sol)
+                if sol.is_valid():
+                    candidates.append((max(top_y - sol.y(), sol.y() - bottom_y), sol))
             for edge in (self.top_edge(), self.bottom_edge()):
                 sol = edge.intersection(other)
-                if sol.is_valid() and left_x <= sol.x() <= right_x:
-                    candidates.append(sol)
+                if sol.is_valid():
+                    candidates.append((max(left_x - sol.x(), sol.x() - right_x), sol))
+            # a corner may lie beyond the end of both its sides by rounding: those come last
+            candidates.sort(key=lambda candidate: candidate[0] > 0.0)
             sol_list = []
-            for sol in candidates:
-                if len(sol_list) < 2 and not any(sol.equals_weakly(s) for s in sol_list):
+            for beyond, sol in candidates:
+                if (beyond <= CALC_ERROR and len(sol_list) < 2
+                        and not any(sol.equals_weakly(s) for s in sol_list)):
                     sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
-- 
2.43.0


From 15d49d06d7d3eb93e4e6071e67ca964008c2c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 31/32] fix: a sector's outer radius is never below its clamped
 inner radius

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 6cd1c6b..19585d9 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -45,7 +45,7 @@ class Sector2D(Region2D):
 
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
         self.is_valid = True
@@ -63,7 +63,7 @@ class Sector2D(Region2D):
         """
         self._center = Vector2D(center)
         self._min_r = max(0.0, min_r)
-        self._max_r = max(min_r, max_r)
+        self._max_r = max(self._min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
 
-- 
2.43.0


From 57950560601fab853fd8930a4395ef5443354a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:39 +0000
Subject: [PATCH 32/32] fix: Rect2D.from_center with a negative size is centred
 on the given point

---
 src/pyrusgeom/rect_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index e1345cf..74b0390 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -811,9 +811,10 @@ class Rect2D(Region2D):
             Rect2D: created rectangle
         """
         if len(args) == 4:
-            return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
+            return Rect2D(args[0] - abs(args[2]) * 0.5, args[1] - abs(args[3]) * 0.5,
+                          args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5,
+            return Rect2D(args[0].x() - abs(args[1]) * 0.5, args[0].y() - abs(args[2]) * 0.5,
                           args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
-- 
2.43.0

