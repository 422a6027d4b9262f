From 473957aea26d9fa1c112bb920b610183b6f9a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 01/34] fix: partition_by_length uses np.int, which numpy no
 longer has

Subdividing any segment raised AttributeError.
---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From bb4dc99cb012de1d4c18773bf83fc6780641b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 02/34] fix: convexify uses np.mat, which numpy 2 no longer has

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From 541585f38300fb32b61f4a38eed118b06a11d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 03/34] fix: block_sparse_cg_solve passes cg a keyword scipy
 removed

scipy.sparse.linalg.cg no longer accepts tol. 1e-5 is the default relative
tolerance in every version, so drop the argument.
---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..06f72fb 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon)[0]
-- 
2.43.0


From 3fdaf19f815859d7b9a759649b5be3122b59fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 04/34] fix: bool(Value(0)) is True on Python 3

Only the Python 2 hook was defined.
---
 blmath/value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..e3ef703 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -145,6 +145,7 @@ class Value(object):
 
     def __nonzero__(self):
         return bool(self.value)
+    __bool__ = __nonzero__
 
     def _comparable(self, other):
         '''Make other into something that is sensible to compare to self'''
-- 
2.43.0


From b6e39183efe5e9d675c2f5461a012566334ce517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 05/34] fix: Value.round raises TypeError on Python 3

round_to calls round() without a number of places.
---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index e3ef703..1071e83 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -54,7 +54,7 @@ class Value(object):
         return self.value
     def __int__(self):
         return int(self.value)
-    def __round__(self, places):
+    def __round__(self, places=None):
         return Value(round(self.value, places), self.units)
 
     def __getattr__(self, name):
-- 
2.43.0


From b13cad5216705517d88db8e25858fd75d799bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 06/34] fix: Value.prettified converts the Value, not its
 number

It came out as Values which paired the converted number with the original
units.
---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 1071e83..96bcf36 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -171,7 +171,7 @@ class Value(object):
     @cached_property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From e5515706685a7e10ace4698e4ed2a47ae66bca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 07/34] fix: Value.prettified goes stale when value or units is
 set

Both are settable, so the result can't be cached for the life of the
object.
---
 blmath/value.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 96bcf36..716ff8d 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -1,5 +1,3 @@
-from cached_property import cached_property
-
 class Value(object):
     '''
     Simple value class to encapsulate (value, units) and various conversions
@@ -168,7 +166,7 @@ class Value(object):
     def __ge__(self, other):
         return self.value >= float(self._comparable(other))
 
-    @cached_property
+    @property
     def prettified(self):
         from blmath import units as unit_conversions
         return unit_conversions.prettify(self.value, self.units)
-- 
2.43.0


From fe5d0a360c4cd3e25e05518fbb65da7ad2831ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 08/34] fix: setting Value.units skips the check for unknown
 units

Only the constructor made it.
---
 blmath/value.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/value.py b/blmath/value.py
index 716ff8d..b64592a 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -8,9 +8,6 @@ class Value(object):
           ratio.
         '''
         self.value = value
-        from blmath import units as unit_conversions
-        if units is not None and units not in unit_conversions.all_units:
-            raise ValueError("Unknown unit type %s" % units)
         self.units = units
 
     @property
@@ -18,6 +15,9 @@ class Value(object):
         return self._units
     @units.setter
     def units(self, val):
+        from blmath import units as unit_conversions
+        if val is not None and val not in unit_conversions.all_units:
+            raise ValueError("Unknown unit type %s" % val)
         self._units = val  # pylint: disable=attribute-defined-outside-init
 
     @property
-- 
2.43.0


From 0a5068b2cbcf2943898883a71a1859da2d15a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 09/34] fix: units.factor ignores units_class when the units
 are equal

factor('kg', 'kg', units_class='length') returned 1.0.
---
 blmath/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..d045a79 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,12 +141,12 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
+        if units_class and self._units[from_units][0] != units_class:
+            raise ValueError("Units class must be %s, but got %s" % (units_class, self._units[from_units][0]))
         if from_units == to_units:
             return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
-        if units_class and self._units[from_units][0] != units_class:
-            raise ValueError("Units class must be %s, but got %s" % (units_class, self._units[from_units][0]))
         return self._units[from_units][1] / self._units[to_units][1]
 
     def convert(self, value, from_units, to_units, units_class=None): # FIXME pylint: disable=redefined-outer-name
-- 
2.43.0


From 524b75b29237b927c58d3d31280be07ecb45a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 10/34] fix: an unknown tag raises AttributeError, not the
 documented KeyError

Exceptions have no message attribute on Python 3.
---
 blmath/geometry/transform/coordinate_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/coordinate_manager.py b/blmath/geometry/transform/coordinate_manager.py
index f3f1d36..966d517 100644
--- a/blmath/geometry/transform/coordinate_manager.py
+++ b/blmath/geometry/transform/coordinate_manager.py
@@ -75,7 +75,7 @@ class CoordinateManager(object):
             from_index = self.tags_to_indices[from_tag]
             to_index = self.tags_to_indices[to_tag]
         except KeyError as e:
-            raise KeyError("No such tag: %s" % e.message)
+            raise KeyError("No such tag: %s" % e.args)
 
         if from_index == to_index:
             result_points = points
-- 
2.43.0


From b73865efe2828a54c7744172c2d71c609e3725f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 11/34] fix: bsxfun passes b to np.tile instead of the operator

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From d40894e0835cdc4af5e9b655982bab224c20974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 12/34] fix: rotate_to_xz_plane rejects an explicit normal

The truth value of an array is ambiguous.
---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..d785019 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,7 +34,7 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-- 
2.43.0


From bae388b1122117cfda7b1a7163c02853fb40ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 13/34] fix: line_intersect3 misses the shared point when q0 ==
 q1

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..4f88768 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -138,7 +138,7 @@ def line_intersect3(p0, q0, p1, q1):
     # g would be zero length and we can't continue
     if np.all(p0 == p1) or np.all(p0 == q1):
         return p0
-    if np.all(q0 == p1) or np.all(p0 == q1):
+    if np.all(q0 == p1) or np.all(q0 == q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
-- 
2.43.0


From 654e0c9f8db1e70b63c88629fadfecc1ba312aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 14/34] fix: line_intersect3 picks the direction by exact float
 equality

For most inputs the two unit vectors differ in the last bit, and the result
is on the wrong side of p0.
---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 4f88768..89a0fbf 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -149,5 +149,5 @@ def line_intersect3(p0, q0, p1, q1):
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From 95aaa56462eedf01a370dcd5b8fb75827a9ccfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 15/34] fix: bad matrix shapes raise TypeError from formatting
 the message

---
 blmath/geometry/transform/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7f8f6f8 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -15,7 +15,7 @@ def convert_33_to_44(matrix):
 
     '''
     if matrix.shape != (3, 3):
-        raise ValueError("Expected 3x3 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 3x3 matrix, got: %s" % (matrix.shape,))
     result = np.pad(matrix, ((0, 1), (0, 1)), mode='constant')
     result[3][3] = 1
     return result
@@ -34,7 +34,7 @@ def convert_44_to_33(matrix):
 
     '''
     if matrix.shape != (4, 4):
-        raise ValueError("Expected 4x4 matrix, got: %s" % matrix.shape)
+        raise ValueError("Expected 4x4 matrix, got: %s" % (matrix.shape,))
     return matrix[:3, :3]
 
 
-- 
2.43.0


From 40df5ec06e8bd2beb323a77be8c793ca61baf560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 16/34] fix: CompositeTransform.convert_units doesn't return
 the index

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 7f8f6f8..6cfc81c 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -191,7 +191,7 @@ class CompositeTransform(object):
             to_units=to_units,
             units_class='length'
         )
-        self.scale(factor)
+        return self.scale(factor)
 
     def translate(self, vector):
         '''
-- 
2.43.0


From 5adabd789f92f6b9c8c44cd6d01a835c972da72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 17/34] fix: matrix_for returns the stored matrix when one
 transform is selected

Writing to the result changed the transform.
---
 blmath/geometry/transform/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 6cfc81c..20c85fe 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -117,7 +117,8 @@ class CompositeTransform(object):
         if not len(matrices): # pylint: disable=len-as-condition
             return np.eye(4)
 
-        matrix = six.moves.reduce(np.dot, matrices)
+        # Copy, so a single matrix isn't returned by reference.
+        matrix = six.moves.reduce(np.dot, matrices).copy()
         return matrix if reverse else matrix.T
 
     def append_transform4(self, forward, reverse=None):
-- 
2.43.0


From 3cff48ead0aa386d4d728c0f27247977e9b2aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 18/34] fix: mesh_xsections closes the component nearest the
 neighborhood

An open component came back as a closed polyline.
---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From bd70086cc5488c6bd26300ef1e66b9c161db9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 19/34] fix: a closed Polyline with no vertices raises
 IndexError

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..5160959 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From 212b13d3a9b569700766223fecc2fb4cd5fb39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 20/34] fix: conjGradSolve's default and explicit x0 both raise

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..97e2831 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,7 +150,7 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
         s = r.copy()
-- 
2.43.0


From f0c9354d8597c4630770a683c1b08d48d013e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 21/34] fix: StaticBlockSparseMatrix.linOp passes the shape
 twice

Reading it raised TypeError.
---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 97e2831..6f5763f 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(shape=self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From 415233d55e2b0593b123bd85b05d94045c7cfe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 22/34] fix: convexify ignores want_vertices for polylines of
 at most one vertex

---
 blmath/geometry/convexify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 3ce77f5..49cee81 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -23,7 +23,7 @@ def convexify_planar_curve(polyline, flatten=False, want_vertices=False, normal=
 
     v = polyline.v
     if len(v) <= 1:
-        return polyline
+        return (polyline, np.arange(len(v))) if want_vertices else polyline
 
     if normal is None:
         normal = estimate_normal(v)
@@ -58,7 +58,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
             Boolean; do you want the indices to the convex hull vertices?
     '''
     if len(polyline.v) <= 1:
-        return polyline
+        return (polyline, np.arange(len(polyline.v))) if want_vertices else polyline
 
     rotated, R, p0 = rotate_to_xz_plane(polyline.v, normal=normal)
 
-- 
2.43.0


From 7aee6b77792ec5f8eab32cd1f478c4fadeb7dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 23/34] fix: lchol reads past the end of data which is not
 float64

The native code takes data to be doubles whatever its dtype.
---
 blmath/numerics/linalg/lchol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..c68852b 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -8,6 +8,7 @@ def lchol(A):
     A64 = copy.copy(A)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
+    A64.data = A.data.astype(np.float64)
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-- 
2.43.0


From 82656f9fa6c1ecd21f0ddb1044f1585c53cbd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 24/34] fix: lchol_c leaks the cholmod workspace when its
 arguments are wrong

---
 blmath/numerics/linalg/cholmod.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..c8aad13 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -178,13 +178,13 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     Int nrow, ncol, minor;
     npy_intp dims_output[3];
 
-    cholmod_l_start(&Common);
-    sputil_config(&Common);
-
     Apython = NULL;
     if (!PyArg_ParseTuple(args, "O", &Apython))
         return NULL;
 
+    cholmod_l_start(&Common);
+    sputil_config(&Common);
+
     in_shape = PyObject_GetAttrString(Apython, "shape");
     nrow = PyInt_AsLong(PyTuple_GetItem(in_shape, 0));
     ncol = PyInt_AsLong(PyTuple_GetItem(in_shape, 1));
-- 
2.43.0


From b5c28814791ddc8b7eff09e51057e63b1a99e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 25/34] fix: lchol never reports a matrix which isn't positive
 definite

Converting the factor to a sparse matrix resets L->minor, so the failing
column has to be read before. L then has only the columns before it.
---
 blmath/numerics/linalg/cholmod.c | 3 ++-
 blmath/numerics/linalg/lchol.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index c8aad13..ff7e930 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
+    /* read this first: the conversion leaves L symbolic, and resets it */
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index c68852b..93cfc61 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -12,7 +12,8 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    # When A isn't positive definite, L has only the columns before the failure.
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1))
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 314639dda208646a35d5278a52f177595b5937af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 26/34] fix: lchol crashes on a matrix which isn't square

cholmod_l_analyze returns NULL.
---
 blmath/numerics/linalg/cholmod.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index ff7e930..e6a99f2 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -212,6 +212,17 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
     A.xtype = CHOLMOD_REAL;
 
     L = cholmod_l_analyze(&A, &Common);
+    if (L == NULL)
+    {
+        /* e.g. the matrix isn't square */
+        Py_DECREF(Jc);
+        Py_DECREF(Ir);
+        Py_DECREF(Adata);
+        Py_DECREF(nnz);
+        cholmod_l_finish(&Common);
+        PyErr_SetString(PyExc_ValueError, "Matrix can't be analyzed");
+        return NULL;
+    }
     cholmod_l_factorize(&A, L, &Common);
     /* read this first: the conversion leaves L symbolic, and resets it */
     minor = L->minor;
-- 
2.43.0


From afa1715c7fbfbbe65dd38d9462a0693e0972fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 27/34] fix: StaticBlockSparseMatrix.matvec raises for every
 matrix

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 6f5763f..94115a2 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 10adec315e535c301938deabf91f4a3fc5886334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 28/34] fix: inflection_points passes np.gradient spacings,
 which takes coordinates

---
 blmath/geometry/apex.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blmath/geometry/apex.py b/blmath/geometry/apex.py
index 0a90c84..02e14c5 100644
--- a/blmath/geometry/apex.py
+++ b/blmath/geometry/apex.py
@@ -24,12 +24,11 @@ def inflection_points(points, axis, span):
     '''
 
     coords_on_span = points.dot(span)
-    dx = np.gradient(coords_on_span)
     coords_on_axis = points.dot(axis)
 
     # Take the second order finite difference of the curve with respect to the
     # defined coordinate system
-    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, dx), dx)
+    finite_difference_2 = np.gradient(np.gradient(coords_on_axis, coords_on_span), coords_on_span)
 
     # Compare the product of all neighboring pairs of points in the second derivative
     # If a pair of points has a negative product, then the second derivative changes sign
-- 
2.43.0


From ed23738675b95e68f1c266e41f597af248962d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 29/34] fix: rodrigues gives NaN for half turns, a rounding
 error past the root's domain

---
 blmath/geometry/transform/rodrigues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rodrigues.py b/blmath/geometry/transform/rodrigues.py
index d7850fb..acd51af 100644
--- a/blmath/geometry/transform/rodrigues.py
+++ b/blmath/geometry/transform/rodrigues.py
@@ -75,7 +75,7 @@ def rodrigues(r, calculate_jacobian=False):
             if c > 0:
                 r_out = np.zeros((3, 1))
             else:
-                rx, ry, rz = np.clip(np.sqrt((np.diag(r) + 1) * 0.5), 0, np.inf)
+                rx, ry, rz = np.sqrt(np.clip((np.diag(r) + 1) * 0.5, 0, np.inf))
                 if r[0, 1] < 0:
                     ry = -ry
                 if r[0, 2] < 0:
-- 
2.43.0


From 7db18701fd623237d950650b8ca2e4d817621770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 30/34] fix: rotate_to_xz_plane gives NaN for a normal a
 rounding error longer than one

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index d785019..13e24c9 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -38,7 +38,7 @@ def rotate_to_xz_plane(points, normal=None):
         normal = estimate_normal(points)
 
     e_2 = np.array([0., 1., 0.])
-    theta = np.arccos(np.dot(e_2, normal))
+    theta = np.arccos(np.clip(np.dot(e_2, normal), -1, 1))
 
     if min(abs(theta - np.pi), abs(theta)) < 1e-5:
         # cross product will degenerate
-- 
2.43.0


From 72526cae6fae9ebeac6f453362ea34fe3fedb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 31/34] fix: line_intersect3 gives None when the first point of
 line 0 is on line 1

---
 blmath/geometry/segment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 89a0fbf..4c2e8b9 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -145,7 +145,7 @@ def line_intersect3(p0, q0, p1, q1):
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-- 
2.43.0


From 325509504922cb0d8cbd3208d9f3d29d1d39b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 32/34] fix: rotation_from_up_and_look misses colinear vectors
 which round apart

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 13e24c9..ef12a9c 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,7 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    if np.linalg.norm(z) <= 1e-12 * np.linalg.norm(look):
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From b292ebf78a8fc65fd40596056fea74c024b61831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 33/34] fix: find_rigid_transform finds a reflection between
 coplanar points

---
 blmath/geometry/transform/rigid_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..98d854b 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,7 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        if np.any(s <= 1e-10 * np.max(s)): # This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From 9a7eebb58515f9f7bcc00d5880127bdb407a7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 34/34] fix: partition of repeated points is the point, not NaN

---
 blmath/geometry/segment.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 4c2e8b9..9619257 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -20,19 +20,13 @@ def partition(v, partition_size=5):
 
     diffs = v[dst] - v[src]
 
-    sqdis = np.square(diffs)
-    dists = np.sqrt(np.sum(sqdis, axis=1))
-
-    unitds = diffs / dists[:, np.newaxis]
-    widths = dists / partition_size
-
-    domain = widths[:, np.newaxis] * np.arange(0, partition_size)
-    domain = domain.flatten()[:, np.newaxis]
+    domain = np.tile(np.arange(0, partition_size) / float(partition_size), len(diffs))
+    domain = domain[:, np.newaxis]
 
     points = np.repeat(v[:-1], partition_size, axis=0)
-    unitds = np.repeat(unitds, partition_size, axis=0)
+    diffs = np.repeat(diffs, partition_size, axis=0)
 
-    filled = points + (unitds * domain)
+    filled = points + (diffs * domain)
 
     return np.vstack((filled, v[-1]))
 
@@ -87,14 +81,9 @@ def partition_segment_old(p1, p2, partition_size=5):
     elif partition_size < 2:
         raise ValueError('partition_size should be bigger than 1.')
 
-    dist = np.linalg.norm(p1 - p2)
-
-    unit_direction = (p2 - p1) / dist
-    partition_width = dist / partition_size
-
-    domain = partition_width * np.arange(1, partition_size)
+    domain = np.arange(1, partition_size) / float(partition_size)
 
-    return p1 + unit_direction * domain[:, np.newaxis]
+    return p1 + (p2 - p1) * domain[:, np.newaxis]
 
 def line_intersect(p0, q0, p1, q1):
     '''
-- 
2.43.0

