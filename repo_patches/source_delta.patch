From 3930b784e04362a824e3ed5c918d74e4902b260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 01/60] fix: invert the map to a triangle embedded in three
 dimensions correctly

---
 symfem/references.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..5ae65c0 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1186,9 +1186,14 @@ class Triangle(Reference):
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
             return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        p = _vsub(tuple(x), self.vertices[0])
+        v1 = _vsub(self.vertices[1], self.vertices[0])
+        v2 = _vsub(self.vertices[2], self.vertices[0])
+        v3 = _vcross(v1, v2)
+        mat = sympy.Matrix(
+            [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
+        ).inv()
+        return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
-- 
2.43.0


From c3232218b2a31d5c0bdc39c3ffdf838a07787962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 02/60] fix: use the dimension of the target quadrilateral when
 inverting the map to it

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 5ae65c0..449c3cb 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1555,9 +1555,9 @@ class Quadrilateral(Reference):
         v1 = _vsub(vertices[1], vertices[0])
         v2 = _vsub(vertices[2], vertices[0])
 
-        if len(self.vertices[0]) == 2:
+        if len(vertices[0]) == 2:
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        elif len(self.vertices[0]) == 3:
+        elif len(vertices[0]) == 3:
             v3 = _vcross(v1, v2)
             mat = sympy.Matrix(
                 [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
-- 
2.43.0


From f29c0f3da50607c04ba3e0228e069a82610efffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 03/60] fix: make the map to a pyramid agree with its inverse

---
 symfem/references.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 449c3cb..6610863 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2219,9 +2219,11 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2255,9 +2257,11 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + x[0] * (v1 - v0)
+            + x[1] * (v2 - v0)
+            + x[2] * (v4 - v0)
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 6cf828a0682a1de83e377285436c119886b7c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 04/60] fix: keep the points of a non-default tetrahedron on
 the right side of its last face

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 6610863..0dfd533 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1413,7 +1413,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From ca4546f820ef6b29171800f7571f6fe07459dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 05/60] fix: do not report points beyond the ends of an edge as
 on the edge

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 0dfd533..40d6989 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -627,7 +627,7 @@ class Reference(ABC):
             v0 = VectorFunction(self.vertices[e[0]])
             v1 = VectorFunction(self.vertices[e[1]])
             crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            if crossed == 0 and (v0 - point).dot(v1 - point).as_sympy() <= 0:
                 return True
         return False
 
-- 
2.43.0


From a9c9f90e568a445c8549fb5fd809e2f843236d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 06/60] fix: report a point as on a face exactly when it lies
 on one

---
 symfem/references.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 40d6989..05aa82f 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -644,11 +644,14 @@ class Reference(ABC):
 
         point = VectorFunction(point_in)
         for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
+            vs = [VectorFunction(self.vertices[i]) for i in f]
+            normal = (vs[1] - vs[0]).cross(vs[2] - vs[0])
+            if len(f) == 4:
+                vs = [vs[0], vs[1], vs[3], vs[2]]
+            if (vs[0] - point).dot(normal) == 0 and all(
+                (a - point).cross(b - point).dot(normal).as_sympy() >= 0
+                for a, b in zip(vs, vs[1:] + vs[:1])
+            ):
                 return True
         return False
 
-- 
2.43.0


From 86e99805d2b66c5edd2455d8fffa62731efa2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 07/60] fix: find the points inside a quadrilateral whose
 vertices run clockwise

---
 symfem/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index 8ad84ba..f78215e 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -188,7 +188,9 @@ def point_in_quadrilateral(point: PointType, quad: SetOfPoints) -> bool:
     if isinstance(d3, sympy.Float) and _is_close(d3, 0):
         d3 = sympy.Integer(0)
 
-    return d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0
+    return (d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0) or (
+        d0 <= 0 and d1 <= 0 and d2 <= 0 and d3 <= 0
+    )
 
 
 def point_in_tetrahedron(point: PointType, tetrahedron: SetOfPoints) -> bool:
-- 
2.43.0


From 8564764b8d9a1e568429298eca14c75525d7ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 08/60] fix: keep every component in covariant maps into a
 higher-dimensional space

---
 symfem/mappings.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/symfem/mappings.py b/symfem/mappings.py
index 3be9c39..c75944e 100644
--- a/symfem/mappings.py
+++ b/symfem/mappings.py
@@ -102,14 +102,13 @@ def covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     return j_inv @ f
 
 
@@ -156,13 +155,12 @@ def double_covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
     assert f.is_matrix
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     return j_inv @ f @ j_inv.transpose()
 
 
@@ -288,14 +286,13 @@ def contravariant_inverse_transpose(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     j_inv /= j_inv.det()
     return j_inv @ f
 
-- 
2.43.0


From c8230b8f5b6aabcf5f5011b8080fffe48334855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 09/60] fix: multiply a vector by a non-square matrix correctly

---
 symfem/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..9494d52 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1062,8 +1062,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
-- 
2.43.0


From 92dd6a761e7e741f0bf7cd8816053e8e2e458c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 10/60] fix: take the dot product of non-square matrices over
 all their entries

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 9494d52..4568e86 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1693,7 +1693,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From bbdbef08f14fbb3c9da84e5946f4624bac3cda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 11/60] fix: let a vector function be iterated through more
 than once at a time

---
 symfem/functions.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 4568e86..6c96f3e 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1266,18 +1266,9 @@ class VectorFunction(AnyFunction):
         """
         raise NotImplementedError()
 
-    def __iter__(self):
-        """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+    def __iter__(self) -> typing.Iterator[AnyFunction]:
+        """Get an iterator through the components."""
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From 090a1f4ff4f4bb44d5e9814c4e153b12c9f6e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 12/60] fix: refuse to add lists of the wrong length to vector
 and matrix functions

---
 symfem/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index 6c96f3e..888dc45 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -997,6 +997,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f + j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1006,6 +1007,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i + j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1015,6 +1017,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f - j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1024,6 +1027,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1424,6 +1428,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1451,6 +1456,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
@@ -1478,6 +1484,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1505,6 +1512,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
-- 
2.43.0


From fc7b7d6a580ebb346202a24410b71f5dd33ed640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 13/60] fix: return a function from the integral over a point,
 in any dimension

---
 symfem/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 888dc45..b44dc4c 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -805,11 +805,11 @@ class ScalarFunction(AnyFunction):
         for v, p in zip(vars, point):
             out = out.subs(v, p)
 
-        if len(limits[0]) == 2:
+        if len(limits) == 0 or len(limits[0]) == 2:
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
-- 
2.43.0


From d306bdbab8e1977c2a62ff4bd50ca5f3c4c0113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 14/60] fix: report the total degree of a polynomial on
 simplices and prisms

---
 symfem/functions.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index b44dc4c..6608955 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -913,20 +913,13 @@ class ScalarFunction(AnyFunction):
         """
         if cell.name == "pyramid":
             raise NotImplementedError()
-        degrees = []
-        for v in x:
-            f = 1 * self._f
-            d = 0
-            while f != 0:
-                d += 1
-                f = f.diff(v)
-            degrees.append(d - 1)
+        degrees = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(d) for d in degrees)
         elif cell.name in ["quadrilateral", "hexahedron"]:
-            return max(degrees)
+            return max(max(d) for d in degrees)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(d[0] + d[1], d[2]) for d in degrees)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0


From 1cb525ecc0c331f98ef94c5377626f464ee8d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 15/60] fix: return the norm of a basis function

---
 symfem/basis_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..3ef5eeb 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
-- 
2.43.0


From 937ee6b7750ab6cf58d270adc1ca7fb4cf023bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 16/60] fix: take dot and cross products of piecewise functions
 piece by piece

---
 symfem/piecewise_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..a8f00a2 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -389,6 +389,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.dot(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.dot(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
@@ -402,6 +408,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The cross product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.cross(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.cross(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
-- 
2.43.0


From af9d8330562b724574b0866e5b6d330baeabc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 17/60] fix: refuse to combine piecewise functions with
 different numbers of pieces

---
 symfem/piecewise_functions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index a8f00a2..0c80d3c 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -172,6 +172,8 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
+        if len(self._pieces) != len(other._pieces):
+            return False
         for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
             assert shape0 == shape1
             if f0 != f1:
@@ -190,6 +192,7 @@ class PiecewiseFunction(AnyFunction):
     def __add__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -200,6 +203,7 @@ class PiecewiseFunction(AnyFunction):
     def __radd__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -210,6 +214,7 @@ class PiecewiseFunction(AnyFunction):
     def __sub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -220,6 +225,7 @@ class PiecewiseFunction(AnyFunction):
     def __rsub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -230,6 +236,7 @@ class PiecewiseFunction(AnyFunction):
     def __truediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -240,6 +247,7 @@ class PiecewiseFunction(AnyFunction):
     def __rtruediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -250,6 +258,7 @@ class PiecewiseFunction(AnyFunction):
     def __mul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -260,6 +269,7 @@ class PiecewiseFunction(AnyFunction):
     def __rmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -270,6 +280,7 @@ class PiecewiseFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -280,6 +291,7 @@ class PiecewiseFunction(AnyFunction):
     def __rmatmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -290,6 +302,7 @@ class PiecewiseFunction(AnyFunction):
     def __pow__(self, other: typing.Any) -> PiecewiseFunction:
         """Raise to a power."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -390,6 +403,7 @@ class PiecewiseFunction(AnyFunction):
             The product
         """
         if isinstance(other_in, PiecewiseFunction):
+            assert len(self._pieces) == len(other_in._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
                 assert shape0 == shape1
@@ -409,6 +423,7 @@ class PiecewiseFunction(AnyFunction):
             The cross product
         """
         if isinstance(other_in, PiecewiseFunction):
+            assert len(self._pieces) == len(other_in._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
                 assert shape0 == shape1
-- 
2.43.0


From 6fe1b3b5fa38d43a64f9b14a0f7e013ab68cd83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 18/60] fix: fill the whole of an interval with its lattice

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 05aa82f..0765332 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -938,7 +938,7 @@ class Interval(Reference):
             tuple(
                 a + (b - a) * sympy.Rational(2 * i + 1, 2 * (n + 1)) for a, b in zip(*self.vertices)
             )
-            for i in range(n)
+            for i in range(n + 1)
         )
 
     def make_lattice_with_lines(self, n: int) -> LatticeWithLines:
-- 
2.43.0


From 3997af88e02bcc2343ae58d123966d799b02c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 19/60] fix: keep the lattice of a prism off its boundary

---
 symfem/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 0765332..d89354a 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1976,8 +1976,8 @@ class Prism(Reference):
                 sympy.Rational(2 * j + 1, 2 * (n + 1)),
                 sympy.Rational(2 * k + 1, 2 * (n + 1)),
             )
-            for i in range(n + 1)
-            for j in range(n + 1 - i)
+            for i in range(n)
+            for j in range(n - i)
             for k in range(n + 1)
         )
 
-- 
2.43.0


From 0bea9ab8eab452956f690f080d1a17a7ff8e3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 20/60] fix: use curls and gradients in the serendipity H(div)
 and H(curl) spaces on a quadrilateral

---
 symfem/polynomials/polysets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..72b52b7 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                ((order + 1) * variables[0] * variables[1] ** order, -(variables[1] ** (order + 1)))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From 5315cae58f9af92b1fa131de5c0646747d833ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 21/60] fix: use the given variables in the H(curl) serendipity
 set

---
 symfem/polynomials/polysets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 72b52b7..2a71d9a 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -446,7 +446,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0


From b5cedad466e0b892d6578785a89d2b65618abc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 22/60] fix: take curls with respect to the given variables in
 the H(div) serendipity set

---
 symfem/polynomials/polysets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 2a71d9a..25f5122 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,7 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        return [i.subs(variables, x).curl().subs(x, variables) for i in a]
 
     raise NotImplementedError()
 
-- 
2.43.0


From 9225b7037d52cd3f5c89036cbb13cc7c116a416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 23/60] fix: evaluate a piecewise function on one piece only
 when its own variables are given values

---
 symfem/piecewise_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 0c80d3c..ddcf8d0 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -327,7 +327,12 @@ class PiecewiseFunction(AnyFunction):
         if isinstance(values, AnyFunction):
             values = values.as_sympy()
 
-        if isinstance(values, (tuple, list)) and len(values) == self.tdim:
+        if (
+            isinstance(vars, (tuple, list))
+            and isinstance(values, (tuple, list))
+            and len(values) == self.tdim
+            and tuple(vars[: self.tdim]) in [tuple(x[: self.tdim]), tuple(t[: self.tdim])]
+        ):
             for i in values:
                 i_s = _to_sympy_format(i)
                 assert isinstance(i_s, sympy.core.expr.Expr)
-- 
2.43.0


From bcc8d528cbc6f132c2c1ab7f95eb27a316d58366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 24/60] fix: compare basis functions that are piecewise piece
 by piece

---
 symfem/functions.py           | 5 +++++
 symfem/piecewise_functions.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 6608955..aa63368 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -106,6 +106,11 @@ def _check_equal(first: SympyFormat, second: SympyFormat) -> bool:
                     return False
         return True
 
+    if isinstance(first, dict) and isinstance(second, dict):
+        if first.keys() != second.keys():
+            return False
+        return all(_check_equal(f, second[shape]) for shape, f in first.items())
+
     return False
 
 
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index ddcf8d0..fc981cd 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -168,7 +168,7 @@ class PiecewiseFunction(AnyFunction):
     def __eq__(self, other: typing.Any) -> bool:
         """Check if two functions are equal."""
         if not isinstance(other, PiecewiseFunction):
-            return False
+            return isinstance(other, AnyFunction) and super().__eq__(other)
 
         if self.tdim != other.tdim:
             return False
-- 
2.43.0


From 5d14e8f35962a60b3769cbae531a65c904ca8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 25/60] fix: integrate a piecewise function once over a facet
 that two pieces share

---
 symfem/piecewise_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index fc981cd..158c3e3 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -489,10 +489,13 @@ class PiecewiseFunction(AnyFunction):
             The integral
         """
         result = ScalarFunction(0)
+        sub_domains: typing.List[Reference] = []
         for shape, f in self._pieces.items():
             ref = _piece_reference(self.tdim, shape)
             sub_domain = ref.intersection(domain)
-            if sub_domain is not None:
+            # A facet that is shared by two pieces is included once
+            if sub_domain is not None and sub_domain not in sub_domains:
+                sub_domains.append(sub_domain)
                 result += f.integral(sub_domain, vars, dummy_vars)
         return result
 
-- 
2.43.0


From 45ea8dd2b134a913c9d7870a0319d5401d77edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 26/60] fix: integrate a moment of a piecewise function over
 each piece's own part of the domain

---
 symfem/functionals.py | 84 ++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..1b60a92 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -6,6 +6,7 @@ from abc import ABC, abstractmethod
 import sympy
 
 from symfem import mappings
+from symfem.basis_functions import BasisFunction
 from symfem.functions import (
     AnyFunction,
     FunctionInput,
@@ -81,6 +82,38 @@ def _nth(n: int) -> str:
     return f"{n}th"
 
 
+def _integral_on(
+    domain: Reference,
+    function: AnyFunction,
+    dot: typing.Callable[[AnyFunction], AnyFunction],
+) -> AnyFunction:
+    """Compute the integral of a function after it is combined with a moment function.
+
+    Args:
+        domain: The integral domain
+        function: The function, in terms of x
+        dot: Function that combines its input with a moment function, that is given in terms of
+            the local variables t on the domain
+
+    Returns:
+        The integral
+    """
+    while isinstance(function, BasisFunction):
+        function = function.get_function()
+
+    if isinstance(function, PiecewiseFunction):
+        # The pieces may only contain part of the domain, so write the moment function in terms of x
+        integrand = dot(function).subs(t[: domain.tdim], domain.get_inverse_map_to_self())
+    else:
+        point = [i for i in domain.origin]
+        for i, a in enumerate(zip(*domain.axes)):
+            for j, k in zip(a, t):
+                point[i] += j * k
+        integrand = dot(function.subs(x, point))
+
+    return integrand.integral(domain)
+
+
 class BaseFunctional(ABC):
     """A functional."""
 
@@ -996,13 +1029,7 @@ class IntegralAgainst(BaseFunctional):
         Returns:
             The value of the functional for the function
         """
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
-        v1 = function.subs(x, point)
-        integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integral_on(self.integral_domain, function, self.dot)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1080,13 +1107,7 @@ class IntegralOfDivergenceAgainst(BaseFunctional):
         Returns:
             The value of the functional for the function
         """
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
-        v1 = function.div().subs(x, point)
-        integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integral_on(self.integral_domain, function.div(), self.dot)
 
     def dot(self, function: ScalarFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1166,12 +1187,9 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
         for dir, o in zip(self.directions, self.orders):
             for i in range(o):
                 function = function.grad(len(dir)).dot(VectorFunction(dir))
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
-        integrand = ScalarFunction(self.scale) * function.subs(x, point)
-        return integrand.integral(self.integral_domain)
+        return _integral_on(
+            self.integral_domain, function, lambda f: ScalarFunction(self.scale) * f
+        )
 
     def perform_mapping(
         self, fs: typing.List[AnyFunction], map: PointType, inverse_map: PointType
@@ -1286,14 +1304,7 @@ class IntegralMoment(BaseFunctional):
         Returns:
             The value of the functional for the function
         """
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
-
-        v1 = function.subs(x, point)
-        integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integral_on(self.integral_domain, function, self.dot)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1442,13 +1453,9 @@ class DerivativeIntegralMoment(IntegralMoment):
         Returns:
             The value of the functional for the function
         """
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
-        integrand = self.dot(function.grad(self.integral_domain.gdim).subs(x, point))
-        value = integrand.integral(self.integral_domain)
-        return value
+        return _integral_on(
+            self.integral_domain, function.grad(self.integral_domain.gdim), self.dot
+        )
 
     name = "Derivative integral moment"
 
@@ -1486,13 +1493,8 @@ class DivergenceIntegralMoment(IntegralMoment):
         Returns:
             The value of the functional for the function
         """
-        point = [i for i in self.integral_domain.origin]
-        for i, a in enumerate(zip(*self.integral_domain.axes)):
-            for j, k in zip(a, t):
-                point[i] += j * k
         assert function.is_vector
-        integrand = self.dot(function.div().subs(x, point))
-        return integrand.integral(self.integral_domain)
+        return _integral_on(self.integral_domain, function.div(), self.dot)
 
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
-- 
2.43.0


From c42b05b7e5a697bc5fc1e1d4f554a654097e8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 27/60] fix: find the direction of a moment at the point of its
 degree of freedom

---
 symfem/functionals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 1b60a92..78629df 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1338,8 +1338,10 @@ class IntegralMoment(BaseFunctional):
         p = self.dof.dof_direction()
         if p is None:
             if self.f.is_vector:
-                p = (self.f.subs(t, self.dof_point())).as_sympy()
+                p = (self.f.subs(t, self.dof.dof_point())).as_sympy()
                 assert isinstance(p, tuple)
+                if all(i == 0 for i in p):
+                    return None
                 return p
             return None
         vp = VectorFunction(p)
-- 
2.43.0


From 36dbcefe04b614f371ef23b51d9a0d07c3f6bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 28/60] fix: multiply a matrix-valued basis function by a
 vector

---
 symfem/basis_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 3ef5eeb..914dac7 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -154,7 +154,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ other
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -165,7 +165,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__rmatmul__(other)
+        return other @ self.get_function()
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
-- 
2.43.0


From 3d67663d05ad10d7e4409d522d504956fc12914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 29/60] fix: evaluate the divergence of a basis function at a
 point

---
 symfem/functionals.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 78629df..2d767dd 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -918,15 +918,7 @@ class PointDivergenceEvaluation(BaseFunctional):
         Returns:
             The value of the functional for the function
         """
-        out = ScalarFunction(0)
-        if isinstance(function, PiecewiseFunction):
-            pt = self.point.as_sympy()
-            assert isinstance(pt, tuple)
-            function = function.get_piece(pt)
-        assert isinstance(function, VectorFunction)
-        for f, i in zip(function, x):
-            out += f.diff(i)
-        return out.subs(x, self.point)
+        return function.div().subs(x, self.point)
 
     def dof_point(self) -> PointType:
         """Get the location of the DOF in the cell.
-- 
2.43.0


From 022f5c2dfdaba5415e460831f340c9d49ab24eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 30/60] fix: declare the two components of the Alfeld-Sorokina
 element

---
 symfem/elements/alfeld_sorokina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 2c19329..7c21d6b 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -123,7 +123,7 @@ class AlfeldSorokina(CiarletElement):
         poly: typing.List[FunctionInput] = []
         poly += [PiecewiseFunction({i: j for i, j in zip(subs, p)}, 2) for p in piece_list]
 
-        super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        super().__init__(reference, order, poly, dofs, reference.tdim, 2)
 
     @property
     def lagrange_subdegree(self) -> int:
-- 
2.43.0


From 59c8da51e59f68c28afa0977787a96b20ed8bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 31/60] fix: factorise the variant of Q that was asked for, on
 the default cell only

---
 symfem/elements/q.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..7ba56b0 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -101,13 +101,15 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if self.variant == "lobatto" or self.reference != self.reference.default_reference():
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
-        if self.order == 0:
+        if self.variant == "legendre":
+            perm = list(range((self.order + 1) ** self.reference.tdim))
+        elif self.order == 0:
             perm = [0]
         elif self.reference.name == "quadrilateral":
             n = self.order - 1
-- 
2.43.0


From 96a18e0948599ae353b1c539c9312af52b758572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 32/60] fix: save every digit of a matrix in the cache

---
 symfem/caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..1a2a263 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -10,7 +10,7 @@ from appdirs import user_cache_dir
 if not os.path.isdir(user_cache_dir()):
     os.mkdir(user_cache_dir())
 CACHE_DIR = user_cache_dir("symfem")
-CACHE_FORMAT = "1"
+CACHE_FORMAT = "2"
 if os.path.isfile(CACHE_DIR):
     os.remove(CACHE_DIR)
 if not os.path.isdir(CACHE_DIR):
@@ -70,7 +70,7 @@ def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
     Returns:
         A representation of the matrix as a string
     """
-    return ";".join(",".join(f"{m[i,j]!r}" for j in range(m.cols)) for i in range(m.rows))
+    return sympy.srepr(m)
 
 
 def matrix_from_string(mstr: str) -> sympy.matrices.dense.MutableDenseMatrix:
@@ -82,4 +82,4 @@ def matrix_from_string(mstr: str) -> sympy.matrices.dense.MutableDenseMatrix:
     Returns:
         The matrix
     """
-    return sympy.Matrix([[sympy.S(j) for j in i.split(",")] for i in mstr.split(";")])
+    return sympy.Matrix(sympy.S(mstr))
-- 
2.43.0


From b9a3a1e62824f0a57db31fbf9b55180a07cd30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 33/60] fix: never load part of a matrix from the cache

---
 symfem/caching.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 1a2a263..3e4554f 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -1,20 +1,19 @@
 """Functions to cache matrices."""
 
 import os
+import tempfile
 import typing
 from hashlib import sha256
 
 import sympy
 from appdirs import user_cache_dir
 
-if not os.path.isdir(user_cache_dir()):
-    os.mkdir(user_cache_dir())
+os.makedirs(user_cache_dir(), exist_ok=True)
 CACHE_DIR = user_cache_dir("symfem")
 CACHE_FORMAT = "2"
 if os.path.isfile(CACHE_DIR):
     os.remove(CACHE_DIR)
-if not os.path.isdir(CACHE_DIR):
-    os.mkdir(CACHE_DIR)
+os.makedirs(CACHE_DIR, exist_ok=True)
 
 assert os.path.isdir(CACHE_DIR)
 
@@ -36,12 +35,16 @@ def load_cached_matrix(
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
     try:
-        with open(filename) as f:
-            mat = matrix_from_string(f.read())
+        with open(filename, encoding="utf-8") as f:
+            digest, _, data = f.read().partition("\n")
+        if digest != sha256(data.encode("utf-8")).hexdigest():
+            # The file was not completely written, or was damaged
+            return None
+        mat = matrix_from_string(data)
         if mat.rows != size[0] or mat.cols != size[1]:
             return None
         return mat
-    except FileNotFoundError:
+    except (OSError, UnicodeDecodeError):
         return None
 
 
@@ -57,8 +60,20 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
-        f.write(matrix_to_string(matrix))
+    data = matrix_to_string(matrix)
+    try:
+        # Write to a temporary file, so that other processes never see part of a matrix
+        handle, temp = tempfile.mkstemp(suffix=".tmp", dir=CACHE_DIR)
+        try:
+            with open(handle, "w", encoding="utf-8") as f:
+                f.write(sha256(data.encode("utf-8")).hexdigest() + "\n" + data)
+            os.replace(temp, filename)
+        except BaseException:
+            os.remove(temp)
+            raise
+    except OSError:
+        # A matrix that cannot be saved is computed again the next time
+        pass
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From 80a505c488c7a44ea3573697a838171d2ce30c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 34/60] fix: tell apart all elements whose matrices are cached

---
 symfem/finite_element.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..34bd6ee 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -685,9 +685,12 @@ class CiarletElement(FiniteElement):
         Returns:
             The dual matrix
         """
-        if caching and self.cache:
+        # The definition of an element that is not part of Symfem can change from run to run
+        builtin = self.__class__.__module__.startswith("symfem.")
+        if caching and self.cache and builtin:
             cid = (
-                f"{self.__class__.__name__} {self.order} {self.reference.vertices} "
+                f"{self.__class__.__module__}.{self.__class__.__qualname__} {self.order} "
+                f"{self.reference.name} {sympy.srepr(self.reference.vertices)} "
                 f"{self.init_kwargs()} {self.last_updated}"
             )
             matrix_type = "dualinv" if inverse else "dual"
-- 
2.43.0


From e37a574f65c98520b062510ff8b5329ccdfd6b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 35/60] fix: use the bubbles of the faces in the KMV element on
 a tetrahedron

---
 symfem/elements/kmv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..fcaf77f 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -51,12 +51,13 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    lambdas = [1 - x[0] - x[1] - x[2], x[0], x[1], x[2]]
+    for face in [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]:
+        f = [lambdas[i] for i in face]
+        b = f[0] * f[1] * f[2]
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(f[0] ** i * f[1] ** j * f[2] ** (mf - 3 - i - j) * b)
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
@@ -250,4 +251,4 @@ class KongMulderVeldhuizen(CiarletElement):
     min_order = 1
     continuity = "C0"
     value_type = "scalar"
-    last_updated = "2023.05"
+    last_updated = "2026.11"
-- 
2.43.0


From ed4421946e80b1e7f21feb956c46a1c69a665a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 36/60] fix: integrate the components of vector Lagrange
 functions on any cell

---
 symfem/elements/lagrange.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..6ec1873 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -13,6 +13,7 @@ from symfem.functionals import (
     PointEvaluation,
 )
 from symfem.functions import FunctionInput
+from symfem.mappings import contravariant_inverse
 from symfem.polynomials import (
     lobatto_dual_basis,
     orthonormal_basis,
@@ -148,8 +149,16 @@ class VectorLagrange(CiarletElement):
                             DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
                         )
                     elif isinstance(p, IntegralAgainst):
+                        # IntegralAgainst divides by the Jacobian and maps the direction to the cell
+                        direction = contravariant_inverse(
+                            d, reference.get_map_to_self(), reference.get_inverse_map_to_self()
+                        )
                         dofs.append(
-                            IntegralAgainst(reference, tuple(p.f * i for i in d), entity=p.entity)
+                            IntegralAgainst(
+                                reference,
+                                direction * (p.f * reference.jacobian()),
+                                entity=p.entity,
+                            )
                         )
 
             poly += polynomial_set_vector(reference.tdim, reference.tdim, order)
@@ -186,7 +195,7 @@ class VectorLagrange(CiarletElement):
     min_order = 0
     continuity = "C0"
     value_type = "vector"
-    last_updated = "2023.09"
+    last_updated = "2026.11"
 
 
 class MatrixLagrange(CiarletElement):
-- 
2.43.0


From 9b332ad5ff1183158d7656716595bb8e3281adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 37/60] fix: give the bubble enriched vector Lagrange element
 the moments of its legendre variant

---
 symfem/elements/bubble.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index 28cf61c..a4686df 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -13,7 +13,7 @@ from symfem.finite_element import CiarletElement
 from symfem.functionals import DotPointEvaluation, ListOfFunctionals, PointEvaluation
 from symfem.functions import FunctionInput
 from symfem.references import Reference
-from symfem.elements.lagrange import Lagrange
+from symfem.elements.lagrange import Lagrange, VectorLagrange
 
 __all__ = ["Bubble", "BubbleEnrichedLagrange", "BubbleEnrichedVectorLagrange"]
 
@@ -184,18 +184,18 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
             order: The polynomial order
             variant: The variant of the element
         """
-        lagrange = Lagrange(reference, order, variant)
+        lagrange = VectorLagrange(reference, order, variant)
         bubble = Bubble(reference, order + 2, variant)
 
         poly: typing.List[FunctionInput] = []
-        for e in [lagrange, bubble]:
-            for p in e._basis:
-                poly.append((p, 0))
-                poly.append((0, p))
+        poly += lagrange._basis
+        for p in bubble._basis:
+            poly.append((p, 0))
+            poly.append((0, p))
 
-        dofs: ListOfFunctionals = [
+        dofs: ListOfFunctionals = lagrange.dofs + [
             DotPointEvaluation(reference, d.dof_point(), v, entity=d.entity)
-            for d in lagrange.dofs + bubble.dofs
+            for d in bubble.dofs
             for v in [(1, 0), (0, 1)]
         ]
 
-- 
2.43.0


From 6ba994765810ecae58d700200a7dee1720375e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 38/60] fix: refuse the variants of matrix Lagrange elements
 that are not defined by points

---
 symfem/elements/lagrange.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index 6ec1873..2b61742 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -210,6 +210,8 @@ class MatrixLagrange(CiarletElement):
             variant: The variant of the element
         """
         scalar_space = Lagrange(reference, order, variant)
+        if any(not isinstance(p, PointEvaluation) for p in scalar_space.dofs):
+            raise NotImplementedError(f"Unsupported variant: {variant}")
         dofs: ListOfFunctionals = []
         if reference.tdim == 1:
             directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
@@ -282,6 +284,8 @@ class SymmetricMatrixLagrange(CiarletElement):
         poly: typing.List[FunctionInput] = []
         dofs: ListOfFunctionals = []
         scalar_space = Lagrange(reference, order, variant)
+        if any(not isinstance(p, PointEvaluation) for p in scalar_space.dofs):
+            raise NotImplementedError(f"Unsupported variant: {variant}")
         if reference.tdim == 1:
             poly += polynomial_set_1d(1, order)
             for p in scalar_space.dofs:
-- 
2.43.0


From 8070f52179047bf08715b1f6a4c4a11dbb385ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 39/60] fix: refuse Crouzeix-Raviart elements of even order

---
 symfem/elements/crouzeix_raviart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/crouzeix_raviart.py b/symfem/elements/crouzeix_raviart.py
index 1bc2a00..69d4a45 100644
--- a/symfem/elements/crouzeix_raviart.py
+++ b/symfem/elements/crouzeix_raviart.py
@@ -32,6 +32,8 @@ class CrouzeixRaviart(CiarletElement):
 
         if order > 1:
             assert reference.name == "triangle"
+        if order % 2 == 0:
+            raise NotImplementedError("Crouzeix-Raviart elements of even order are not unisolvent")
 
         points, _ = get_quadrature(variant, order + reference.tdim)
 
-- 
2.43.0


From 9523f9a8e1012ab20d39ea71e2d461941de2cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 40/60] fix: map each part of the basis of an enriched element
 with its own subelement

---
 symfem/finite_element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 34bd6ee..2c1a0be 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1221,8 +1221,12 @@ class EnrichedElement(FiniteElement):
             The basis functions mapped to the cell
         """
         out = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            end = start + e.space_dim
+            e_basis = None if basis is None else basis[start:end]
+            out += e.map_to_cell(vertices_in, e_basis, forward_map, inverse_map)
+            start = end
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From 245dad39abf9ca155768ae0603624c8635068dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 41/60] fix: include the interior DOFs of the Bernstein element
 on a tetrahedron

---
 symfem/elements/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index fbe9d57..283376a 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -222,7 +222,7 @@ class Bernstein(CiarletElement):
                             )
                         )
 
-            if reference.name == "tetrahedon":
+            if reference.name == "tetrahedron":
                 for i in range(1, order):
                     for j in range(1, order - i):
                         for k in range(1, order - i - j):
-- 
2.43.0


From 91b8915cce8aa2fa75f6fb3147720ff13571969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 42/60] fix: place the DOFs of direct elements inside their
 entities

---
 symfem/finite_element.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 2c1a0be..0d13895 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -948,20 +948,22 @@ class DirectElement(FiniteElement):
                 ne = 1
                 while ne * (ne + 1) // 2 < dof_count:
                     ne += 1
+                spaces = ne + 1 if sub_ref.name == "quadrilateral" else ne + 2
                 i = 0
                 while entity_n >= ne - i:
                     entity_n -= ne - i
                     i += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (i + 1) * b, ne + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (i + 1) * b, spaces)
                         for o, a, b in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
             elif dim == 3:
                 ne = 1
-                while ne * (ne + 1) * (ne + 2) // 6 < n:
+                while ne * (ne + 1) * (ne + 2) // 6 < dof_count:
                     ne += 1
+                spaces = ne + 1 if sub_ref.name == "hexahedron" else ne + 3
                 i = 0
                 while entity_n >= (ne - i) * (ne + 1 - i) // 2:
                     entity_n -= (ne - i) * (ne + 1 - i) // 2
@@ -972,7 +974,7 @@ class DirectElement(FiniteElement):
                     j += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, n + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, spaces)
                         for o, a, b, c in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
-- 
2.43.0


From c2b45998d67a7dd24b30b10b11bd96b5f2d95762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 43/60] fix: save a picture under all the given filenames

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..b86ad20 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1144,7 +1144,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From 06180ddd98a7fa6eae7fab8fe898c53b120c96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 44/60] fix: map the interior functions of ABF, BDDF, BDFM and
 BDM by the contravariant Piola map

The interior moments had the default mapping (identity), so the interior basis
functions mapped to a cell had non-zero normal components on its facets and the
mapped space was not H(div) conforming.
---
 symfem/elements/abf.py  |  2 +-
 symfem/elements/bddf.py |  2 +-
 symfem/elements/bdfm.py | 10 ++++++++--
 symfem/elements/bdm.py  |  8 +++++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..6319dbd 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,19 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
-- 
2.43.0


From 49875290b186336f26f1eda4ff67d4e34593d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:49 +0000
Subject: [PATCH 45/60] fix: map all the functions of the TNT and trimmed
 serendipity H(curl) and H(div) elements in the same way

The interior and face functions of the H(curl) elements were mapped by the
contravariant and those of the H(div) elements by the covariant Piola map, so the
mapped spaces were not conforming on cells that are not rectangular.
---
 symfem/elements/tnt.py                 | 21 +++++++++++----------
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..59e85f7 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -292,9 +292,7 @@ class TNTcurl(CiarletElement):
                         f *= x[2] ** (k - 1) * x[2] ** k
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
-                            IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
-                            )
+                            IntegralAgainst(reference, grad_f, entity=(3, 0), mapping="covariant")
                         )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -392,7 +390,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -405,7 +403,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -427,7 +425,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -445,7 +443,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, 2]:
@@ -464,7 +462,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..3540f5d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -190,7 +190,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -207,7 +207,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From 4d94b37dea9b55d40a75359afcd558b06db572e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:49 +0000
Subject: [PATCH 46/60] fix: map the interior functions of the nonconforming
 Arnold-Winther and Huang-Zhang elements like their other functions

---
 symfem/elements/aw.py          |  1 +
 symfem/elements/huang_zhang.py | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
diff --git a/symfem/elements/huang_zhang.py b/symfem/elements/huang_zhang.py
index 41fdede..54a5e59 100644
--- a/symfem/elements/huang_zhang.py
+++ b/symfem/elements/huang_zhang.py
@@ -63,8 +63,22 @@ class HuangZhang(CiarletElement):
 
         for i in range(order - 1):
             for j in range(order - 2):
-                dofs.append(IntegralAgainst(reference, (x[0] ** i * x[1] ** j, 0), (2, 0)))
-                dofs.append(IntegralAgainst(reference, (0, x[0] ** j * x[1] ** i), (2, 0)))
+                dofs.append(
+                    IntegralAgainst(
+                        reference,
+                        (x[0] ** i * x[1] ** j, 0),
+                        (2, 0),
+                        mapping="contravariant",
+                    )
+                )
+                dofs.append(
+                    IntegralAgainst(
+                        reference,
+                        (0, x[0] ** j * x[1] ** i),
+                        (2, 0),
+                        mapping="contravariant",
+                    )
+                )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
-- 
2.43.0


From d76ee653f8e2f8626328306c03b6fa370224aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 47/60] fix: correct the polynomial space of the BDFM element
 on a tetrahedron

From order 2, the space was not made of the functions whose normal components on
the facets have degree order - 1, so some basis functions had non-zero normal
components on facets that they do not belong to.
---
 symfem/elements/bdfm.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index 6319dbd..83ed8e3 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -54,18 +54,17 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
                 pset.append((0, x[1] ** i * x[0] ** j * x[2] ** k, 0))
                 pset.append((0, 0, x[2] ** i * x[0] ** j * x[1] ** k))
     elif reference.name == "tetrahedron":
+        for i in range(order):
+            for j in range(order - i):
+                p = x[0] ** i * x[1] ** j * x[2] ** (order - 1 - i - j)
+                pset.append((x[0] * p, x[1] * p, x[2] * p))
         for i in range(order - 1):
-            for j in range(order - i - 1):
+            for j in range(order - 1 - i):
                 p = x[0] ** i * x[1] ** j * x[2] ** (order - 2 - i - j)
-                pset.append((x[0] * (x[0] + x[1] + x[2]) * p, 0, 0))
-                pset.append((0, x[1] * (x[0] + x[1] + x[2]) * p, 0))
-                pset.append((0, 0, x[2] * (x[0] + x[1] + x[2]) * p))
-        for i in range(order):
-            p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((x[0] * p, x[1] * p, x[2] * p))
-        for i in range(1, order):
-            p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+                pset.append((x[0] * x[1] * p, -x[0] * x[1] * p, 0))
+                pset.append((x[0] * x[2] * p, 0, -x[0] * x[2] * p))
+                if i == 0:
+                    pset.append((0, x[1] * x[2] * p, -x[1] * x[2] * p))
 
     return pset
 
-- 
2.43.0


From 53e45865b1d7dc7430c7b93b041e2d13c6a89506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 48/60] fix: declare the nonconforming elements to be L2

The enriched Galerkin spaces contain piecewise constants; and Morley-Wang-Xu
on triangles and tetrahedra and Wu-Xu on tetrahedra are nonconforming.
---
 symfem/elements/enriched_galerkin.py        | 2 +-
 symfem/elements/morley_wang_xu.py           | 7 +++++--
 symfem/elements/vector_enriched_galerkin.py | 4 ++--
 symfem/elements/wu_xu.py                    | 7 +++++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/symfem/elements/enriched_galerkin.py b/symfem/elements/enriched_galerkin.py
index 51b30fa..2ff4c69 100644
--- a/symfem/elements/enriched_galerkin.py
+++ b/symfem/elements/enriched_galerkin.py
@@ -50,6 +50,6 @@ class EnrichedGalerkin(EnrichedElement):
     names = ["enriched Galerkin", "EG"]
     references = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.05"
diff --git a/symfem/elements/morley_wang_xu.py b/symfem/elements/morley_wang_xu.py
index 340a2b5..92d79de 100644
--- a/symfem/elements/morley_wang_xu.py
+++ b/symfem/elements/morley_wang_xu.py
@@ -118,11 +118,14 @@ class MorleyWangXu(CiarletElement):
     def polynomial_superdegree(self) -> typing.Optional[int]:
         return self.order
 
+    @property
+    def continuity(self) -> str:
+        # On triangles and tetrahedra, only the integrals used in the DOFs are continuous
+        return "C0" if self.reference.name == "interval" else "L2"
+
     names = ["Morley-Wang-Xu", "MWX"]
     references = ["interval", "triangle", "tetrahedron"]
     min_order = 1
     max_order = {"interval": 1, "triangle": 2, "tetrahedron": 3}
-    # continuity = "C{order}"
-    continuity = "C0"
     value_type = "scalar"
     last_updated = "2023.06"
diff --git a/symfem/elements/vector_enriched_galerkin.py b/symfem/elements/vector_enriched_galerkin.py
index bdc6538..22d84ce 100644
--- a/symfem/elements/vector_enriched_galerkin.py
+++ b/symfem/elements/vector_enriched_galerkin.py
@@ -59,7 +59,7 @@ class Enrichment(CiarletElement):
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
     max_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
 
@@ -100,6 +100,6 @@ class VectorEnrichedGalerkin(EnrichedElement):
     names = ["enriched vector Galerkin", "locking-free enriched Galerkin", "LFEG"]
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
diff --git a/symfem/elements/wu_xu.py b/symfem/elements/wu_xu.py
index af97667..7a8b7c7 100644
--- a/symfem/elements/wu_xu.py
+++ b/symfem/elements/wu_xu.py
@@ -122,11 +122,14 @@ class WuXu(CiarletElement):
     def polynomial_superdegree(self) -> typing.Optional[int]:
         return self.order + 1
 
+    @property
+    def continuity(self) -> str:
+        # On a tetrahedron, only the DOFs on the faces and edges are continuous
+        return "L2" if self.reference.name == "tetrahedron" else "C0"
+
     names = ["Wu-Xu"]
     references = ["interval", "triangle", "tetrahedron"]
     min_order = {"interval": 2, "triangle": 3, "tetrahedron": 4}
     max_order = {"interval": 2, "triangle": 3, "tetrahedron": 4}
-    continuity = "C0"
-    # continuity = "C{order}"
     value_type = "scalar"
     last_updated = "2023.06.1"
-- 
2.43.0


From bf409fcdcbec78739c3fa4e524bf099a23b1346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 49/60] fix: evaluate the direction of derivative integral
 moments at the DOF's point

dof_direction of the interior DOFs of TNT on a hexahedron was a tuple of
functions of the coordinates.
---
 symfem/functionals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 2d767dd..4f13ded 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1434,8 +1434,10 @@ class DerivativeIntegralMoment(IntegralMoment):
         Returns:
             The direction
         """
-        dw = self.dot_with.as_sympy()
+        dw = self.dot_with.subs(x, self.dof_point()).as_sympy()
         assert isinstance(dw, tuple)
+        if all(i == 0 for i in dw):
+            return None
         return dw
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
-- 
2.43.0


From 803aeec396b42e42bc841dee02a1f9c681a7b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 50/60] fix: use the interior functions of the right degree in
 direct serendipity

From order 4, the interior functions were those of DPC of order 4 instead of
order - 4, so the space of order 4 had dimension 31 instead of 17.
---
 symfem/elements/direct_serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index 9694551..b24447c 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -73,7 +73,7 @@ class DirectSerendipity(DirectElement):
 
         # Functions in interior
         if order >= 4:
-            for f in DPC(reference, 4, "equispaced").get_basis_functions():
+            for f in DPC(reference, order - 4, "equispaced").get_basis_functions():
                 basis_functions.append(f * x[0] * x[1] * (1 - x[0]) * (1 - x[1]))
                 basis_entities.append((2, 0))
 
-- 
2.43.0


From f1cad555dded2e4f4eff96af7b4aac438e24637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 51/60] fix: make the direct serendipity functions of each edge
 zero on the opposite edge

The functions of the left and top edges were not zero on the right and bottom ones,
so the assembled space was not continuous. The space on the cell is unchanged.
---
 symfem/elements/direct_serendipity.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index b24447c..95b0701 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -47,28 +47,35 @@ class DirectSerendipity(DirectElement):
 
             lambda_h = alpha_h * (1 - x[1]) + beta_h * x[1] + gamma_h
             r_h = -2 * x[1] / ((1 - x[1]) / xi_h + x[1] / eta_h)
-            lambda_34 = xi_h * (1 - x[1]) + eta_h * x[1]
 
             lambda_v = alpha_v * (1 - x[0]) + beta_v * x[0] + gamma_v
             r_v = -2 * x[0] / ((1 - x[0]) / xi_v + x[0] / eta_v)
-            lambda_12 = xi_v * (1 - x[0]) + eta_v * x[0]
 
-            for j in range(order - 1):
-                basis_functions.append((1 - x[1]) * x[1] * lambda_h**j)
+            # Each function is zero on the three other edges
+            for j in range(order - 2):
+                basis_functions.append((1 - x[1]) * x[1] * (1 - x[0]) * lambda_h**j)
                 basis_entities.append((1, 1))
+            basis_functions.append(
+                (1 - x[1]) * x[1] * (1 + r_v / (2 * eta_v)) * lambda_h ** (order - 2)
+            )
+            basis_entities.append((1, 1))
             for j in range(order - 2):
-                basis_functions.append((1 - x[1]) * x[1] * lambda_12 * lambda_h**j)
+                basis_functions.append((1 - x[1]) * x[1] * x[0] * lambda_h**j)
                 basis_entities.append((1, 2))
-            basis_functions.append((1 - x[1]) * x[1] * r_v * lambda_h ** (order - 2))
+            basis_functions.append((1 - x[1]) * x[1] * -r_v / (2 * eta_v) * lambda_h ** (order - 2))
             basis_entities.append((1, 2))
 
-            for j in range(order - 1):
-                basis_functions.append((1 - x[0]) * x[0] * lambda_v**j)
+            for j in range(order - 2):
+                basis_functions.append((1 - x[0]) * x[0] * (1 - x[1]) * lambda_v**j)
                 basis_entities.append((1, 0))
+            basis_functions.append(
+                (1 - x[0]) * x[0] * (1 + r_h / (2 * eta_h)) * lambda_v ** (order - 2)
+            )
+            basis_entities.append((1, 0))
             for j in range(order - 2):
-                basis_functions.append((1 - x[0]) * x[0] * lambda_34 * lambda_v**j)
+                basis_functions.append((1 - x[0]) * x[0] * x[1] * lambda_v**j)
                 basis_entities.append((1, 3))
-            basis_functions.append((1 - x[0]) * x[0] * r_h * lambda_v ** (order - 2))
+            basis_functions.append((1 - x[0]) * x[0] * -r_h / (2 * eta_h) * lambda_v ** (order - 2))
             basis_entities.append((1, 3))
 
         # Functions in interior
-- 
2.43.0


From fe45cf94e7bfa85fb4f28f69073a7a1181d7b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 52/60] fix: refuse bubble enriched elements of orders for
 which the bubbles are not independent of the Lagrange space

---
 symfem/elements/bubble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index a4686df..890ff71 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -168,6 +168,7 @@ class BubbleEnrichedLagrange(CiarletElement):
     names = ["bubble enriched Lagrange"]
     references = ["triangle"]
     min_order = 1
+    max_order = 2
     continuity = "C0"
     value_type = "scalar"
     last_updated = "2024.09"
@@ -230,6 +231,7 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
     names = ["bubble enriched vector Lagrange"]
     references = ["triangle"]
     min_order = 1
+    max_order = 2
     continuity = "C0"
     value_type = "vector"
     last_updated = "2024.09"
-- 
2.43.0


From a582b7f52b363f8adcaa14e37332fc26a511a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 53/60] fix: use the moments of the scalar element in the
 legendre and lobatto variants of vector Q

Point evaluations at the middles of the moments' domains were used instead, so the
dual matrix was singular (legendre, and lobatto from order 3).
---
 symfem/elements/q.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 7ba56b0..90d2594 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -201,7 +201,17 @@ class VectorQ(CiarletElement):
             ]
             for p in scalar_space.dofs:
                 for d in directions:
-                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                    if isinstance(p, IntegralAgainst):
+                        f = tuple(p.f * i for i in d)
+                        sub_ref = p.integral_domain.default_reference()
+                        sub_dof = PointEvaluation(
+                            sub_ref, sub_ref.midpoint(), entity=(sub_ref.tdim, 0)
+                        )
+                        dofs.append(IntegralMoment(reference, f, sub_dof, entity=p.entity))
+                    else:
+                        dofs.append(
+                            DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
+                        )
 
             poly += quolynomial_set_vector(reference.tdim, reference.tdim, order)
 
-- 
2.43.0


From 7ea7961473060253a8834b9f14e7eee362daf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 54/60] fix: declare the elements of degree 0 and the legendre
 variants of Lagrange and Q elements to be L2

All the DOFs of these elements are in the interior of the cell: their functions are
not continuous between cells.
---
 symfem/elements/bernstein.py        | 2 ++
 symfem/elements/bubble.py           | 4 ++++
 symfem/elements/lagrange.py         | 4 ++++
 symfem/elements/lagrange_prism.py   | 4 ++++
 symfem/elements/lagrange_pyramid.py | 2 ++
 symfem/elements/q.py                | 4 ++++
 6 files changed, 20 insertions(+)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index 283376a..3db8747 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -233,6 +233,8 @@ class Bernstein(CiarletElement):
                             )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        if order == 0:
+            self.continuity = "L2"
 
     @property
     def lagrange_subdegree(self) -> int:
diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index 890ff71..1f840ea 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -140,6 +140,8 @@ class BubbleEnrichedLagrange(CiarletElement):
         self.variant = variant
 
         super().__init__(reference, order, poly, lagrange.dofs + bubble.dofs, reference.tdim, 1)
+        if variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
@@ -203,6 +205,8 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
         self.variant = variant
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 2)
+        if variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index 2b61742..ec2c293 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -80,6 +80,8 @@ class Lagrange(CiarletElement):
         poly += polynomial_set_1d(reference.tdim, order)
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
@@ -165,6 +167,8 @@ class VectorLagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/lagrange_prism.py b/symfem/elements/lagrange_prism.py
index e0c11d5..62cb6c1 100644
--- a/symfem/elements/lagrange_prism.py
+++ b/symfem/elements/lagrange_prism.py
@@ -108,6 +108,8 @@ class Lagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
@@ -173,6 +175,8 @@ class VectorLagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 19db1a3..7a2ef95 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -103,6 +103,8 @@ class Lagrange(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 90d2594..a9831b7 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -92,6 +92,8 @@ class Q(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def get_tensor_factorisation(
         self,
@@ -217,6 +219,8 @@ class VectorQ(CiarletElement):
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
+        if order == 0 or variant == "legendre":
+            self.continuity = "L2"
 
     def init_kwargs(self) -> typing.Dict[str, typing.Any]:
         """Return the kwargs used to create this element.
-- 
2.43.0


From f553a466e221da46be4540034afbe168c86bf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 55/60] fix: place the interior DOFs of direct elements in the
 interior when there are more than seven

---
 symfem/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 0d13895..7829f25 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -969,8 +969,8 @@ class DirectElement(FiniteElement):
                     entity_n -= (ne - i) * (ne + 1 - i) // 2
                     i += 1
                 j = 0
-                while entity_n >= ne - j:
-                    entity_n -= ne - j
+                while entity_n >= ne - i - j:
+                    entity_n -= ne - i - j
                     j += 1
                 positions.append(
                     tuple(
-- 
2.43.0


From 65df05530b9b59b91beec63c145f32c52896c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 56/60] fix: declare the degree of the polynomials that contain
 the TNT H(curl) spaces

---
 symfem/elements/tnt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 59e85f7..5e2be61 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -320,7 +320,9 @@ class TNTcurl(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
-        return self.order * self.reference.tdim + 1
+        if self.reference.tdim == 3:
+            return max(self.order * 3, self.order * 2 + 2)
+        return self.order * 2 + 1
 
     names = ["tiniest tensor Hcurl", "TNTcurl"]
     references = ["quadrilateral", "hexahedron"]
-- 
2.43.0


From b776b62602e7ebf1ca3a931794d5b3ac7dd7922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 57/60] fix: declare that the pyramid Lagrange element of order
 0 is constant

---
 symfem/elements/lagrange_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 7a2ef95..63496a9 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -128,6 +128,8 @@ class Lagrange(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
+        if self.order == 0:
+            return 0
         return None
 
     names = ["Lagrange", "P"]
-- 
2.43.0


From 59c55733279889ec0287870d06f7179f6360203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:14 +0000
Subject: [PATCH 58/60] fix: keep Bezier curves on the picture

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index b86ad20..9e7ee12 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -341,7 +341,7 @@ class Bezier(PictureElement):
         Returns:
             A set of points
         """
-        return (self.start, self.end)
+        return (self.start, self.mid1, self.mid2, self.end)
 
 
 class Arrow(PictureElement):
-- 
2.43.0


From b2b7ca3304b70acc8e95ba8aae9966d533681437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 59/60] fix: give the trimmed serendipity H(curl) element on a
 hexahedron all its interior DOFs

---
 symfem/elements/trimmed_serendipity.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 3540f5d..474dea0 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -108,6 +108,25 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     dofs.append(
                         IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
+        if reference.tdim == 3 and order >= 4:
+            for i in range(order - 3):
+                for j in range(order - 3 - i):
+                    for dim in range(3):
+                        if i == 0 or dim != 0:
+                            p = VectorFunction(tuple(x)).cross(
+                                VectorFunction(
+                                    [
+                                        x[0] ** i * x[1] ** j * x[2] ** (order - 4 - i - j)
+                                        if d == dim
+                                        else 0
+                                        for d in range(3)
+                                    ]
+                                )
+                            )
+                            f2 = p.curl().subs(x, tuple(t))
+                            dofs.append(
+                                IntegralAgainst(reference, f2, entity=(3, 0), mapping="covariant")
+                            )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
         self.variant = variant
-- 
2.43.0


From 6f8a6ecd131656cecd9a80465de8503979481d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 60/60] fix: declare the degree of the largest Lagrange space
 in a trimmed serendipity space

---
 symfem/elements/trimmed_serendipity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 474dea0..fa57264 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -141,7 +141,9 @@ class TrimmedSerendipityHcurl(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + self.reference.tdim - 1) // (self.reference.tdim + 1)
+        if 1 < self.order <= self.reference.tdim:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
@@ -244,7 +246,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + 1) // (self.reference.tdim + 1)
+        if self.order == self.reference.tdim:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
-- 
2.43.0

