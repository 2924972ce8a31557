From 256dcfb67d16b55123ce99e7231a7a0d66c6eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/43] fix: map the pyramid's reference vertices and interior
 points correctly

The forward map of the pyramid was not the identity for the default cell and
did not agree with the inverse map, as the base was scaled by (1 - z) twice.
---
 symfem/references.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..380078b 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2214,9 +2214,11 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + (v1 - v0) * x[0]
+            + (v2 - v0) * x[1]
+            + (v4 - v0) * x[2]
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2250,9 +2252,11 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            v0
+            + (v1 - v0) * x[0]
+            + (v2 - v0) * x[1]
+            + (v4 - v0) * x[2]
+            + (v0 + v3 - v1 - v2) * x[0] * x[1] / (1 - x[2])
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 3ac7c9e49acca3931739ef9721b2ab45e9fb66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 02/43] fix: invert the map to a triangle embedded in 3D

Projecting onto the axes divided by their length is only an inverse of the
affine map when the axes are orthonormal.
---
 symfem/references.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 380078b..708b1e4 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1179,16 +1179,17 @@ class Triangle(Reference):
         Returns:
             The map
         """
+        p = _vsub(tuple(x), self.vertices[0])
+        v1 = _vsub(self.vertices[1], self.vertices[0])
+        v2 = _vsub(self.vertices[2], self.vertices[0])
         if len(self.vertices[0]) == 2:
-            p = _vsub(tuple(x), self.vertices[0])
-            v1 = _vsub(self.vertices[1], self.vertices[0])
-            v2 = _vsub(self.vertices[2], self.vertices[0])
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-            return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
-
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        else:
+            v3 = _vcross(v1, v2)
+            mat = sympy.Matrix(
+                [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
+            ).inv()
+        return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
-- 
2.43.0


From e9d2a8c17808f74e704c5f5148823d7af686a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 03/43] fix: check the third coordinate is non-negative in
 Tetrahedron.contains

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index 708b1e4..f557ca9 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1409,7 +1409,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From d45defda58a5f933c5bc82b8d16da8b424041805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 04/43] fix: do not report points beyond the ends of an edge as
 being on the edge

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index f557ca9..39db655 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -627,7 +627,7 @@ class Reference(ABC):
             v0 = VectorFunction(self.vertices[e[0]])
             v1 = VectorFunction(self.vertices[e[1]])
             crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            if crossed == 0 and (v0 - point).dot(v1 - point) <= 0:
                 return True
         return False
 
-- 
2.43.0


From 84701f5f75f67c240fd8911e4823692b923abfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 05/43] fix: make Reference.on_face report whether a point is
 on a face

It used the truth value of a function, which always raises a TypeError.
---
 symfem/references.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 39db655..5d6177a 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -643,12 +643,14 @@ class Reference(ABC):
         from symfem.functions import VectorFunction
 
         point = VectorFunction(point_in)
-        for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
+        for i in range(self.sub_entity_count(2)):
+            vs = [VectorFunction(v) for v in self.sub_entity(2, i).clockwise_vertices]
+            normal = (vs[1] - vs[0]).cross(vs[2] - vs[0])
+            if self.gdim == 3 and (point - vs[0]).dot(normal) != 0:
+                continue
+            if all(
+                (v - point).cross(w - point).dot(normal) >= 0 for v, w in zip(vs, vs[1:] + vs[:1])
+            ):
                 return True
         return False
 
-- 
2.43.0


From 74e768bcba17097b88641a960d20716912ba8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 06/43] fix: sum over all columns in the inner product of
 matrix functions

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..c76f805 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1693,7 +1693,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From a3b9e3e5cd4088a9e420a00f29c3e682d5d373e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 07/43] fix: multiply vectors by non-square matrices

---
 symfem/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index c76f805..4568e86 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1062,8 +1062,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
-- 
2.43.0


From 1a1d3a715bbc820bac7225028a33a3b285519c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 08/43] fix: give each iteration over a vector function its own
 position

---
 symfem/functions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 4568e86..1f39985 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1268,16 +1268,7 @@ class VectorFunction(AnyFunction):
 
     def __iter__(self):
         """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From da851c6a7127507b39e19347e2fe2ddd7e3f3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 09/43] fix: allow arithmetic between two basis functions

---
 symfem/basis_functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..500e41f 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -58,7 +58,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__add__(other)
+        return self.get_function() + other
 
     def __radd__(self, other: typing.Any) -> AnyFunction:
         """Add.
@@ -80,7 +80,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__sub__(other)
+        return self.get_function() - other
 
     def __rsub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -110,7 +110,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__truediv__(other)
+        return self.get_function() / other
 
     def __rtruediv__(self, other: typing.Any) -> AnyFunction:
         """Divide.
@@ -132,7 +132,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__mul__(other)
+        return self.get_function() * other
 
     def __rmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -154,7 +154,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ other
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -176,7 +176,7 @@ class BasisFunction(AnyFunction):
         Returns:
             This function to the power of other
         """
-        return self.get_function().__pow__(other)
+        return self.get_function() ** other
 
     def as_sympy(self) -> SympyFormat:
         """Convert to a sympy expression.
-- 
2.43.0


From 978248a6c1c69d8d87be8ce330907e18e1c53a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 10/43] fix: return the norm of a basis function instead of
 raising it

---
 symfem/basis_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 500e41f..f5bd6db 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
-- 
2.43.0


From 901cf212a0dd06c3196ddb539c2dc6fc19e42873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 11/43] fix: return a function when integrating over a point

---
 symfem/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 1f39985..b63fd29 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -809,7 +809,7 @@ class ScalarFunction(AnyFunction):
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
-- 
2.43.0


From 067ac7de3a474d40511dcb8bda924e081e963f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 12/43] fix: accept sympy matrices as function input

---
 symfem/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index b63fd29..a3e5107 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1841,6 +1841,8 @@ def parse_function_input(f: FunctionInput) -> AnyFunction:
                 assert not isinstance(i, (tuple, list))
                 vec.append(i)
             return VectorFunction(tuple(vec))
+    if isinstance(f, sympy.matrices.dense.MutableDenseMatrix):
+        return MatrixFunction(f)
     raise ValueError(f"Could not parse input function: {f}")
 
 
-- 
2.43.0


From e2cd204d721f09ad56453576a654293e51cd056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 13/43] fix: reject adding tuples of the wrong length to
 functions

---
 symfem/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index a3e5107..475f131 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -997,6 +997,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f + j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1006,6 +1007,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i + j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1015,6 +1017,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i._f - j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1024,6 +1027,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self._vec) == len(other)
             return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1424,6 +1428,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1451,6 +1456,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
@@ -1478,6 +1484,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1505,6 +1512,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
-- 
2.43.0


From 8336da7b0b9fac193384b06ab307ccbc0441f9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 14/43] fix: forward shape, integrate and plot_values of basis
 functions

---
 symfem/basis_functions.py | 70 ++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index f5bd6db..f9e890f 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -354,6 +354,50 @@ class BasisFunction(AnyFunction):
             raise AttributeError(f"'{self.__class__.__name__}' object has no attribute 'transpose'")
         return self.get_function().transpose()
 
+    @property
+    def shape(self) -> typing.Tuple[int, ...]:
+        """Get the value shape of the function.
+
+        Returns:
+            shape
+        """
+        return self.get_function().shape
+
+    def integrate(
+        self,
+        *limits: typing.Tuple[
+            sympy.core.symbol.Symbol,
+            typing.Union[int, sympy.core.expr.Expr],
+            typing.Union[int, sympy.core.expr.Expr],
+        ],
+    ):
+        """Integrate the function.
+
+        Args:
+            limits: The variables and limits
+
+        Returns:
+            The integral
+        """
+        return self.get_function().integrate(*limits)
+
+    def plot_values(
+        self,
+        reference: Reference,
+        img: typing.Any,
+        value_scale: sympy.core.expr.Expr = sympy.Integer(1),
+        n: int = 6,
+    ):
+        """Plot the function's values.
+
+        Args:
+            reference: The domain to plot the function on
+            img: The image to plot the values on
+            value_scale: The factor to scale values by
+            n: The number of plotting points
+        """
+        self.get_function().plot_values(reference, img, value_scale, n)
+
     def with_floats(self) -> AnyFunction:
         """Return a version the function with floats as coefficients.
 
@@ -406,32 +450,6 @@ class SubbedBasisFunction(BasisFunction):
         """
         return self.f.get_function().subs(self._vars, self._values)
 
-    @property
-    def shape(self) -> typing.Tuple[int, ...]:
-        """Get the value shape of the function.
-
-        Returns:
-            shape
-        """
-        return self.f.get_function().shape
-
-    def plot_values(
-        self,
-        reference: Reference,
-        img: typing.Any,
-        value_scale: sympy.core.expr.Expr = sympy.Integer(1),
-        n: int = 6,
-    ):
-        """Plot the function's values.
-
-        Args:
-            reference: The domain to plot the function on
-            img: The image to plot the values on
-            value_scale: The factor to scale values by
-            n: The number of plotting points
-        """
-        self.get_function().plot_values(reference, img, value_scale, n)
-
     def maximum_degree(self, cell: symfem.references.Reference) -> int:
         """Return the maximum degree of the function on a reference cell.
 
-- 
2.43.0


From 6dbed4375326a3ceae9d35de1970fa20253ef0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 15/43] fix: reject combining piecewise functions with
 different numbers of pieces

---
 symfem/piecewise_functions.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..76f693b 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -172,6 +172,8 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
+        if len(self._pieces) != len(other._pieces):
+            return False
         for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
             assert shape0 == shape1
             if f0 != f1:
@@ -190,6 +192,7 @@ class PiecewiseFunction(AnyFunction):
     def __add__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -200,6 +203,7 @@ class PiecewiseFunction(AnyFunction):
     def __radd__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -210,6 +214,7 @@ class PiecewiseFunction(AnyFunction):
     def __sub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -220,6 +225,7 @@ class PiecewiseFunction(AnyFunction):
     def __rsub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -230,6 +236,7 @@ class PiecewiseFunction(AnyFunction):
     def __truediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -240,6 +247,7 @@ class PiecewiseFunction(AnyFunction):
     def __rtruediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -250,6 +258,7 @@ class PiecewiseFunction(AnyFunction):
     def __mul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -260,6 +269,7 @@ class PiecewiseFunction(AnyFunction):
     def __rmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -270,6 +280,7 @@ class PiecewiseFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -280,6 +291,7 @@ class PiecewiseFunction(AnyFunction):
     def __rmatmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
@@ -290,6 +302,7 @@ class PiecewiseFunction(AnyFunction):
     def __pow__(self, other: typing.Any) -> PiecewiseFunction:
         """Raise to a power."""
         if isinstance(other, PiecewiseFunction):
+            assert len(self._pieces) == len(other._pieces)
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
                 assert shape0 == shape1
-- 
2.43.0


From 86123c807197c4feb2d274185259ba4245cf2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 16/43] fix: declare Alfeld-Sorokina as the vector valued
 element it is

---
 symfem/elements/alfeld_sorokina.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 2c19329..078f98f 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -123,7 +123,7 @@ class AlfeldSorokina(CiarletElement):
         poly: typing.List[FunctionInput] = []
         poly += [PiecewiseFunction({i: j for i, j in zip(subs, p)}, 2) for p in piece_list]
 
-        super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
     @property
     def lagrange_subdegree(self) -> int:
@@ -146,5 +146,5 @@ class AlfeldSorokina(CiarletElement):
     min_order = 2
     max_order = 2
     continuity = "C0"
-    value_type = "scalar macro"
+    value_type = "vector macro"
     last_updated = "2023.05"
-- 
2.43.0


From a157d1c240d3e8f2dc4e0b488ee19c2b6f42e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 17/43] fix: make matrix Lagrange matrix valued and use
 integral DOFs in matrix legendre variants

---
 symfem/elements/lagrange.py | 42 ++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..94478c5 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -202,19 +202,30 @@ class MatrixLagrange(CiarletElement):
         """
         scalar_space = Lagrange(reference, order, variant)
         dofs: ListOfFunctionals = []
-        if reference.tdim == 1:
-            directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
-        else:
-            directions = [
-                tuple(1 if i == j else 0 for j in range(reference.tdim**2))
-                for i in range(reference.tdim**2)
-            ]
+        tdim = reference.tdim
+        directions = [
+            tuple(tuple(1 if (i, j) == (k, m) else 0 for m in range(tdim)) for k in range(tdim))
+            for i in range(tdim)
+            for j in range(tdim)
+        ]
         for p in scalar_space.dofs:
             for d in directions:
-                dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                if isinstance(p, IntegralAgainst):
+                    dofs.append(
+                        IntegralAgainst(
+                            reference,
+                            tuple(tuple(p.f * i for i in row) for row in d),
+                            entity=p.entity,
+                        )
+                    )
+                else:
+                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
-        poly += polynomial_set_vector(reference.tdim, reference.tdim**2, order)
+        poly += [
+            tuple(tuple(a[tdim * i + j] for j in range(tdim)) for i in range(tdim))
+            for a in polynomial_set_vector(tdim, tdim**2, order)
+        ]
 
         super().__init__(
             reference,
@@ -307,7 +318,18 @@ class SymmetricMatrixLagrange(CiarletElement):
 
             for p in scalar_space.dofs:
                 for d in directions:
-                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                    if isinstance(p, IntegralAgainst):
+                        dofs.append(
+                            IntegralAgainst(
+                                reference,
+                                tuple(tuple(p.f * i for i in row) for row in d),
+                                entity=p.entity,
+                            )
+                        )
+                    else:
+                        dofs.append(
+                            DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
+                        )
 
             super().__init__(
                 reference,
-- 
2.43.0


From 850e4f3335b0b8f4be7913222cc176f1e717262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 18/43] fix: use integral DOFs in the legendre variant of
 vector Q

---
 symfem/elements/q.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..b568786 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -199,7 +199,14 @@ class VectorQ(CiarletElement):
             ]
             for p in scalar_space.dofs:
                 for d in directions:
-                    dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
+                    if variant == "legendre" and isinstance(p, IntegralAgainst):
+                        dofs.append(
+                            IntegralAgainst(reference, tuple(p.f * i for i in d), entity=p.entity)
+                        )
+                    else:
+                        dofs.append(
+                            DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity)
+                        )
 
             poly += quolynomial_set_vector(reference.tdim, reference.tdim, order)
 
-- 
2.43.0


From 340798691820c7039387c78aa87a388b7d0df6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 19/43] fix: reject orders for which bubble enriched spaces are
 not direct sums

---
 symfem/elements/bubble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index 28cf61c..ce5fab9 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -168,6 +168,7 @@ class BubbleEnrichedLagrange(CiarletElement):
     names = ["bubble enriched Lagrange"]
     references = ["triangle"]
     min_order = 1
+    max_order = 2
     continuity = "C0"
     value_type = "scalar"
     last_updated = "2024.09"
@@ -230,6 +231,7 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
     names = ["bubble enriched vector Lagrange"]
     references = ["triangle"]
     min_order = 1
+    max_order = 2
     continuity = "C0"
     value_type = "vector"
     last_updated = "2024.09"
-- 
2.43.0


From 915740750e49f093c1801d5d443520b0454f30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 20/43] fix: use integral DOFs in the legendre variant of
 bubble enriched vector Lagrange

---
 symfem/elements/bubble.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index ce5fab9..ff3d25b 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -10,7 +10,12 @@ from itertools import product
 import sympy
 
 from symfem.finite_element import CiarletElement
-from symfem.functionals import DotPointEvaluation, ListOfFunctionals, PointEvaluation
+from symfem.functionals import (
+    DotPointEvaluation,
+    IntegralAgainst,
+    ListOfFunctionals,
+    PointEvaluation,
+)
 from symfem.functions import FunctionInput
 from symfem.references import Reference
 from symfem.elements.lagrange import Lagrange
@@ -194,11 +199,15 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
                 poly.append((p, 0))
                 poly.append((0, p))
 
-        dofs: ListOfFunctionals = [
-            DotPointEvaluation(reference, d.dof_point(), v, entity=d.entity)
-            for d in lagrange.dofs + bubble.dofs
-            for v in [(1, 0), (0, 1)]
-        ]
+        dofs: ListOfFunctionals = []
+        for d in lagrange.dofs + bubble.dofs:
+            for v in [(1, 0), (0, 1)]:
+                if isinstance(d, IntegralAgainst):
+                    dofs.append(
+                        IntegralAgainst(reference, tuple(d.f * i for i in v), entity=d.entity)
+                    )
+                else:
+                    dofs.append(DotPointEvaluation(reference, d.dof_point(), v, entity=d.entity))
 
         self.variant = variant
 
-- 
2.43.0


From cc4a1445b29943e10120c0acd9a256b0c4fa90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 21/43] fix: use independent interior DOFs in TNTcurl and
 TNTdiv of order above 2

---
 symfem/elements/tnt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..b218875 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -273,7 +273,7 @@ class TNTcurl(CiarletElement):
                             )
                         )
 
-                        if k in [0, 2]:
+                        if k in [0, order]:
                             f = (0, 0, x[2] ** k * x[0] ** i * (1 - x[0]) * x[1] ** j * (1 - x[1]))
                             dofs.append(
                                 IntegralAgainst(
@@ -416,7 +416,7 @@ class TNTdiv(CiarletElement):
                             x[2] ** k
                             * x[0] ** (i - 1)
                             * (1 - x[0])
-                            * x[2] ** (j - 2)
+                            * x[1] ** (j - 2)
                             * (j - 1 - j * x[1]),
                             x[2] ** k
                             * x[1] ** (j - 1)
@@ -448,7 +448,7 @@ class TNTdiv(CiarletElement):
                                 reference, f, entity=(reference.tdim, 0), mapping="covariant"
                             )
                         )
-                        if k in [0, 2]:
+                        if k in [0, order]:
                             f = (
                                 0,
                                 x[0] ** k
-- 
2.43.0


From c9d82cfec417cca3733f0e31a8ddab0f3d284ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 22/43] fix: map interior DOFs of the nonconforming
 Arnold-Winther element

---
 symfem/elements/aw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
-- 
2.43.0


From dcab55c9e9268a329fca0b25e0513a6955e8af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 23/43] fix: use face bubbles on every face in the KMV
 tetrahedron of order 2

---
 symfem/elements/kmv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..ef816cf 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -51,12 +51,13 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    lambdas = (1 - x[0] - x[1] - x[2], x[0], x[1], x[2])
+    for face in [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]:
+        axes = [lambdas[v] for v in face]
+        b = axes[0] * axes[1] * axes[2]
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(axes[0] ** i * axes[1] ** j * axes[2] ** (mf - 3 - i - j) * b)
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
-- 
2.43.0


From 9238c5d2f5cc767fac052d67d9b37864e7bc352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 24/43] fix: span the right BDFM space on the tetrahedron

---
 symfem/elements/bdfm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..53eb9f8 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -65,7 +65,7 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
             pset.append((x[0] * p, x[1] * p, x[2] * p))
         for i in range(1, order):
             p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+            pset.append((x[1] * p, -x[1] * p, 0))
 
     return pset
 
@@ -135,4 +135,4 @@ class BDFM(CiarletElement):
     min_order = 1
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2024.10"
+    last_updated = "2024.10.1"
-- 
2.43.0


From b8c15f4be81fc8108d1dbff1d2dd122c12c53e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 25/43] fix: declare the nonconforming Morley-Wang-Xu element
 discontinuous

---
 symfem/elements/morley_wang_xu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfem/elements/morley_wang_xu.py b/symfem/elements/morley_wang_xu.py
index 340a2b5..ce124f2 100644
--- a/symfem/elements/morley_wang_xu.py
+++ b/symfem/elements/morley_wang_xu.py
@@ -122,7 +122,6 @@ class MorleyWangXu(CiarletElement):
     references = ["interval", "triangle", "tetrahedron"]
     min_order = 1
     max_order = {"interval": 1, "triangle": 2, "tetrahedron": 3}
-    # continuity = "C{order}"
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.06"
-- 
2.43.0


From 04b85dda438debe71efa9324a63cc4a8b9aa9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 26/43] fix: do not reuse cached matrices of elements whose
 DOFs or space changed

---
 symfem/elements/bubble.py   | 2 +-
 symfem/elements/kmv.py      | 2 +-
 symfem/elements/lagrange.py | 4 ++--
 symfem/elements/q.py        | 2 +-
 symfem/elements/tnt.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/symfem/elements/bubble.py b/symfem/elements/bubble.py
index ff3d25b..babb07b 100644
--- a/symfem/elements/bubble.py
+++ b/symfem/elements/bubble.py
@@ -243,4 +243,4 @@ class BubbleEnrichedVectorLagrange(CiarletElement):
     max_order = 2
     continuity = "C0"
     value_type = "vector"
-    last_updated = "2024.09"
+    last_updated = "2024.10.1"
diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index ef816cf..bc74607 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -251,4 +251,4 @@ class KongMulderVeldhuizen(CiarletElement):
     min_order = 1
     continuity = "C0"
     value_type = "scalar"
-    last_updated = "2023.05"
+    last_updated = "2024.10.1"
diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index 94478c5..bce8e44 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -267,7 +267,7 @@ class MatrixLagrange(CiarletElement):
     min_order = 0
     continuity = "L2"
     value_type = "matrix"
-    last_updated = "2023.09"
+    last_updated = "2024.10.1"
 
 
 class SymmetricMatrixLagrange(CiarletElement):
@@ -371,4 +371,4 @@ class SymmetricMatrixLagrange(CiarletElement):
     min_order = 0
     continuity = "L2"
     value_type = "symmetric matrix"
-    last_updated = "2023.09"
+    last_updated = "2024.10.1"
diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index b568786..9eab115 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -242,7 +242,7 @@ class VectorQ(CiarletElement):
     min_order = 0
     continuity = "C0"
     value_type = "vector"
-    last_updated = "2023.06"
+    last_updated = "2024.10.1"
 
 
 class Nedelec(CiarletElement):
diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index b218875..9dbb052 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -329,7 +329,7 @@ class TNTcurl(CiarletElement):
     min_order = 1
     continuity = "H(curl)"
     value_type = "vector"
-    last_updated = "2023.06"
+    last_updated = "2024.10.1"
 
 
 class TNTdiv(CiarletElement):
@@ -500,4 +500,4 @@ class TNTdiv(CiarletElement):
     min_order = 1
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2023.06"
+    last_updated = "2024.10.1"
-- 
2.43.0


From 6c885aca0abc455f95f913023c0c893063c6800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 27/43] fix: use curls and gradients in the quadrilateral
 serendipity spaces

---
 symfem/elements/ac.py          | 2 +-
 symfem/elements/serendipity.py | 4 ++--
 symfem/polynomials/polysets.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/elements/ac.py b/symfem/elements/ac.py
index d34c6d1..fba4a1d 100644
--- a/symfem/elements/ac.py
+++ b/symfem/elements/ac.py
@@ -99,4 +99,4 @@ class AC(CiarletElement):
     min_order = 0
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2023.06"
+    last_updated = "2024.10.1"
diff --git a/symfem/elements/serendipity.py b/symfem/elements/serendipity.py
index 453de53..e835b5e 100644
--- a/symfem/elements/serendipity.py
+++ b/symfem/elements/serendipity.py
@@ -151,7 +151,7 @@ class SerendipityCurl(CiarletElement):
     min_order = 1
     continuity = "H(curl)"
     value_type = "vector"
-    last_updated = "2023.07"
+    last_updated = "2024.10.1"
 
 
 class SerendipityDiv(CiarletElement):
@@ -210,4 +210,4 @@ class SerendipityDiv(CiarletElement):
     min_order = 1
     continuity = "H(div)"
     value_type = "vector"
-    last_updated = "2023.07"
+    last_updated = "2024.10.1"
diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..72b52b7 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                ((order + 1) * variables[0] * variables[1] ** order, -(variables[1] ** (order + 1)))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From a22c0bee42003d5ff1e0064b7d742d6a69428b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 28/43] fix: report the polynomial superdegree of TNT Hcurl on
 the hexahedron

---
 symfem/elements/tnt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 9dbb052..58ec99f 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -322,7 +322,7 @@ class TNTcurl(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
-        return self.order * self.reference.tdim + 1
+        return max(self.order * self.reference.tdim, 2 * self.order + self.reference.tdim - 1)
 
     names = ["tiniest tensor Hcurl", "TNTcurl"]
     references = ["quadrilateral", "hexahedron"]
-- 
2.43.0


From eb1ce2fc98103354e006992b88d28305c74db2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 29/43] fix: report the polynomial superdegree of the piecewise
 constant pyramid element

---
 symfem/elements/lagrange_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 19db1a3..979a1a4 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -126,6 +126,8 @@ class Lagrange(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
+        if self.order == 0:
+            return 0
         return None
 
     names = ["Lagrange", "P"]
-- 
2.43.0


From 810df39f6f889c19bf45b8a4b71df1e471a04349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 30/43] fix: map interior DOFs of H(div) and H(curl) elements
 with the element's Piola mapping

---
 symfem/elements/abf.py                 |  2 +-
 symfem/elements/bddf.py                |  2 +-
 symfem/elements/bdfm.py                | 10 ++++++++--
 symfem/elements/bdm.py                 |  8 +++++++-
 symfem/elements/huang_zhang.py         | 20 +++++++++++++++++---
 symfem/elements/tnt.py                 | 21 +++++++++++----------
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 7 files changed, 52 insertions(+), 23 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index 53eb9f8..22b6c56 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,19 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
diff --git a/symfem/elements/huang_zhang.py b/symfem/elements/huang_zhang.py
index 41fdede..f19cd6e 100644
--- a/symfem/elements/huang_zhang.py
+++ b/symfem/elements/huang_zhang.py
@@ -58,13 +58,27 @@ class HuangZhang(CiarletElement):
         )
         dofs += make_integral_moment_dofs(
             reference,
-            facets=(TangentIntegralMoment, Lagrange, order - 2, {"variant": variant}),
+            facets=(
+                TangentIntegralMoment,
+                Lagrange,
+                order - 2,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
 
         for i in range(order - 1):
             for j in range(order - 2):
-                dofs.append(IntegralAgainst(reference, (x[0] ** i * x[1] ** j, 0), (2, 0)))
-                dofs.append(IntegralAgainst(reference, (0, x[0] ** j * x[1] ** i), (2, 0)))
+                dofs.append(
+                    IntegralAgainst(
+                        reference, (x[0] ** i * x[1] ** j, 0), (2, 0), mapping="contravariant"
+                    )
+                )
+                dofs.append(
+                    IntegralAgainst(
+                        reference, (0, x[0] ** j * x[1] ** i), (2, 0), mapping="contravariant"
+                    )
+                )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 58ec99f..7d53bc9 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -292,9 +292,7 @@ class TNTcurl(CiarletElement):
                         f *= x[2] ** (k - 1) * x[2] ** k
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
-                            IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
-                            )
+                            IntegralAgainst(reference, grad_f, entity=(3, 0), mapping="covariant")
                         )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -392,7 +390,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -405,7 +403,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -427,7 +425,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -445,7 +443,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, order]:
@@ -464,7 +462,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..3540f5d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -190,7 +190,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -207,7 +207,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From 48c42e96fab8b7d7f78d9d23d69d8c713e16e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 31/43] fix: pass each subelement its own part of the basis
 when mapping an enriched element

---
 symfem/finite_element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..2d8bd4d 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1218,8 +1218,11 @@ class EnrichedElement(FiniteElement):
             The basis functions mapped to the cell
         """
         out = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            sub_basis = None if basis is None else basis[start : start + e.space_dim]
+            out += e.map_to_cell(vertices_in, sub_basis, forward_map, inverse_map)
+            start += e.space_dim
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From b4d568b59775ee5906d2afe4ed14cd30ebc3e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 32/43] fix: compute the maximum degree from the monomials of a
 function

---
 symfem/functions.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 475f131..19a0cbe 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -913,20 +913,13 @@ class ScalarFunction(AnyFunction):
         """
         if cell.name == "pyramid":
             raise NotImplementedError()
-        degrees = []
-        for v in x:
-            f = 1 * self._f
-            d = 0
-            while f != 0:
-                d += 1
-                f = f.diff(v)
-            degrees.append(d - 1)
+        monomials = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(m) for m in monomials)
         elif cell.name in ["quadrilateral", "hexahedron"]:
-            return max(degrees)
+            return max(max(m) for m in monomials)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(m[0] + m[1], m[2]) for m in monomials)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0


From 4e534d88cb9a76c7040c4784a6a4f6af438fcba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 33/43] fix: save cached matrices atomically and create the
 cache folder without a race

---
 symfem/caching.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..5a1a90d 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -3,18 +3,16 @@
 import os
 import typing
 from hashlib import sha256
+from uuid import uuid4
 
 import sympy
 from appdirs import user_cache_dir
 
-if not os.path.isdir(user_cache_dir()):
-    os.mkdir(user_cache_dir())
 CACHE_DIR = user_cache_dir("symfem")
 CACHE_FORMAT = "1"
 if os.path.isfile(CACHE_DIR):
     os.remove(CACHE_DIR)
-if not os.path.isdir(CACHE_DIR):
-    os.mkdir(CACHE_DIR)
+os.makedirs(CACHE_DIR, exist_ok=True)
 
 assert os.path.isdir(CACHE_DIR)
 
@@ -57,8 +55,11 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
+    # Write to another file first so that filename never refers to an incomplete matrix
+    temp_filename = f"{filename}.{uuid4().hex}"
+    with open(temp_filename, "w") as f:
         f.write(matrix_to_string(matrix))
+    os.replace(temp_filename, filename)
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From 7c74a7d6b265716b971c728ecbb25354d54f2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 34/43] fix: use tensor-product factorisations only where they
 give the element's basis functions

---
 symfem/elements/q.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 9eab115..19e7907 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -101,11 +101,14 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if (
+            self.variant in ["legendre", "lobatto"]
+            or self.reference != self.reference.default_reference()
+        ):
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
         if self.order == 0:
             perm = [0]
-- 
2.43.0


From 57139104bafcb5a5cfab75b5fccb6c33e58581d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 35/43] fix: use the published weights and points of the order
 3 KMV element

---
 symfem/elements/kmv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index bc74607..a58d2bb 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -127,7 +127,7 @@ class KongMulderVeldhuizen(CiarletElement):
                             entity=(0, v_n),
                         )
                     )
-                alpha = sympy.Rational(1, 2) - sympy.sqrt(411 - 84 * (7 - sympy.sqrt(7))) / 42
+                alpha = sympy.Rational(1, 2) - sympy.sqrt(441 - 84 * (7 - sympy.sqrt(7))) / 42
                 for e_n, e in enumerate(reference.edges):
                     dofs.append(
                         WeightedPointEvaluation(
@@ -136,7 +136,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 i + (j - i) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
@@ -147,7 +147,7 @@ class KongMulderVeldhuizen(CiarletElement):
                                 j + (i - j) * alpha
                                 for i, j in zip(reference.vertices[e[0]], reference.vertices[e[1]])
                             ),
-                            sympy.Rational(7, 720) - sympy.sqrt(7) / 180,
+                            sympy.Rational(7, 720) + sympy.sqrt(7) / 180,
                             entity=(1, e_n),
                         )
                     )
-- 
2.43.0


From 92e3965353c64942c4d1408537ae125e633dce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 36/43] fix: give the tetrahedral Bernstein element its
 interior DOFs

---
 symfem/elements/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/bernstein.py b/symfem/elements/bernstein.py
index fbe9d57..283376a 100644
--- a/symfem/elements/bernstein.py
+++ b/symfem/elements/bernstein.py
@@ -222,7 +222,7 @@ class Bernstein(CiarletElement):
                             )
                         )
 
-            if reference.name == "tetrahedon":
+            if reference.name == "tetrahedron":
                 for i in range(1, order):
                     for j in range(1, order - i):
                         for k in range(1, order - i - j):
-- 
2.43.0


From e77a7af3b8b11fad8b8234e76d5248875cff94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 37/43] fix: use interior functions of the element's own order
 in direct serendipity

---
 symfem/elements/direct_serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/direct_serendipity.py b/symfem/elements/direct_serendipity.py
index 9694551..b24447c 100644
--- a/symfem/elements/direct_serendipity.py
+++ b/symfem/elements/direct_serendipity.py
@@ -73,7 +73,7 @@ class DirectSerendipity(DirectElement):
 
         # Functions in interior
         if order >= 4:
-            for f in DPC(reference, 4, "equispaced").get_basis_functions():
+            for f in DPC(reference, order - 4, "equispaced").get_basis_functions():
                 basis_functions.append(f * x[0] * x[1] * (1 - x[0]) * (1 - x[1]))
                 basis_entities.append((2, 0))
 
-- 
2.43.0


From 95a10fdc5d191f62f10b1aab731defc1597e6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 38/43] fix: save a picture under every file name of a list

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..b86ad20 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1144,7 +1144,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From 503e48dcdfd59f9463d7d6b00883d1eb6db5c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 39/43] fix: do not reuse plots of a function that were made at
 another scale

---
 symfem/functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 19a0cbe..d3c7842 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -543,7 +543,7 @@ class ScalarFunction(AnyFunction):
             self._f = f
         assert isinstance(self._f, sympy.core.expr.Expr)
         self._plot_beziers: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[typing.Tuple[PointType, PointType, PointType, PointType]],
         ] = {}
 
@@ -851,8 +851,9 @@ class ScalarFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_beziers:
-            self._plot_beziers[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_beziers:
+            self._plot_beziers[key] = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -876,7 +877,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[(reference, n)].append(
+                self._plot_beziers[key].append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -885,7 +886,7 @@ class ScalarFunction(AnyFunction):
                     )
                 )
 
-        for s, m1, m2, e in self._plot_beziers[(reference, n)]:
+        for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
 
     def with_floats(self) -> AnyFunction:
@@ -958,7 +959,7 @@ class VectorFunction(AnyFunction):
             assert i.is_scalar
 
         self._plot_arrows: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[
                 typing.Tuple[typing.Tuple[sympy.core.expr.Expr, ...], VectorFunction, float]
             ],
@@ -1286,8 +1287,9 @@ class VectorFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_arrows:
-            self._plot_arrows[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_arrows:
+            self._plot_arrows[key] = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1297,8 +1299,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[(reference, n)].append((p, VectorFunction(p) + value, size))
-        for p, q, size in self._plot_arrows[(reference, n)]:
+                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+        for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
     def with_floats(self) -> AnyFunction:
-- 
2.43.0


From 3ea65bf93a83cc211842988e4b4a3556edb424ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 40/43] fix: give no direction to derivative moments against a
 varying vector

---
 symfem/functionals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..e51168e 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1431,6 +1431,8 @@ class DerivativeIntegralMoment(IntegralMoment):
         """
         dw = self.dot_with.as_sympy()
         assert isinstance(dw, tuple)
+        if any(not d.is_number for d in dw):
+            return None
         return dw
 
     def _eval_symbolic(self, function: AnyFunction) -> AnyFunction:
-- 
2.43.0


From b8b48fd5a8ba2f95b67be8602a166a530bf5c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 41/43] fix: integrate piecewise functions over their own
 pieces in integral functionals

---
 symfem/elements/p1_macro.py |  2 +-
 symfem/functionals.py       | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/symfem/elements/p1_macro.py b/symfem/elements/p1_macro.py
index 6c5d0d3..feac636 100644
--- a/symfem/elements/p1_macro.py
+++ b/symfem/elements/p1_macro.py
@@ -82,4 +82,4 @@ class P1Macro(CiarletElement):
     max_order = 1
     continuity = "C0"
     value_type = "scalar macro"
-    last_updated = "2023.06"
+    last_updated = "2024.10.1"
diff --git a/symfem/functionals.py b/symfem/functionals.py
index e51168e..41959d5 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -81,6 +81,22 @@ def _nth(n: int) -> str:
     return f"{n}th"
 
 
+def _integrate_over(integrand: AnyFunction, domain: Reference) -> ScalarFunction:
+    """Integrate a function written in terms of a domain's own coordinates over the domain.
+
+    Args:
+        integrand: The function, in terms of t
+        domain: The domain of the integral
+
+    Returns:
+        The integral
+    """
+    if isinstance(integrand, PiecewiseFunction):
+        # Each piece is integrated using the piece's own coordinates
+        integrand = integrand.subs(t[: domain.tdim], domain.get_inverse_map_to_self())
+    return integrand.integral(domain)
+
+
 class BaseFunctional(ABC):
     """A functional."""
 
@@ -1002,7 +1018,7 @@ class IntegralAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_over(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1086,7 +1102,7 @@ class IntegralOfDivergenceAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.div().subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_over(integrand, self.integral_domain)
 
     def dot(self, function: ScalarFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1171,7 +1187,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = ScalarFunction(self.scale) * function.subs(x, point)
-        return integrand.integral(self.integral_domain)
+        return _integrate_over(integrand, self.integral_domain)
 
     def perform_mapping(
         self, fs: typing.List[AnyFunction], map: PointType, inverse_map: PointType
@@ -1293,7 +1309,7 @@ class IntegralMoment(BaseFunctional):
 
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_over(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1449,7 +1465,7 @@ class DerivativeIntegralMoment(IntegralMoment):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = self.dot(function.grad(self.integral_domain.gdim).subs(x, point))
-        value = integrand.integral(self.integral_domain)
+        value = _integrate_over(integrand, self.integral_domain)
         return value
 
     name = "Derivative integral moment"
@@ -1494,7 +1510,7 @@ class DivergenceIntegralMoment(IntegralMoment):
                 point[i] += j * k
         assert function.is_vector
         integrand = self.dot(function.div().subs(x, point))
-        return integrand.integral(self.integral_domain)
+        return _integrate_over(integrand, self.integral_domain)
 
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
-- 
2.43.0


From 39aa04f3b2d25e771fe341bf0148ca33e0cb16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 42/43] fix: let basis functions be the right operand of vector
 and matrix functions

---
 symfem/basis_functions.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index f9e890f..c559cd3 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -69,6 +69,8 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
+        if isinstance(other, AnyFunction):
+            return other + self.get_function()
         return self.get_function().__radd__(other)
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
@@ -91,6 +93,8 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
+        if isinstance(other, AnyFunction):
+            return other - self.get_function()
         return self.get_function().__rsub__(other)
 
     def __neg__(self) -> AnyFunction:
@@ -121,6 +125,8 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
+        if isinstance(other, AnyFunction):
+            return other / self.get_function()
         return self.get_function().__rtruediv__(other)
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
@@ -143,6 +149,8 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
+        if isinstance(other, AnyFunction):
+            return other * self.get_function()
         return self.get_function().__rmul__(other)
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
@@ -165,6 +173,8 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
+        if isinstance(other, AnyFunction):
+            return other @ self.get_function()
         return self.get_function().__rmatmul__(other)
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
@@ -178,6 +188,17 @@ class BasisFunction(AnyFunction):
         """
         return self.get_function() ** other
 
+    def __rpow__(self, other: typing.Any) -> AnyFunction:
+        """Raise to a power.
+
+        Args:
+            other: A function to raise to the power of this function.
+
+        Returns:
+            Other to the power of this function
+        """
+        return other ** self.get_function()
+
     def as_sympy(self) -> SympyFormat:
         """Convert to a sympy expression.
 
-- 
2.43.0


From 07c23535fa7a53a5c0397b15f532d498fdb5e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 43/43] fix: make the 3D Hdiv and Hcurl serendipity sets in the
 variables asked for

---
 symfem/polynomials/polysets.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 72b52b7..4b7f685 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,16 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        return [
+            VectorFunction(
+                (
+                    i[2].diff(variables[1]) - i[1].diff(variables[2]),
+                    i[0].diff(variables[2]) - i[2].diff(variables[0]),
+                    i[1].diff(variables[0]) - i[0].diff(variables[1]),
+                )
+            )
+            for i in a
+        ]
 
     raise NotImplementedError()
 
@@ -446,7 +455,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0

