From db22a7f9589f05ce0c5165b107f6eddf3e3ab210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 01/16] fix: zero-dimensional basis function is one, not two

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From 6c3a5d15b78461d6a01492a7f8748f7ec25544a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 02/16] fix: quadrature_for_space raises NotImplementedError
 for tensor product spaces on other shapes

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..43b2d4c 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -339,7 +339,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From cf8c88161874a718ed489a6280c95cc3a1a35735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 03/16] fix: basis lookups reject spaces and shapes of
 different dimensions

---
 modepy/modes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..9fa7f40 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -946,6 +946,9 @@ def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
     else:
@@ -957,6 +960,9 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexONB(space.spatial_dim, space.order)
 
 
@@ -965,6 +971,9 @@ def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
 # }}}
@@ -1139,6 +1148,9 @@ def _monomial_basis_for_tp(space: TensorProductSpace, shape: TensorProductShape)
     if not isinstance(shape, TensorProductShape):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     bases = [
             monomial_basis_for_space(b, s)
             for b, s in zip(space.bases, shape.bases, strict=True)]
-- 
2.43.0


From 23c64fd37bf291884a01de872da33bea20343296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 04/16] fix: exactness of the zero-dimensional rule is modepy's
 infinity

---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 43b2d4c..15b8d96 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From 8044b491937d608856623cb3be92dccad2897181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 05/16] fix: quadrature_for_space accepts tensor product spaces
 of different orders

---
 modepy/quadrature/__init__.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 15b8d96..e16b915 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -344,15 +344,18 @@ def _quadrature_for_tp(
         raise ValueError("spatial dimensions of shape and space must match")
 
     if space.spatial_dim == 0:
-        quad: Quadrature = ZeroDimensionalQuadrature()
-    else:
-        quad = TensorProductQuadrature([
-            quadrature_for_space(sp, shp)
-            for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
-
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
-    return quad
+        return ZeroDimensionalQuadrature()
+
+    quads = [
+        quadrature_for_space(sp, shp)
+        for sp, shp in zip(space.bases, shape.bases, strict=True)
+        ]
+    # NOTE: the orders of the component spaces may differ
+    assert all(
+        quad.exact_to >= getattr(sp, "order", 0)
+        for quad, sp in zip(quads, space.bases, strict=True))
+
+    return TensorProductQuadrature(quads)
 
 # }}}
 
-- 
2.43.0


From 2d47fec3deb169f3ba54661d1c2209f68b7a463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 06/16] fix: rules apply to integrands with any number of
 leading axes

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index e16b915..e675aeb 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -196,7 +196,7 @@ class Quadrature:
         *f* is assumed to accept arrays of shape *(dims, npts)*,
         or of shape *(npts,)* for 1D quadrature.
         """
-        return np.dot(self.weights, f(self.nodes).T).T
+        return np.dot(f(self.nodes), self.weights)
 
 
 class ZeroDimensionalQuadrature(Quadrature):
-- 
2.43.0


From 6cae8f6f1bfe2d4c6860bcd1490782ff4dce3191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 07/16] fix: Jacobi-Gauss-Lobatto weights for all alpha, beta

---
 modepy/quadrature/jacobi_gauss.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..c776793 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -349,16 +349,23 @@ class JacobiGaussLobattoQuadrature(Quadrature):
         # (3.10)
         common_factor = (
             2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
             / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
             / gamma(alpha + beta + 3)
         )
-        edge_weight = (
+        left_weight = (
             common_factor
+            * binom(n + alpha + 1, n)
+            / binom(n + beta + 1, n)
+            * gamma(alpha + 2)
             * gamma(beta + 1)
         )
+        right_weight = (
+            common_factor
+            * binom(n + beta + 1, n)
+            / binom(n + alpha + 1, n)
+            * gamma(alpha + 1)
+            * gamma(beta + 2)
+        )
 
         # (4.7)
         int_nodes = nodes[1:-1]
@@ -370,19 +377,19 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         int_weights = (
             common_factor
+            * binom(n + alpha + 1, n)
+            * binom(n + beta + 1, n)
+            * gamma(alpha + 2)
             * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
+            / (n + 1)**2
             / (frac - int_nodes**2)
             * (1 - int_nodes**2)
             / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
         )
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
+        weights[0] = left_weight
+        weights[-1] = right_weight
         weights[1:-1] = int_weights
 
         if force_dim_axis:
-- 
2.43.0


From d6afc347e340d3fe0411ce3a054923692bce2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 08/16] fix: single-point Gauss-Lobatto node set honours
 force_dim_axis

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index c776793..624c5c7 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From 348df72e0b97a2042fee8506e68495fd2993ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 09/16] fix: raise NotImplementedError for faces of shapes in
 unsupported dimensions

---
 modepy/shapes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..dd401ce 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -453,6 +453,9 @@ _SIMPLEX_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Simplex)
 def faces_for_simplex(shape: Simplex) -> tuple[Face, ...]:
+    if shape.dim not in _SIMPLEX_FACES:
+        raise NotImplementedError(f"faces of simplices in {shape.dim} dimensions")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _SIMPLEX_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
@@ -552,6 +555,9 @@ _HYPERCUBE_FACES: dict[int, tuple[tuple[int, ...], ...]] = {
 
 @faces_for_shape.register(Hypercube)
 def faces_for_hypercube(shape: Hypercube) -> tuple[Face, ...]:
+    if shape.dim not in _HYPERCUBE_FACES:
+        raise NotImplementedError(f"faces of hypercubes in {shape.dim} dimensions")
+
     # NOTE: order is chosen to maintain a positive orientation
     face_vertex_indices = _HYPERCUBE_FACES[shape.dim]
     vertices = unit_vertices_for_shape(shape)
-- 
2.43.0


From 27418c38ec04449db1dd44b0966ce16854b33349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 10/16] fix: take the factor into account in
 Monomial.hypercube_integral

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..9d803d4 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From 8da705f6840821b44d6534d3c673b3e5b327e471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 11/16] fix: flatten linear combinations over bases of any
 length in linearly_combine

---
 modepy/quadrature/construction.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..c2f33fc 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -128,11 +128,9 @@ def linearly_combine(
         return LinearCombinationIntegrand(coefficients, functions)
 
     basis: list[NodalFunction] = []
-    n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
-    for i, f in enumerate(lcfunctions):
+    for f in lcfunctions:
         ncommon = min(len(basis), len(f.functions))
-        if basis[:ncommon]  != f.functions[:ncommon]:
+        if basis[:ncommon] != list(f.functions[:ncommon]):
             warn("Not all functions passed to linearly_combine used the "
                  "same basis. Returning an un-flattened linear combination instead.",
                  stacklevel=2)
@@ -141,8 +139,9 @@ def linearly_combine(
 
         basis.extend(f.functions[ncommon:])
 
-        ncoeff = len(f.coefficients)
-        matrix[i, :ncoeff] = f.coefficients
+    matrix = np.zeros((len(lcfunctions), len(basis)), dtype=np.complex128)
+    for i, f in enumerate(lcfunctions):
+        matrix[i, :len(f.coefficients)] = f.coefficients
 
     # cast because ArrayF is mismatched
     return LinearCombinationIntegrand(cast("ArrayF", coefficients @ matrix), basis)
-- 
2.43.0


From 0348d533adc78a5c69483fab2a427ae1d18eaa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 12/16] fix: quadgk over half-infinite intervals in reversed
 orientation

---
 modepy/quadrature/kronrod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..d457bb5 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -483,6 +483,11 @@ def _do_quadgk(
     if real_endpoints:
         s1, s2 = s[0], s[-1]
         inf1, inf2 = np.isinf(s1), np.isinf(s2)
+        if inf1 != inf2 and s1 > s2:
+            # the transformations below expect ascending break points
+            approx_int, error_est = _do_quadgk(
+                    f, s[::-1], n, abstol, reltol, maxevals)
+            return -approx_int, error_est
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-- 
2.43.0


From 6287afca4b1ec4312063fc72261439c0400468b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 13/16] fix: quad_residual_and_jacobian accepts one-dimensional
 nodes of shape (nnodes,)

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index c2f33fc..fd1622f 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -398,7 +398,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if len(nodes.shape) == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From 2f0185559f915f371c2d5d9f03ccab9821de895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:31 +0000
Subject: [PATCH 14/16] fix: WitherdenVincentQuadrature copies the tabulated
 nodes and weights

---
 modepy/quadrature/witherden_vincent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..a67ec13 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -23,6 +23,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import numpy as np
+
 from modepy.quadrature import Quadrature, QuadratureRuleUnavailable
 
 
@@ -64,5 +66,5 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        super().__init__(np.array(rule["points"]), np.array(rule["weights"]),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From 17ecd75a2ffce5a2c132540acd84a2650dd42afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:39 +0000
Subject: [PATCH 15/16] fix: TensorProductShape can be copied and pickled

---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index dd401ce..edc0345 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
-- 
2.43.0


From cd93bfaa1d9e23e0204205b03d2d585daa712164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:39 +0000
Subject: [PATCH 16/16] fix: QN can be copied and pickled

---
 modepy/spaces.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..1e8c5e8 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -271,12 +271,18 @@ class QN(TensorProductSpace):
 
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
+        self._order: int = order
+
+    @override
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
 
     @property
     @override
     def order(self):
         """Maximum degree of the polynomials in the space."""
-        return self.bases[0].order
+        return self._order
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0

