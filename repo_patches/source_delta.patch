From 9acecf0ade2fc28a27c85dcd81746e934653f594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 01/69] fix: keep the sub-dimensional direction index within
 bounds when densifying Bezier wirebasket edges

---
 cpp/qugar/impl_reparam_bezier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..592bf06 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -491,7 +491,7 @@ namespace {
           Point<sub_dim> new_point = point;
           for (const auto &val : ts) {
 
-            const int dir = std::max(this->base_.dir_k_, dim - 2);
+            const int dir = std::min(this->base_.dir_k_, dim - 2);
             new_point(dir) = (numbers::one - val) * point(dir) + val * old_point(dir);
 
             this->compute_roots(new_point, i, new_roots_i);
-- 
2.43.0


From 257e278a84b5609f54bb5857efb702ef91d2c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/69] fix: do not accumulate twice the single coefficient of
 constant directions in the monomials gradient

---
 cpp/qugar/monomials_tp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..52f84e0 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -286,7 +286,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From b7a56db2f3936286d8112cb73514fcf3c57d6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 03/69] fix: sum all the terms when extracting the upper facets
 of monomials

---
 cpp/qugar/monomials_tp.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 52f84e0..8d1fac2 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,18 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
 
-  TensorIndexTP<dim> lower_bound(0);
+  // At coordinate 0 only the terms independent of the constant direction remain,
+  // while all of them contribute at coordinate 1.
   TensorIndexTP<dim> upper_bound(this->get_order());
   if (side == 0) {
     upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
   }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
 
-  auto new_coef = new_coefs.begin();
-  for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+  for (const auto &tid : TensorIndexRangeTP<dim>(upper_bound)) {
+    const TensorIndexTP<dim - 1> new_tid(qugar::remove_component(tid.as_Vector(), const_dir));
+    at(new_coefs, new_tid.flat(new_order)) += at(this->coefs_, tid.flat(this->get_order()));
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From 08d903825169b745177880bf2fd9c193d6dedb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 04/69] fix: use the nodes requested by the chebyshev flag in
 the Lagrange bases and when orienting cells

---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From 9a310a53c183d9db5bcc0516320532b53e8ae320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 05/69] fix: make the comparison of tensor indices a strict
 order consistent with their flat indices

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From c8a6e29fb4643e3d996b01354025a73ad36562ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 06/69] fix: shift the points and not the weights of 3D
 tensor-product quadratures to the box

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From b10438e412083287723401d55d559a13db01413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 07/69] fix: compute flat tensor indices with 64 bits

---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 cpp/qugar/cart_grid_tp.cpp            | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..56c2792 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= static_cast<std::int64_t>(size(dir));
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..fca4eba 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -218,7 +218,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 09511e05c78115d6ae31d94c9da4c6c68f12a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 08/69] fix: visit no index when iterating an empty tensor
 index range

---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..ac16cc8 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,9 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From 448ed5e280c9437cdcf933b69a7ac4a46de4ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 09/69] fix: match the edges of hexahedra at the corners (1,0)
 and (0,1) between lexicographic and DOLFINx orderings

---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From 4bd1a26e0ae36b70b60bae1c38fafa70b875dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 10/69] fix: return the internal tensor-product indices as a
 flat array, also for single-index directions

---
 python/qugar/mesh/tp_index.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..d2b6ae2 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,23 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
-                n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
-            ).reshape(n_inds[1] - 2, 1)
+            return (
+                internals_1D
+                + np.arange(
+                    n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
+                ).reshape(-1, 1)
+            ).ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
-                n_inds[0] * n_inds[1],
-                n_inds[0] * n_inds[1] * (n_inds[2] - 1),
-                n_inds[0] * n_inds[1],
-                dtype=np.int64,
-            ).reshape(n_inds[2] - 2, 1)
+            return (
+                internals_2D
+                + np.arange(
+                    n_inds[0] * n_inds[1],
+                    n_inds[0] * n_inds[1] * (n_inds[2] - 1),
+                    n_inds[0] * n_inds[1],
+                    dtype=np.int64,
+                ).reshape(-1, 1)
+            ).ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From 3b2e32095cd017e3b2c2c36ac2f9f985f0859cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 11/69] fix: list once every boundary index when a
 tensor-product direction has a single index

---
 python/qugar/mesh/tp_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index d2b6ae2..7751bd0 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -131,6 +131,10 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
+        if np.any(np.asarray(n_inds) == 1):
+            # All the indices are on the boundary.
+            return np.arange(np.prod(n_inds, dtype=np.int64))
+
         if dim == 1:
             faces = TensorProdIndex.get_all_corners(n_inds)
         elif dim == 2:
-- 
2.43.0


From 8d735c8d16d752e534ef8d3207bf3c6b9688c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 12/69] fix: compute tensor-product index sets with 64 bits

---
 python/qugar/mesh/tp_index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 7751bd0..7b724f1 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -57,6 +57,7 @@ class TensorProdIndex:
             the corners.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -88,6 +89,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -128,6 +130,7 @@ class TensorProdIndex:
             indices.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -239,6 +242,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the face.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
@@ -304,6 +308,7 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the edge.
         """
 
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
-- 
2.43.0


From c989d61a068140c038424a8eec940a7258758c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/69] fix: pass an array of cells when computing the tensor
 index of a cell

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..327867f 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -448,7 +448,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 73eaf9baf75554613b0f730d8292ed5fb77c8850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 14/69] fix: pick the DOLFINx local facet of the requested
 lexicographical face

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 327867f..79e03ff 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From f1a30d28b5e1d6dd4f86aabe8453c75cf011804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 15/69] fix: do not pass the ghost mode as active cells when
 creating Cartesian meshes

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 79e03ff..8a9e9d9 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -608,4 +608,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 32b671655c6cf4302823fc77cc03de2f7651987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 16/69] fix: do not overwrite the interior cut facets with the
 empty ones

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From 8e66a372d5dd07c113a559c521c41dbfec4872f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 17/69] fix: tag the empty facets with the empty tag

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From d778c11da2666a5491f7a1b5387f07568dc48ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 18/69] fix: use process-local ids of the facets of a mesh,
 also on the processes other than the first

---
 python/qugar/mesh/mesh_facets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..8bd3030 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -478,7 +478,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -505,6 +505,6 @@ if qugar.utils.has_FEniCSx:
         """
         topology = mesh.topology
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From 60de8ffaf5263f72a706ffba7ea7ffdd1c34b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 19/69] fix: create the facets before listing all the facets of
 a mesh

---
 python/qugar/mesh/mesh_facets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 8bd3030..2501ca0 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -504,6 +504,7 @@ if qugar.utils.has_FEniCSx:
             MeshFacets: A MeshFacets instance with all facets.
         """
         topology = mesh.topology
+        topology.create_connectivity(topology.dim - 1, topology.dim)
         imap = topology.index_map(topology.dim - 1)
         all_facets = np.arange(imap.size_local, dtype=np.int32)
 
-- 
2.43.0


From b3aad882a7dedc331ee1f7d3d7998a5706741db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 20/69] fix: provide the eight permutations of quadrilateral
 facets

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From 472e9089b8f9fa655b5b74e7154ce70e6412882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 21/69] fix: mark the empty interior facets, and only them, as
 empty in the custom coefficients

---
 python/qugar/dolfinx/custom_coefficients.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..2882a20 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,10 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        if interior_facet:
+            all_rel_offsets_[self._get_empty_entities_ids(), 0] = 0
+        else:
+            all_rel_offsets[self._get_empty_entities_ids()] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From 8c7175fbfa5a0f969fd4f7fdf596288652838209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 22/69] fix: keep contiguous the coefficients of both sides of
 interior facets

---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 82 +++++++++++++++------
 2 files changed, 63 insertions(+), 23 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..5d42238 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # For interior facets there are the values of both sides.
+            width = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + width * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 2882a20..47968b5 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,42 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _get_entities_coeffs(coeffs: npt.NDArray, n_entities: int, n_sides: int) -> npt.NDArray:
+    """Gets a view of the coefficients array such that every row
+    contains all the values (contiguous in memory) passed to the kernel
+    of a single entity. This is: one row of the original array for cells
+    and exterior facets, and two for interior facets.
+
+    Args:
+        coeffs (npt.NDArray): Coefficients array.
+        n_entities (int): Number of entities (cells or facets).
+        n_sides (int): Number of rows per entity.
+
+    Returns:
+        npt.NDArray: View of the coefficients.
+    """
+    return coeffs[: n_entities * n_sides].reshape(n_entities, n_sides * coeffs.shape[1])
+
+
+def _copy_original_coeffs(old_coeffs: npt.NDArray, new_coeffs: npt.NDArray, n_sides: int) -> None:
+    """Copies the original (DOLFINx) coefficients into the first values
+    of every entity of the custom coefficients array.
+
+    Note:
+        For interior facets, the coefficients of both sides are
+        interleaved function by function. Thus, all the coefficients of
+        a facet must remain contiguous.
+
+    Args:
+        old_coeffs (npt.NDArray): Original coefficients.
+        new_coeffs (npt.NDArray): Custom coefficients to be modified.
+        n_sides (int): Number of rows per entity.
+    """
+    n_entities = old_coeffs.shape[0] // n_sides
+    old = _get_entities_coeffs(old_coeffs, n_entities, n_sides)
+    _get_entities_coeffs(new_coeffs, n_entities, n_sides)[:, : old.shape[1]] = old
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -213,6 +249,15 @@ class _CustomCoeffsPackerIntegral:
         """
         return self._integral_type == "interior_facet"
 
+    def _get_n_sides(self) -> int:
+        """Gets the number of cells (i.e., of rows of the coefficients
+        array) associated to every entity.
+
+        Returns:
+            int: ``2`` for interior facets, ``1`` otherwise.
+        """
+        return 2 if self._is_interior_facet() else 1
+
     def _is_mixed_dim(self) -> bool:
         """Checks if the current integral presents mixed dimensions.
 
@@ -369,7 +414,7 @@ class _CustomCoeffsPackerIntegral:
 
     def _compute_offsets(self) -> None:
         """Computes the custom coefficients offset and copies them into
-        the extra (right-most) columns of `self._new_coeffs`.
+        `self._new_coeffs`, after the original coefficients of every entity.
 
         Offsets are stored in *real units*: the kernel reads them as
         ``ptrdiff_t`` and adds them to ``(const T*)w`` (cast first, then
@@ -382,13 +427,12 @@ class _CustomCoeffsPackerIntegral:
         ``self._offsets``.
         """
 
-        interior_facet = self._is_interior_facet()
-
-        n_tot_entities = self._domain.shape[0]
-        n_entities = 2 * n_tot_entities if interior_facet else n_tot_entities
+        n_sides = self._get_n_sides()
+        n_entities = self._domain.shape[0]
 
         # Convert column count from coeffs-dtype cells to real-dtype slots.
-        n_cols_complex = self._new_coeffs.shape[1]
+        # For interior facets the rows of both sides are contiguous.
+        n_cols_complex = n_sides * self._new_coeffs.shape[1]
         ratio = self._real_per_complex_ratio()
         n_cols_real = n_cols_complex * ratio
         first_extra_pos = self._offsets_dtype.type(n_entities * n_cols_real)
@@ -396,8 +440,6 @@ class _CustomCoeffsPackerIntegral:
         first_col_pos = (
             np.arange(n_entities, dtype=self._offsets_dtype) * n_cols_real
         )
-        if interior_facet:
-            first_col_pos = first_col_pos[::2]
 
         n_custom_entities = self._custom_entity_ids.size
         if n_custom_entities == 0:
@@ -413,16 +455,9 @@ class _CustomCoeffsPackerIntegral:
         # The offset for the full entities are set to -1.
         all_rel_offsets = np.full(n_entities, -1, dtype=rel_offsets.dtype)
         # Then we set the offsets for the custom entities.
-        if interior_facet:
-            all_rel_offsets_ = all_rel_offsets.reshape(-1, 2)
-            all_rel_offsets_[self._custom_entity_ids, 0] = rel_offsets
-        else:
-            all_rel_offsets[self._custom_entity_ids] = rel_offsets
+        all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        if interior_facet:
-            all_rel_offsets_[self._get_empty_entities_ids(), 0] = 0
-        else:
-            all_rel_offsets[self._get_empty_entities_ids()] = 0
+        all_rel_offsets[self._get_empty_entities_ids()] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
@@ -449,7 +484,11 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        # The offset is placed right after the original coefficients of the
+        # entity (of both sides in the case of interior facets).
+        first_col = n_sides * (self._new_coeffs.shape[1] - n_extra_cols)
+        entities_coeffs = _get_entities_coeffs(self._new_coeffs, n_entities, n_sides)
+        entities_coeffs[:, first_col : first_col + n_extra_cols] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -801,8 +840,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_original_coeffs(self._old_coeffs, self._new_coeffs, self._get_n_sides())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -991,9 +1029,9 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            n_sides = 2 if itg_info[0] == IntegralType.interior_facet else 1
+            _copy_original_coeffs(_new_coeffs_dlf, c, n_sides)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 9aaa467ad8aabef34f17f6dc9b11e9bab8c9352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 23/69] fix: update each form of a list with its own
 coefficients

---
 python/qugar/dolfinx/petsc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..9596094 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,21 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form, sub_coeffs)
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From 243d2ea3addc4c1aed8cd0690d14d35d59b7e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 24/69] fix: do not drop the forms of a list

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..c70a415 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -358,6 +358,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From 919957adcf19e5d104d1d0ad576242facfccc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 25/69] fix: account for tuples of subdomains when creating the
 id of exterior facets everywhere

---
 python/qugar/dolfinx/forms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index c70a415..e28fd8f 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -152,8 +152,10 @@ def _modify_everywhere_exterior_facet_integrals(form):
         subdomain_id = -1
         for integral in form.integrals():
             if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
+                ids = integral.subdomain_id()
+                for id in ids if isinstance(ids, tuple) else (ids,):
+                    if isinstance(id, int):
+                        subdomain_id = max(subdomain_id, id)
         return subdomain_id + 1
 
     old_integrals = list(form.integrals())
-- 
2.43.0


From 9a15ed9769026b3b4cdb754fa99ad70222405ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 26/69] fix: do not modify the forms, integrals and metadata of
 exterior facets everywhere

---
 python/qugar/dolfinx/forms.py | 45 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index e28fd8f..9846443 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -141,43 +141,47 @@ def _modify_everywhere_exterior_facet_integrals(form):
     case of unfitted meshes, exterior facets integral may need to be
     computed over non exterior facets.
 
+    Note:
+        Neither the given form nor its integrals (or their metadata),
+        that may be shared with other forms, are modified.
+
     Args:
         form: The dolfinx form object.
 
     Returns:
-        The modified dolfinx form object.
+        The form with the modified integrals.
     """
 
-    def _get_max_subdomain_id():
+    def _get_max_subdomain_id(integrals):
         subdomain_id = -1
-        for integral in form.integrals():
+        for integral in integrals:
             if integral.integral_type() == "exterior_facet":
                 ids = integral.subdomain_id()
-                for id in ids if isinstance(ids, tuple) else (ids,):
+                ids = list(ids) if isinstance(ids, tuple) else [ids]
+                if isinstance(integral.subdomain_data(), list):
+                    ids.extend(int(data[0]) for data in integral.subdomain_data())
+                for id in ids:
                     if isinstance(id, int):
                         subdomain_id = max(subdomain_id, id)
         return subdomain_id + 1
 
-    old_integrals = list(form.integrals())
+    integrals = list(form.integrals())
+    new_subdomain_id = _get_max_subdomain_id(integrals)
+    is_modified = False
 
-    for i, integral in enumerate(form.integrals()):
+    for i, integral in enumerate(integrals):
         if integral.integral_type() == "exterior_facet":
             # Check if the integral is over the whole domain
             if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
+                integrals[i] = integral.reconstruct(
+                    subdomain_id=new_subdomain_id,
+                    metadata={**integral.metadata(), "ext_facet_everywhere": True},
                 )
+                integrals[i]._subdomain_data = None
+                new_subdomain_id += 1
+                is_modified = True
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
-
-    return form, tuple(old_integrals)
+    return ufl.Form(integrals) if is_modified else form
 
 
 def form_custom(
@@ -248,7 +252,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -336,9 +340,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 2938f5f4d4b1301f8bcac3e61dad8e76d47edd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 27/69] fix: use the data of the subdomains, without modifying
 it, also together with exterior facets everywhere

---
 python/qugar/dolfinx/forms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 9846443..eecbeb7 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -263,8 +263,11 @@ def form_custom(
         assert isinstance(unf_domain, UnfittedDomainABC)
 
         # Check that subdomain data for each integral type is the same
-        for data in sd.get(domain).values():
-            assert all([d is data[0] for d in data if d is not None])
+        # (except for the ones without data).
+        subdomain_data = {}
+        for itg_type, data in sd.get(domain).items():
+            subdomain_data[itg_type] = next((d for d in data if d is not None), None)
+            assert all([d is subdomain_data[itg_type] for d in data if d is not None])
 
         msh = domain.ufl_cargo()
         if msh is None:
@@ -330,10 +333,10 @@ def form_custom(
         # Subdomain markers (possibly empty list for some integral
         # types)
         subdomains = {
-            _ufl_to_dolfinx_domain[key]: get_integration_domains(
-                _ufl_to_dolfinx_domain[key], subdomain_data[0], subdomain_ids[key]
+            _ufl_to_dolfinx_domain[key]: list(
+                get_integration_domains(_ufl_to_dolfinx_domain[key], data, subdomain_ids[key])
             )
-            for (key, subdomain_data) in sd.get(domain).items()
+            for (key, data) in subdomain_data.items()
         }
 
         for subdomain_id in everywhere_ext_facet_ids:
-- 
2.43.0


From ddff876c8bc71273e79cf5139208becb6d0fa413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 28/69] fix: never leave a partially built tabulation library
 in the cache

---
 python/qugar/dolfinx/_shim/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..c17b4d1 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,11 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Build in a temporary file, such that the library is either absent
+        # (or the old one) or complete: the fast path above takes no lock,
+        # and a build may be interrupted at any point.
+        tmp_lib = cache / f".{_LIB_FILENAME}.{os.getpid()}.tmp"
+
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,7 +161,7 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp_lib),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
@@ -167,7 +172,11 @@ def ensure_built() -> tuple[Path, str]:
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        try:
+            subprocess.run(cmd, check=True)
+            os.replace(tmp_lib, lib)
+        finally:
+            tmp_lib.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From fc8a4a332687521be7c02fa129f9fdc35fa1bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 29/69] fix: let kernels of several threads share the elements
 of the tabulation shim

---
 .../qugar/dolfinx/_shim/qugar_basix_shim.cpp  | 52 ++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
index 0dc4b1f..39532e1 100644
--- a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
+++ b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
@@ -17,8 +17,11 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <exception>
 #include <map>
+#include <mutex>
+#include <shared_mutex>
 #include <span>
 #include <utility>
 #include <vector>
@@ -27,13 +30,29 @@ using namespace basix;
 
 namespace {
 // One registry per real type. Static => created once, lives for the process,
-// freed via qugar_shim_reset(). Handles are indices into these vectors.
-template<typename T> std::vector<FiniteElement<T>> &registry()
+// freed via qugar_shim_reset(). Handles are indices into these containers,
+// whose elements do not move when new ones are registered.
+template<typename T> std::deque<FiniteElement<T>> &registry()
 {
-  static std::vector<FiniteElement<T>> r;
+  static std::deque<FiniteElement<T>> r;
   return r;
 }
 
+// Kernels may run concurrently: it protects the registries and their indices.
+std::shared_mutex &registry_mutex()
+{
+  static std::shared_mutex m;
+  return m;
+}
+
+// Registered element of the given handle, nullptr if there is none.
+template<typename T> const FiniteElement<T> *find_element(int handle)
+{
+  const std::shared_lock lock(registry_mutex());
+  auto &r = registry<T>();
+  return handle < 0 || handle >= static_cast<int>(r.size()) ? nullptr : &r[handle];
+}
+
 // Dedup index: (family,cell,degree,lvariant,dvariant,discontinuous) -> handle.
 // The generated kernel calls register on every cell; dedup guarantees the
 // element is created exactly ONCE and later calls are a cheap map lookup.
@@ -48,8 +67,15 @@ template<typename T> std::map<ElementKey, int> &index()
 template<typename T> int register_impl(int family, int cell, int degree, int lvariant, int dvariant, int discontinuous)
 {
   const ElementKey key{ family, cell, degree, lvariant, dvariant, discontinuous };
+  {
+    const std::shared_lock lock(registry_mutex());
+    if (auto it = index<T>().find(key); it != index<T>().end())
+      return it->second;// already created -> return cached handle
+  }
+
+  const std::unique_lock lock(registry_mutex());
   if (auto it = index<T>().find(key); it != index<T>().end())
-    return it->second;// already created -> return cached handle
+    return it->second;// created meanwhile by another thread
 
   try {
     FiniteElement<T> el = create_element<T>(static_cast<element::family>(family),
@@ -72,11 +98,11 @@ template<typename T> int register_impl(int family, int cell, int degree, int lva
 template<typename T> int shape_impl(int handle, int nd, int npts, long *out4)
 {
   try {
-    auto &r = registry<T>();
-    if (handle < 0 || handle >= static_cast<int>(r.size()))
+    const FiniteElement<T> *el = find_element<T>(handle);
+    if (el == nullptr)
       return -3;
     std::array<std::size_t, 4> s =
-      r[handle].tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
+      el->tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
     for (int i = 0; i < 4; ++i)
       out4[i] = static_cast<long>(s[i]);
     return 0;
@@ -89,15 +115,14 @@ template<typename T>
 int tabulate_impl(int handle, int nd, const T *x, int npts, int gdim, T *basis, long basis_capacity)
 {
   try {
-    auto &r = registry<T>();
-    if (handle < 0 || handle >= static_cast<int>(r.size()))
+    const FiniteElement<T> *el = find_element<T>(handle);
+    if (el == nullptr)
       return -3;
-    const FiniteElement<T> &el = r[handle];
-    std::array<std::size_t, 4> s = el.tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
+    std::array<std::size_t, 4> s = el->tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
     const std::size_t need = s[0] * s[1] * s[2] * s[3];
     if (static_cast<long>(need) > basis_capacity)
       return -4;// caller's buffer too small
-    el.tabulate(nd,
+    el->tabulate(nd,
       std::span<const T>(x, static_cast<std::size_t>(npts) * gdim),
       { static_cast<std::size_t>(npts), static_cast<std::size_t>(gdim) },
       std::span<T>(basis, need));
@@ -168,14 +193,17 @@ float *qugar_get_scratch_f32(long n)
 // Introspection / teardown.
 int qugar_registry_size_f64()
 {
+  const std::shared_lock lock(registry_mutex());
   return (int)registry<double>().size();
 }
 int qugar_registry_size_f32()
 {
+  const std::shared_lock lock(registry_mutex());
   return (int)registry<float>().size();
 }
 void qugar_shim_reset()
 {
+  const std::unique_lock lock(registry_mutex());
   registry<double>().clear();
   registry<float>().clear();
   index<double>().clear();
-- 
2.43.0


From 4850895957049d34d4aa3625bc6894654d8f6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 30/69] fix: use the highest degree requested among the
 integrands sharing a quadrature

---
 python/qugar/dolfinx/quadrature_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..a602d0d 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,11 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Integrands with different degrees may share the points
+                # (e.g., all the ones over unfitted boundaries). The
+                # highest degree requested prevails.
+                previous = quads_data.get(quad_data.name)
+                if previous is None or previous.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From accbb72267efcc5e3b8570f6c718b273a21ce20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 31/69] fix: accept integrands restricted to a single side of
 the interior facets

---
 python/qugar/dolfinx/codegeneration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 5d42238..908096b 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -218,19 +218,21 @@ class _IntegralModifier:
                 indices.add(int(index_str))
             return indices
 
+        # An integrand restricted to a single side of the interior facets
+        # only accesses one of the two indices.
         target_indices = {
             "cell": set(),
             "exterior_facet": set([0]),
             "interior_facet": set([0, 1]),
         }
         idx = _collected_indices(r"entity_local_index\[(\w+)\]")
-        if idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'entity_local_index' array."
             )
 
         idx = _collected_indices(r"quadrature_permutation\[(\w+)\]")
-        if len(idx) > 0 and idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'quadrature_permutation' array."
             )
-- 
2.43.0


From 6b9aba54354946152852020a664076cfd15a25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 32/69] fix: load the points of quadratures whose tables are
 all shared with other quadratures

---
 python/qugar/dolfinx/_kernel_body.py  | 8 +++++---
 python/qugar/dolfinx/integral_data.py | 7 +++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..1ba28d0 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -206,10 +206,12 @@ class KernelBody:
             # opening ``{`` (preserves FFCx's "\n{" formatting).
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
-            # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # Identify the quadrature this loop belongs to. The tables
+            # accessed may be named after other quadratures (FFCx shares
+            # equal tables), the weights not.
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..59ecc3e 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -187,6 +187,13 @@ def extract_integral_data(
         if FE_table.element_dim != tdim:
             is_mixed_dim = True
 
+    # The tables of an integrand may all be shared with other integrands
+    # (FFCx only stores equal tables once), but its quadrature loop still
+    # needs its own points and weights.
+    for _cell_type, rule in itg_ir.expression.integrand.keys():
+        hash(rule)  # needed for calling rule.id()
+        quad_FE_tables.setdefault(all_quads_data[rule.id()], [])
+
     return IntegralData(
         short_itg_name,
         itg_ids,
-- 
2.43.0


From d0ad1956392af3ec28f54d12f80661b34bd13c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 33/69] fix: use the component and derivatives of the element a
 shared table is associated to

---
 python/qugar/dolfinx/fe_table.py | 36 ++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..ef63cbb 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -366,17 +366,30 @@ class FETable:
             else:
                 assert False, f"Invalid finite element option: {opt}."
 
-    def _set_element(self, element: BasixElement) -> None:
-        """Sets the element associated to the table.
+    def _set_element(
+        self,
+        element: BasixElement,
+        component: int,
+        derivatives: tuple[int, ...],
+    ) -> None:
+        """Sets the element associated to the table, together with the
+        component and derivatives of that element stored in the table.
 
         This method is used for setting the element after the table
-        has been created. If not previously set, it also sets the
-        derivates of the table to 0.
+        has been created. The table may be shared by several elements
+        (FFCx only stores equal tables once), so the component and
+        derivatives in the name of the table do not necessarily refer to
+        the given element.
 
         Args:
             element (BasixElement): Element associated to the table.
+            component (int): Component of the element.
+            derivatives (tuple[int, ...]): Order of the derivatives
+                along the parametric directions.
         """
         self._element = element
+        self._component = component
+        self._derivatives = tuple(derivatives)
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
 
@@ -485,21 +498,22 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
 
 def _build_table_name_to_element_map(
     ir_itg: IntegralIR,
-) -> dict[str, BasixElement]:
-    """Build a (C-code table name -> Basix element) map directly from
-    the FFCx IR factorization graph.
+) -> dict[str, tuple[BasixElement, int, tuple[int, ...]]]:
+    """Build a (C-code table name -> Basix element, component, and
+    derivatives) map directly from the FFCx IR factorization graph.
 
     In FFCx 0.10.0 each terminal node in the factorization graph
     already carries both its ``UniqueTableReferenceT`` (``node["tr"]``,
     whose ``.name`` matches the C-code table name) and its
     ``ModifiedTerminal`` (``node["mt"]``, from which the originating
-    Basix element is recovered via ``get_modified_terminal_element``).
+    Basix element, its component, and derivatives are recovered via
+    ``get_modified_terminal_element``).
     Walk the graph and harvest the (table name -> element) pairs
     directly, instead of evaluating each candidate element at the
     table's quadrature points and value-matching against the C-code
     table values.
     """
-    result: dict[str, BasixElement] = {}
+    result: dict[str, tuple[BasixElement, int, tuple[int, ...]]] = {}
     for _key, integrand in ir_itg.expression.integrand.items():
         for node in integrand["factorization"].nodes.values():
             tr = node.get("tr")
@@ -509,7 +523,7 @@ def _build_table_name_to_element_map(
             mte = get_modified_terminal_element(mt)
             if mte is None:
                 continue
-            result[tr.name] = mte.element
+            result[tr.name] = (mte.element, mte.fc, mte.local_derivatives)
     return result
 
 
@@ -566,6 +580,6 @@ def extract_FE_tables(
         for m in re.finditer(FETable.pattern, code)
     ]
     for FE_table in FE_tables:
-        FE_table._set_element(table_to_element[FE_table.name])
+        FE_table._set_element(*table_to_element[FE_table.name])
 
     return _sort_FE_tables(FE_tables)
-- 
2.43.0


From ea127f5fcca2756528c801f9f5f7acff9b60de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 34/69] fix: evaluate at the custom points the tables of
 quadratures with a single point

---
 python/qugar/dolfinx/_kernel_body.py | 29 +++++++++++------
 python/qugar/dolfinx/fe_table.py     | 47 +++++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 1ba28d0..d961c02 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -325,7 +325,9 @@ class KernelBody:
         self.loops[0].pre_text = ""
         if cnt_vars:
             for loop in self.loops:
-                loop.body = cnt_vars + loop.body
+                # The own scope of the loop's body is kept, as it may
+                # redeclare variables of the band.
+                loop.body = cnt_vars + "{" + loop.body + "}\n"
         return self
 
     def break_unfitted_loops(self) -> "KernelBody":
@@ -378,7 +380,7 @@ class KernelBody:
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
         has_perms = self.integral_type == "interior_facet"
 
-        def transform(text: str) -> str:
+        def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
             pos = 0
             for m in fe_re.finditer(text):
@@ -389,19 +391,28 @@ class KernelBody:
                     out.append(text[pos: m.end()])
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
+                    # The tables of other quadratures do not follow the
+                    # points of the loop.
+                    point_index = "iq" if table.quad_name == quad_name else "0"
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(
+                        table.create_new_access_code(
+                            indices, has_perms, point_index
+                        )
+                    )
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
 
-        # Apply to the pre-loop band and every loop body. Loop headers
-        # never contain FE accesses; post_text is just the function's
-        # closing '}' so it doesn't either.
-        if self.loops:
-            self.loops[0].pre_text = transform(self.loops[0].pre_text)
+        # The pre-loop band may depend on the points (see
+        # :meth:`FETable.is_constant_for_pts`).
+        self.inline_pre_loop_into_loops()
+
+        # Apply to every loop body. Loop headers never contain FE
+        # accesses; post_text is just the function's closing '}' so it
+        # doesn't either.
         for loop in self.loops:
-            loop.body = transform(loop.body)
+            loop.body = transform(loop.body, loop.quad_name)
         return self
 
     def dynamic_loop_bounds(self) -> "KernelBody":
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index ef63cbb..060eafb 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -19,6 +19,7 @@ if not has_FEniCSx:
 import hashlib
 import re
 
+import basix
 import numpy as np
 from basix.ufl import _BasixElement as BasixElement
 from ffcx.ir.elementtables import get_modified_terminal_element
@@ -208,11 +209,16 @@ class FETable:
         Therefore, from the point of view of custom quadratures, the
         values of these tables will not change.
 
+        FFCx determines the type of the table from its values at the
+        points of the original quadrature. They may be equal also for
+        functions that are not constant (e.g., if there is a single
+        point). Those functions must be evaluated at the custom points.
+
         Returns:
-            bool: Whether the table is constant for all the points.
+            bool: Whether the table is constant or not.
         """
-        n_quad_pts = self._quad_data.rule.points.shape[0]  # type: ignore
-        return n_quad_pts > 1 and self._table_type in [
+
+        return self._has_constant_values and self._table_type in [
             "fixed",
             "piecewise",
             "zeros",
@@ -392,6 +398,24 @@ class FETable:
         self._derivatives = tuple(derivatives)
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
+        self._has_constant_values = self._check_constant_values()
+
+    def _check_constant_values(self) -> bool:
+        """Checks if the component and derivative of the element stored
+        in the table are constant functions over the cell.
+
+        Returns:
+            bool: Whether the functions are constant or not.
+        """
+        vertices = basix.geometry(self._element.cell_type)
+        center = vertices.mean(axis=0)
+        # Points of the cell, close to its vertices, in general position.
+        scale = np.linspace(0.7, 0.9, vertices.shape[0])[:, None]
+        points = center + scale * (vertices - center)
+        component_element, _, _ = self._element.get_component_element(self._component)
+        table = component_element.tabulate(sum(self._derivatives), points)
+        values = table[basix.index(*self._derivatives)]
+        return np.allclose(values, values[0], rtol=1.0e-6, atol=1.0e-9)
 
     def _set_derivatives(self, elem_dim: int) -> None:
         """Sets the derivatives of the table.
@@ -402,7 +426,12 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    def create_new_access_code(
+        self,
+        indices: tuple[str, ...],
+        has_permutations: bool,
+        point_index: str = "iq",
+    ) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -422,6 +451,9 @@ class FETable:
                 4-dimensional FE table.
             has_permutations (bool): Flat indicating if permutations
                 must be considered (mostly, for interior facets).
+            point_index (str): Index of the point to use if the original
+                access does not depend on the point, what happens if the
+                original table had the same values at all the points.
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -448,12 +480,13 @@ class FETable:
 
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        pts_index = point_index if indices[2].strip() == "0" else indices[2]
+        for index, offset in zip((pts_index, indices[3]), offsets):
             new_index = transform_index(index)
             if new_index != 0:
-                terms.append(f"{offset}{index}")
+                terms.append(f"{offset}{new_index}")
 
-        plain_index = " + ".join(terms)
+        plain_index = " + ".join(terms) if terms else "0"
 
         new_access = f"{self._name}"
         if perm_index is not None:
-- 
2.43.0


From c4f3f89211ba3c949ce2fe06da2328a7c666f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 35/69] fix: keep alive the tables of all the quadratures of an
 integral

---
 python/qugar/dolfinx/codegeneration.py | 83 +++++++++++++++-----------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 908096b..24e56eb 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -433,6 +433,21 @@ class _IntegralModifier:
         is_interior_facet = self._data.integral_type == "interior_facet"
 
         call_code = ""
+
+        # The data of all the quadratures is alive at the same time, while
+        # the scratch is only valid until it is requested again. Thus, it
+        # is requested once for all of them, after loading all the points.
+        scratch_var = "scratch"
+        scratch_terms: list[str] = []
+        max_funcs = 0
+        tabulate_code = ""
+
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
+
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -488,6 +503,7 @@ class _IntegralModifier:
             # stack for higher-degree 3D forms (e.g. P3 hex), so we offset
             # into the scratch instead.
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
+            max_funcs = max([max_funcs] + [t.funcs for t in varying])
 
             groups: dict[tuple, list[tuple[FETable, dict]]] = {}
             for table in varying:
@@ -497,7 +513,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -523,20 +538,6 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
-
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
-
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
-
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
                  any_perm, blk_size_expr) = gd
@@ -550,32 +551,32 @@ class _IntegralModifier:
                            if (mixed_dim and gdim != tdim)
                            else points_name)
 
-                call_code += (
+                tabulate_code += (
                     f"const int {handle} = qugar_register_element_{suffix}"
                     f"({fam}, {cell}, {deg}, {lv}, {dv}, {disc});\n"
                     f"if ({handle} < 0) return;\n"
                 )
-                call_code += (
+                tabulate_code += (
                     f"{dtype_str}* {blk0} = {scratch_var} + ({_cur_offset()});\n"
                 )
                 offsets.append(blk_size_expr)
-                call_code += (
+                tabulate_code += (
                     f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, {pts_var}, "
                     f"{n_pts_name}, {gdim}, {blk0}, "
                     f"(long)({blk_size_expr})) != 0) return;\n"
                 )
                 if any_perm:
-                    call_code += (
+                    tabulate_code += (
                         f"{dtype_str}* {blk1} = {scratch_var} + "
                         f"({_cur_offset()});\n"
                     )
                     offsets.append(blk_size_expr)
-                    call_code += (
+                    tabulate_code += (
                         f"if (qugar_tabulate_{suffix}({handle}, {maxnd}, "
                         f"{points_side1_name}, {n_pts_name}, {gdim}, "
                         f"{blk1}, (long)({blk_size_expr})) != 0) return;\n"
                     )
-                call_code += "\n"
+                tabulate_code += "\n"
 
                 for table, info in items:
                     funcs = table.funcs
@@ -589,18 +590,18 @@ class _IntegralModifier:
                         # directly into the block -- no copy.
                         off_in_blk = f"{didx} * {n_pts_name} * {funcs}"
                         if two_sided:
-                            call_code += (
+                            tabulate_code += (
                                 f"const {dtype_str}* restrict "
                                 f"{table.name}[2];\n"
                             )
-                            call_code += (
+                            tabulate_code += (
                                 f"{table.name}[0] = {blk0} + {off_in_blk};\n"
                             )
-                            call_code += (
+                            tabulate_code += (
                                 f"{table.name}[1] = {blk1} + {off_in_blk};\n\n"
                             )
                         else:
-                            call_code += (
+                            tabulate_code += (
                                 f"const {dtype_str}* restrict {table.name} = "
                                 f"{blk0} + {off_in_blk};\n\n"
                             )
@@ -629,38 +630,48 @@ class _IntegralModifier:
                     if two_sided:
                         buf0 = f"{table.name}_buf_0"
                         buf1 = f"{table.name}_buf_1"
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf0} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf1} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf0, blk0)
-                        call_code += _repack_into(buf1, blk1)
-                        call_code += (
+                        tabulate_code += _repack_into(buf0, blk0)
+                        tabulate_code += _repack_into(buf1, blk1)
+                        tabulate_code += (
                             f"const {dtype_str}* restrict "
                             f"{table.name}[2];\n"
                         )
-                        call_code += f"{table.name}[0] = {buf0};\n"
-                        call_code += f"{table.name}[1] = {buf1};\n\n"
+                        tabulate_code += f"{table.name}[0] = {buf0};\n"
+                        tabulate_code += f"{table.name}[1] = {buf1};\n\n"
                     else:
                         buf = f"{table.name}_buf"
-                        call_code += (
+                        tabulate_code += (
                             f"{dtype_str}* {buf} = {scratch_var} + "
                             f"({_cur_offset()});\n"
                         )
                         offsets.append(buf_size_expr)
-                        call_code += _repack_into(buf, blk0)
-                        call_code += (
+                        tabulate_code += _repack_into(buf, blk0)
+                        tabulate_code += (
                             f"const {dtype_str}* restrict {table.name} = "
                             f"{buf};\n\n"
                         )
 
-        return call_code
+        if scratch_terms:
+            # The loops of other quadratures may read (and discard) the
+            # first point of a table that has no points.
+            scratch_terms.append(str(max_funcs))
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
+
+        return call_code + tabulate_code
 
     def _create_non_custom_quad_function(self) -> str:
         """Creates a copy of the original FFCx function (signature +
-- 
2.43.0


From c605da5e4f44c979879eb847c42ce6785a8fbbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 36/69] fix: distinguish both sides of interior facets also for
 tables without permutations

---
 python/qugar/dolfinx/codegeneration.py | 15 ++++++-------
 python/qugar/dolfinx/fe_table.py       | 31 +++++++++++++++-----------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 24e56eb..83e6afa 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -492,10 +492,10 @@ class _IntegralModifier:
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
-            # agree on both sides).
+            # two basix blocks are produced (one per side) and the tables
+            # get an FE..[2] array of per-side buffers: the custom points
+            # of both sides differ, also for the tables that FFCx found
+            # equal for all the permutations of the original points.
             #
             # All buffers (basix blocks + per-table repack buffers when
             # vs > 1) live in a SINGLE thread-local scratch obtained from
@@ -518,8 +518,7 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_perm = is_interior_facet
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -533,7 +532,7 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if is_interior_facet:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
@@ -581,7 +580,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = is_interior_facet
 
                     if vs == 1:
                         # The basix block's layout already matches the
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index 060eafb..5fe6d54 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -442,15 +442,15 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
-        facet integrals), the access will be something like
-        ``FE_C0_D10_Q48f[i][index]``.
+        For interior facet integrals, the access will be something like
+        ``FE_C0_D10_Q48f[i][index]``, where ``i`` is the side of the
+        facet the original access refers to.
 
         Args:
             indices (tuple[str]): Four indices for accessing the
                 4-dimensional FE table.
-            has_permutations (bool): Flat indicating if permutations
-                must be considered (mostly, for interior facets).
+            has_permutations (bool): Flat indicating if the two sides
+                must be considered (i.e., for interior facets).
             point_index (str): Index of the point to use if the original
                 access does not depend on the point, what happens if the
                 original table had the same values at all the points.
@@ -461,12 +461,17 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
-            assert match
-            perm_index = int(match.group(1))
+        side_index = None
+        if has_permutations:
+            match = re.search(
+                r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]",
+                indices[0] + " " + indices[1],
+            )
+            if match is None:
+                raise ValueError(
+                    f"Side of the access to the table {self._name} not found."
+                )
+            side_index = int(match.group(1))
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
@@ -489,8 +494,8 @@ class FETable:
         plain_index = " + ".join(terms) if terms else "0"
 
         new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
+        if side_index is not None:
+            new_access += f"[{side_index}]"
         new_access += f"[{plain_index}]"
 
         return new_access
-- 
2.43.0


From 97958145e2451d01f05a73e6a87289b1ec45bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 37/69] fix: do not let FFCx identify different functions over
 unfitted boundaries

---
 python/qugar/dolfinx/boundary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..542aed2 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -116,8 +116,10 @@ class ds_bdry_unf(ufl.Measure):
 
     # Static definition of (fake) custom quadrature points and weights.
     _weights = [-1.0, -1.0]
-    _points_2D = [[0.1, 0.1], [0.2, 0.2]]
-    _points_3D = [[0.1, 0.1, 0.1], [0.2, 0.2, 0.2]]
+    # The points are in general position: FFCx identifies functions that
+    # take the same values at the points of a quadrature.
+    _points_2D = [[0.1, 0.3], [0.2, 0.15]]
+    _points_3D = [[0.1, 0.3, 0.22], [0.2, 0.15, 0.37]]
 
     def __init__(
         self,
-- 
2.43.0


From adafe0cca4cbbb8f65c2d3e095e3c8a357a235f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 38/69] fix: refuse the elements that cannot be created at
 runtime instead of ignoring their integrals

---
 python/qugar/dolfinx/codegeneration.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 83e6afa..e6a9bfb 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -315,6 +315,10 @@ class _IntegralModifier:
         For mixed elements (``basix.ufl._MixedElement``), drills into the
         sub-element that owns ``table.component`` so the basix block is
         tabulated for the right sub-element.
+
+        Raises:
+            ValueError: If the core element cannot be created again at
+                runtime from the parameters (e.g., custom elements).
         """
         el, local_c = _IntegralModifier._resolve_mixed_component(
             table.element, table.component)
@@ -329,6 +333,20 @@ class _IntegralModifier:
             int(be.dpc_variant),
             int(be.discontinuous),
         )
+        if be.family == basix.ElementFamily.custom or be != basix.create_element(
+            be.family,
+            be.cell_type,
+            be.degree,
+            be.lagrange_variant,
+            be.dpc_variant,
+            be.discontinuous,
+            dtype=be.dtype,
+        ):
+            raise ValueError(
+                f"Custom quadratures do not support the element {el}, that "
+                "cannot be created from its family, cell type, degree, and "
+                "variants."
+            )
         gdim = table.element_dim
         vs = 1 if block_size > 1 else int(el.reference_value_size)
         derivs = list(table.derivatives) if table.derivatives else []
-- 
2.43.0


From bc45db50041b1f5c0df9bb71062ae0fa13e0e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 39/69] fix: complete the reference systems around axes
 (almost) parallel to the x-axis

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From 7d056064aebda08f2f9997f58529bc1e6e671630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 40/69] fix: do not ignore the axis in the Hessian of cylinders

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..d4a491e 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From af6fa17055929d19b5148ff91cbabf9339f1d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 41/69] fix: account for both radii in the gradient and Hessian
 of annuli

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index d4a491e..c936935 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -493,13 +493,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const auto aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From 1a4f22b05e9e1a0d17ddfbb823a702c0b703b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 42/69] fix: pick the right coefficients for the yz Hessian
 component of trilinear functions

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..56d0f75 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      ((cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0)),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 44ca5e79623a1f02c8027b207fd1c9fa56478b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 43/69] fix: evaluate at both coordinates the xz Hessian
 component of the gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..9fd8cf0 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(0)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From 43eba2fdfda4fe8014b7147ca4c1e0d97aaf4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 44/69] fix: use the period along y in the y-derivative of the
 Schoen IWP function

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index 9fd8cf0..a2344a6 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From e351db776cb4fe63b2fc9baf629f28d15bda46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 45/69] fix: bound the square function and its gradient all
 over the boxes of intervals

---
 cpp/qugar/impl_funcs_lib.cpp | 88 +++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 21 deletions(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 56d0f75..5ab1f7a 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -25,11 +25,13 @@
 #include <qugar/types.hpp>
 #include <qugar/vector.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cmath>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 namespace qugar::impl::funcs {
 
@@ -45,40 +47,84 @@ template<int dim> Square<dim>::Square(const AffineTransf<dim> &transf) : FuncWit
 
 implement_impl_func_transf(Square);
 
-template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
-{
-  Vector<real, dim> diff;
-
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
-      diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
+namespace {
+
+  //! @brief Bounds of the absolute values of the components of a point of intervals.
+  //!
+  //! @tparam T Interval type.
+  //! @param point Point of intervals.
+  //! @return Lower and upper bounds of the absolute value of every component.
+  template<typename T, int dim>
+  std::pair<Vector<real, dim>, Vector<real, dim>> compute_abs_bounds(const Point<dim, T> &point)
+  {
+    std::pair<Vector<real, dim>, Vector<real, dim>> bounds;
+    for (int dir = 0; dir < dim; ++dir) {
+      const T val(point(dir));
+      const real mid = std::abs(val.alpha);
+      const real dev = val.maxDeviation();
+      bounds.first(dir) = std::max(numbers::zero, mid - dev);
+      bounds.second(dir) = mid + dev;
     }
+    return bounds;
   }
 
+  //! @brief Checks if the absolute value of a component is the largest one (and
+  //! the component does not change sign) all over a box of intervals.
+  template<int dim>
+  bool is_dominant(const std::pair<Vector<real, dim>, Vector<real, dim>> &bounds, const int ind)
+  {
+    const auto &[lower, upper] = bounds;
+    bool dominant = lower(ind) > numbers::zero;
+    for (int dir = 0; dir < dim; ++dir) { dominant = dominant && (dir == ind || lower(ind) >= upper(dir)); }
+    return dominant;
+  }
+
+}// namespace
+
+template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
+{
   if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff;
+    for (int dir = 0; dir < dim; ++dir) { diff(dir) = std::abs(point(dir)) - numbers::one; }
     return max(diff);
   } else {
-    const int ind = argmax(diff);
-    return point(ind) * sgn(point(ind)) - numbers::one;
+    const auto bounds = compute_abs_bounds(point);
+    const int ind = argmax(bounds.first);
+    if (is_dominant(bounds, ind)) { return point(ind) * sgn(point(ind)) - numbers::one; }
+
+    const real lower = max(bounds.first);
+    const real upper = max(bounds.second);
+    T val(numbers::half * (lower + upper) - numbers::one);
+    val.eps = numbers::half * (upper - lower);
+    return val;
   }
 }
 
 template<int dim> template<typename T> Vector<T, dim> Square<dim>::grad_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff{};
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
-      diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff{};
+    for (int dir = 0; dir < dim; ++dir) { diff(dir) = std::abs(point(dir)) - numbers::one; }
+    const int ind = argmax(diff);
+    return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
+  } else {
+    const auto bounds = compute_abs_bounds(point);
+    const int ind = argmax(bounds.first);
+    if (is_dominant(bounds, ind)) { return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind)))); }
+
+    // Every component that may be the largest one may contribute (or not).
+    const real lower = max(bounds.first);
+    Vector<T, dim> grad{};
+    for (int dir = 0; dir < dim; ++dir) {
+      grad(dir) = T(numbers::zero);
+      if (bounds.second(dir) >= lower) {
+        const bool one_sign = bounds.first(dir) > numbers::zero;
+        grad(dir) = T(one_sign ? numbers::half * static_cast<real>(sgn(point(dir))) : numbers::zero);
+        grad(dir).eps = one_sign ? numbers::half : numbers::one;
+      }
     }
+    return grad;
   }
-
-  const int ind = argmax(diff);
-  return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
 }
 
 template<int dim> template<typename T> auto Square<dim>::hessian_(const Vector<T, dim> & /*point*/) const -> Hessian<T>
-- 
2.43.0


From fc5ecb432e9db68e5559c36c0c64eb7469481ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 46/69] fix: classify exactly the requested cells when an
 unfitted domain is restricted to some of them

---
 cpp/qugar/impl_unfitted_domain.cpp | 45 ++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..ec9efde 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,24 +108,41 @@ namespace {
     }
   }
 
-  //! Inserts cell IDs from a subgrid into a container.
+  //! @brief Sets the status of the cells of a (sub)tree whose sign is known.
   //!
-  //! @param subgrid The subgrid from which to extract cell IDs.
-  //! @param target_cells Optional vector of target cell IDs. If provided, only these cells
-  //!                     within the subgrid's range will be inserted into the container.
-  //! @param container The container to store the cell IDs.
+  //! If @p target_cells is provided, only those cells are set, the tree being branched
+  //! as far as needed. Otherwise, all the cells in the tree are set.
   //!
-  //! If `target_cells` is provided, this function inserts the cell IDs from `target_cells`
-  //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
-  //! all cell IDs from the `subgrid` are inserted into `container`.
+  //! @tparam dim The dimensionality of the grid.
+  //! @param tree Tree whose cells are set.
+  //! @param target_cells Optional vector of (unique) target cell IDs.
+  //! @param sign Sign of the function in the tree's domain.
   template<int dim>
+  // NOLINTNEXTLINE (misc-no-recursion)
   void insert_cells(UnfittedBinarySpacePart<dim> &tree,
     const std::optional<std::vector<std::int64_t>> &target_cells,
     const FuncSign sign)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
+    if (target_cells.has_value()) {
+      const auto subgrid = tree.get_subgrid();
+      const auto &range = subgrid->get_range();
+      const auto size = subgrid->get_grid()->get_num_cells_dir();
+      const auto &targets = target_cells.value();
+      const auto n_targets = static_cast<std::size_t>(std::count_if(targets.cbegin(),
+        targets.cend(),
+        [&range, &size](const std::int64_t cell_id) { return range.is_in_range(cell_id, size); }));
+
+      if (n_targets == 0) {
+        return;
+      }
+
+      if (n_targets < subgrid->get_num_cells()) {
+        tree.branch();
+        insert_cells(*tree.get_child(0), target_cells, sign);
+        insert_cells(*tree.get_child(1), target_cells, sign);
+        return;
+      }
+    }
 
     const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
 
@@ -433,8 +450,12 @@ UnfittedImplDomain<dim>::UnfittedImplDomain(const FuncPtr phi,
 {
   assert(this->phi_ != nullptr);
 
+  std::vector<std::int64_t> target_cells(cells);
+  std::ranges::sort(target_cells);
+  target_cells.erase(std::unique(target_cells.begin(), target_cells.end()), target_cells.end());
+
   const auto compute_sign = create_compute_sign_function<dim>(*phi);
-  this->create_decomposition(*(this->binary_sp_part_), compute_sign, cells);
+  this->create_decomposition(*(this->binary_sp_part_), compute_sign, target_cells);
   this->init_full_cells_with_unf_bdry();
 }
 
-- 
2.43.0


From d477d60635207b1a6ab5f1ee3f499654a43cac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 47/69] fix: do not refuse the facets that touch the unfitted
 boundary without being cut

---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..2f0d90e 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From 757c854115f5aa3951bdf3810896858ca8139d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 48/69] fix: classify the cells of polynomial domains with the
 sign in the cell instead of in the unit box

---
 cpp/qugar/impl_unfitted_domain.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index ec9efde..4faa653 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -208,10 +208,12 @@ namespace {
 
   template<int dim> ImmersedCellStatusTmp classify_cell_Bezier(const BezierTP<dim> &bezier, const BoundBox<dim> &domain)
   {
-    BezierTP<dim> bzr_domain(bezier);
-    bzr_domain.rescale_domain(domain);
+    // The sign is checked in a slightly enlarged domain, to detect unfitted
+    // boundaries on the cell's boundary.
+    BezierTP<dim> bzr_ext_domain(bezier);
+    bzr_ext_domain.rescale_domain(domain.extend(numbers::eps * 1000));
 
-    switch (bezier.sign()) {
+    switch (bzr_ext_domain.sign()) {
     case FuncSign::positive:
       return ImmersedCellStatusTmp::empty;
     case FuncSign::negative:
@@ -220,6 +222,9 @@ namespace {
       break;
     }
 
+    BezierTP<dim> bzr_domain(bezier);
+    bzr_domain.rescale_domain(domain);
+
     constexpr auto quad_strategy = alg::QuadStrategy::AlwaysGL;
     constexpr int n_pts_dir{ 1 };
 
-- 
2.43.0


From 4a2d97947ae09174d89e07508118c0be479c874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 49/69] fix: do not let the classification of cells and facets
 depend on their size

---
 cpp/qugar/impl_unfitted_domain.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 4faa653..f225cc2 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -180,14 +180,15 @@ namespace {
   template<int dim>
   ImmersedCellStatusTmp classify_cell_from_quad(const QuadRule<dim> &quad, const BoundBox<dim> &domain)
   {
-    const auto cell_vol = quad.sumWeights();
+    // Fraction of the cell's volume, not to depend on the cell's size.
+    const auto cell_vol = quad.sumWeights() / domain.volume();
 
     const Tolerance default_tol;
     if (default_tol.equal(cell_vol, numbers::zero)) {
       // It is an empty cell but with an unfitted boundary (on the cell's boundary).
       // We consider that the unfitted boundary belongs to a neighbor cell.
       return ImmersedCellStatusTmp::empty;
-    } else if (default_tol.equal(cell_vol, domain.volume())) {
+    } else if (default_tol.equal(cell_vol, numbers::one)) {
       // Full cell but with an unfitted boundary (on a cell's boundary).
       return ImmersedCellStatusTmp::full_with_unf_bdry;
     } else {
@@ -267,9 +268,8 @@ namespace {
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const real domain_facet_vol = prod(remove_component(domain.extent(), const_dir));
 
-    const Tolerance tol;
-    const Tolerance rel_tol{ tol.value() * 1.0e3 };
-    const bool is_full_facet = tol.equal_rel(cell_facet_vol, domain_facet_vol, rel_tol);
+    const Tolerance rel_tol{ Tolerance().value() * 1.0e3 };
+    const bool is_full_facet = rel_tol.equal(cell_facet_vol / domain_facet_vol, numbers::one);
 
     if (is_full_facet) {
       switch (facet_status) {
-- 
2.43.0


From 408c1ef8e96ce8609917539e32be3729db2850e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 50/69] fix: pick the roots of the requested restriction in the
 reference intervals of a reparameterization

---
 cpp/qugar/impl_reparam_general.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index 5bbda27..f679bd5 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -403,7 +403,7 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
 
     for (int i = 0; i < ref_intervals.get_num_roots(); ++i) {
       if (at(ref_intervals.func_ids, i) == psi_id) {
-        ref_roots.push_back(at(ref_intervals.roots, psi_id));
+        ref_roots.push_back(at(ref_intervals.roots, i));
       }
     }
 
-- 
2.43.0


From 05d1c4a13c89bf5eb47545816a544e1b8b285248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 51/69] fix: do not reparameterize the whole cell for
 polynomials that are positive all over it

---
 cpp/qugar/impl_reparam_bezier.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 592bf06..2eda8ac 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,7 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0


From be11579169c29002c63a0ea1ea28476fc58b3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 52/69] fix: name the argument that is asserted in the unfitted
 domain bindings

---
 python/nanobind_wrappers/unf_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9a55db6..873594f 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -82,7 +82,7 @@ namespace {
         std::vector<int> local_facet_ids;
 
         if (target_cell_ids_py.has_value()) {
-          assert(target_local_facets_ids_py.has_value());
+          assert(target_local_facet_ids_py.has_value());
 
           const std::span<const std::int64_t> cells_span(
             target_cell_ids_py.value().data(), target_cell_ids_py.value().size());
-- 
2.43.0


From 3fbe62c3c1b48c9eb4ae9e1bed6a4efae3c509a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 53/69] fix: return a copy of the mid point of a bounding box
 instead of a reference to a temporary

---
 python/nanobind_wrappers/common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 283ea60..79824e8 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -83,9 +83,9 @@ namespace {
         "mid_point",
         [](BBox &bbox) {
           using Array = nb::ndarray<const real, nb::numpy, nb::shape<dim>, nb::c_contig>;
-          return Array(bbox.mid_point().data(), { dim }, nb::handle());
-        },
-        nb::rv_policy::reference_internal)
+          const auto mid_point = bbox.mid_point();
+          return Array(mid_point.data(), { dim }, nb::handle()).cast(nb::rv_policy::copy);
+        })
       .def_prop_ro("volume", &BBox::volume)
       .def("length", [](BBox &box, const int dir) { return box.length(dir); }, nb::rv_policy::reference_internal);
 
-- 
2.43.0


From 427cca090d27a18886a86b14615b8efb4bc37fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 54/69] fix: do not read strided arrays of cells, facets and
 breaks as if they were contiguous

---
 python/nanobind_wrappers/common.cpp     |  2 +-
 python/nanobind_wrappers/cut_quad.cpp   | 10 ++++----
 python/nanobind_wrappers/reparam.cpp    |  2 +-
 python/nanobind_wrappers/unf_domain.cpp | 34 ++++++++++++-------------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 79824e8..91be904 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -116,7 +116,7 @@ namespace {
   template<int dim> void declare_cartesian_grid_tp(nb::module_ &module)
   {
     using Grid = CartGridTP<dim>;
-    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>>;
+    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     const std::string pyclass_name{ std::string("CartGridTP_") + std::to_string(dim) + "D" };
     // NOLINTNEXTLINE (bugprone-unused-raii)
diff --git a/python/nanobind_wrappers/cut_quad.cpp b/python/nanobind_wrappers/cut_quad.cpp
index b3b7241..3e28ccd 100644
--- a/python/nanobind_wrappers/cut_quad.cpp
+++ b/python/nanobind_wrappers/cut_quad.cpp
@@ -173,8 +173,8 @@ namespace {
 
   template<int dim> void create_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_quadrature",
@@ -191,7 +191,7 @@ namespace {
 
   template<int dim> void create_unfitted_bound_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_bound_quadrature",
@@ -216,8 +216,8 @@ namespace {
 
   template<int dim> void create_facets_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_facets_quadrature_interior_integral",
diff --git a/python/nanobind_wrappers/reparam.cpp b/python/nanobind_wrappers/reparam.cpp
index 5986420..baea45a 100644
--- a/python/nanobind_wrappers/reparam.cpp
+++ b/python/nanobind_wrappers/reparam.cpp
@@ -96,7 +96,7 @@ namespace {
 
   template<int dim> void create_reparam(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_reparameterization",
diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 873594f..359550f 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -56,7 +56,7 @@ namespace {
     const auto get_cells =
       [&make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
 
         if (target_cell_ids_py.has_value()) {
@@ -76,8 +76,8 @@ namespace {
     const auto get_facets =
       [&make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
         std::vector<std::int64_t> cell_ids;
         std::vector<int> local_facet_ids;
 
@@ -114,7 +114,7 @@ namespace {
       .def(
         "get_full_cells",
         [&get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
           };
@@ -126,7 +126,7 @@ namespace {
       .def(
         "get_empty_cells",
         [&get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
           };
@@ -138,7 +138,7 @@ namespace {
       .def(
         "get_cut_cells",
         [&get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
           };
@@ -150,8 +150,8 @@ namespace {
       .def(
         "get_empty_facets",
         [&get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -168,8 +168,8 @@ namespace {
       .def(
         "get_full_facets",
         [&get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -186,8 +186,8 @@ namespace {
       .def(
         "get_cut_facets",
         [&get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -204,8 +204,8 @@ namespace {
       .def(
         "get_unf_bdry_facets",
         [&get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -222,8 +222,8 @@ namespace {
       .def(
         "get_full_unf_bdry_facets",
         [&get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -273,7 +273,7 @@ namespace {
       nb::arg("impl_func"),
       nb::arg("grid"));
 
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_impl_domain",
-- 
2.43.0


From 53e2b809b9ae6e5a3c12cffb8a79ba9f6da574c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 55/69] fix: create transformed boxes with the function the
 bindings provide

---
 python/qugar/impl/impl_function.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..97a026c 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -550,9 +550,10 @@ def create_box(
         AssertionError: If the dimension is not 2 or 3, or if the dimension does not match the
             affine transformation.
     """
+    if dim is None:
+        dim = 2
+
     if affine_trans is None:
-        if dim is None:
-            dim = 2
         assert dim == 2 or dim == 3, "Invalid dimension. It must be 2 or 3"
 
         if dim == 2:
@@ -565,10 +566,7 @@ def create_box(
             "Non-matching affine transformation and dimension"
         )
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From afabdf52b6c0cd94285b4d5c26081204e4b68fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 56/69] fix: refuse ellipsoids with semi-axes that are not
 positive, as documented

---
 python/qugar/impl/impl_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 97a026c..04cdf4c 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0), "All the semi-axes must be positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
-- 
2.43.0


From fddbd5fee311d7a109990ea3a73f9b4b8f4c3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 57/69] fix: compare versions lexicographically

---
 python/qugar/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..8c32ecf 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -105,10 +105,10 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
     lhs = _extract_version(version_lhs)
     rhs = _extract_version(version_rhs)
 
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
+    if lhs[0] != rhs[0]:
+        return lhs[0] < rhs[0]
+    elif lhs[1] != rhs[1]:
+        return lhs[1] < rhs[1]
     else:
         return lhs[2] <= rhs[2]
 
-- 
2.43.0


From 58ebee6f0138be584543f914ad90d4f287faf911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:07 +0000
Subject: [PATCH 58/69] fix: number the facets of a mesh on processes without
 cells

---
 python/qugar/mesh/mesh_facets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 2501ca0..46d168c 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,7 +375,8 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
-        return conn.array.reshape(conn.num_nodes, -1)
+        n_facets_per_cell = conn.array.size // max(conn.num_nodes, 1)
+        return conn.array.reshape(conn.num_nodes, n_facets_per_cell)
 
     def create_facets_from_ids(
         mesh: dolfinx.mesh.Mesh,
-- 
2.43.0


From df8d8cd0171e440972727757701d7605d20e4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:02 +0000
Subject: [PATCH 59/69] fix: account for the rounding of the coordinates at
 both sides of the facets along unfitted boundaries

A boundary along a line of the grid, up to rounding errors, was counted twice (or never): the cells
beyond it used a tolerance relative to their size, and their neighbors an absolute one.
---
 cpp/qugar/impl_unfitted_domain.cpp | 118 +++++++++++++++++++++--------
 1 file changed, 88 insertions(+), 30 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index f225cc2..be187c2 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -177,18 +177,61 @@ namespace {
 
   template<int dim> using QuadRule = typename ::algoim::QuadratureRule<dim>;
 
+  //! @brief Gets the magnitude of the coordinates in which the unfitted domain is described.
+  //!
+  //! The rounding errors in the position of the unfitted boundary with respect
+  //! to the grid are proportional to it.
+  //!
+  //! @tparam dim The dimensionality of the grid.
+  //! @param phi Function describing the domain. Bezier polynomials are described in the unit domain.
+  //! @param domain Domain of the whole grid.
+  //! @return Magnitude of the coordinates.
+  template<int dim> real get_coordinates_scale(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain)
+  {
+    real scale = is_bezier(phi) ? numbers::one : numbers::zero;
+    for (int dir = 0; dir < dim; ++dir) {
+      scale = std::max({ scale, std::abs(domain.min(dir)), std::abs(domain.max(dir)) });
+    }
+    return scale;
+  }
+
+  //! @brief Gets the fraction of a cell below which the distance between a facet and an unfitted
+  //! boundary (parallel to it) is considered to be a rounding error.
+  //!
+  //! The same tolerance has to be used at both sides of the facet. Otherwise, the boundary could
+  //! belong to both cells, or to none of them.
+  //!
+  //! @tparam dim The dimensionality of the grid.
+  //! @param domain Domain of the cell.
+  //! @param scale Magnitude of the coordinates.
+  //! @return Tolerance relative to the cell's size.
+  template<int dim> Tolerance get_cell_tolerance(const BoundBox<dim> &domain, const real scale)
+  {
+    real min_length = domain.length(0);
+    for (int dir = 1; dir < dim; ++dir) {
+      min_length = std::min(min_length, domain.length(dir));
+    }
+    return Tolerance(Tolerance().value() * std::max(numbers::one, scale / min_length));
+  }
+
+  //! @brief Slightly enlarges a domain, to detect unfitted boundaries on its own boundary.
+  template<int dim> BoundBox<dim> enlarge_domain(const BoundBox<dim> &domain, const real scale)
+  {
+    return domain.extend(numbers::eps * 1000 * std::max(numbers::one, scale));
+  }
+
   template<int dim>
-  ImmersedCellStatusTmp classify_cell_from_quad(const QuadRule<dim> &quad, const BoundBox<dim> &domain)
+  ImmersedCellStatusTmp
+    classify_cell_from_quad(const QuadRule<dim> &quad, const BoundBox<dim> &domain, const Tolerance &tol)
   {
     // Fraction of the cell's volume, not to depend on the cell's size.
     const auto cell_vol = quad.sumWeights() / domain.volume();
 
-    const Tolerance default_tol;
-    if (default_tol.equal(cell_vol, numbers::zero)) {
+    if (tol.equal(cell_vol, numbers::zero)) {
       // It is an empty cell but with an unfitted boundary (on the cell's boundary).
       // We consider that the unfitted boundary belongs to a neighbor cell.
       return ImmersedCellStatusTmp::empty;
-    } else if (default_tol.equal(cell_vol, numbers::one)) {
+    } else if (tol.equal(cell_vol, numbers::one)) {
       // Full cell but with an unfitted boundary (on a cell's boundary).
       return ImmersedCellStatusTmp::full_with_unf_bdry;
     } else {
@@ -199,20 +242,23 @@ namespace {
 
 
   template<int dim>
-  ImmersedCellStatusTmp classify_cell_general(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain)
+  ImmersedCellStatusTmp
+    classify_cell_general(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain, const real scale)
   {
     constexpr int n_pts_dir{ 1 };
     const auto alg_domain = domain.to_hyperrectangle();
     const auto quad = ::algoim::quadGen(phi, alg_domain, -1, 0, n_pts_dir);
-    return classify_cell_from_quad(quad, domain);
+    return classify_cell_from_quad(quad, domain, get_cell_tolerance(domain, scale));
   }
 
-  template<int dim> ImmersedCellStatusTmp classify_cell_Bezier(const BezierTP<dim> &bezier, const BoundBox<dim> &domain)
+  template<int dim>
+  ImmersedCellStatusTmp
+    classify_cell_Bezier(const BezierTP<dim> &bezier, const BoundBox<dim> &domain, const real scale)
   {
     // The sign is checked in a slightly enlarged domain, to detect unfitted
     // boundaries on the cell's boundary.
     BezierTP<dim> bzr_ext_domain(bezier);
-    bzr_ext_domain.rescale_domain(domain.extend(numbers::eps * 1000));
+    bzr_ext_domain.rescale_domain(enlarge_domain(domain, scale));
 
     switch (bzr_ext_domain.sign()) {
     case FuncSign::positive:
@@ -242,16 +288,17 @@ namespace {
       });
 
     const BoundBox<dim> domain_0_1(numbers::zero, numbers::one);
-    return classify_cell_from_quad(quad, domain_0_1);
+    return classify_cell_from_quad(quad, domain_0_1, get_cell_tolerance(domain, scale));
   }
 
-  template<int dim> ImmersedCellStatusTmp classify_cell(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain)
+  template<int dim>
+  ImmersedCellStatusTmp classify_cell(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain, const real scale)
   {
     if (is_bezier(phi)) {
       const auto &bezier = dynamic_cast<const BezierTP<dim> &>(phi);
-      return classify_cell_Bezier(bezier, domain);
+      return classify_cell_Bezier(bezier, domain, scale);
     } else {
-      return classify_cell_general(phi, domain);
+      return classify_cell_general(phi, domain, scale);
     }
   }
 
@@ -262,13 +309,14 @@ namespace {
     const alg::HyperRectangle<real, dim> &domain,
     const int local_facet_id,
     const real cell_facet_vol,
-    const int n_pts)
+    const int n_pts,
+    const Tolerance &cell_tol)
   // NOLINTEND (bugprone-easily-swappable-parameters)
   {
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const real domain_facet_vol = prod(remove_component(domain.extent(), const_dir));
 
-    const Tolerance rel_tol{ Tolerance().value() * 1.0e3 };
+    const Tolerance rel_tol(Tolerance().value() * 1.0e3, cell_tol.value());
     const bool is_full_facet = rel_tol.equal(cell_facet_vol / domain_facet_vol, numbers::one);
 
     if (is_full_facet) {
@@ -296,7 +344,8 @@ namespace {
     const alg::HyperRectangle<real, dim> &domain,
     const int local_facet_id,
     const ImmersedCellStatusTmp cell_status,
-    const QuadRule<dim> &facet_quad)
+    const QuadRule<dim> &facet_quad,
+    const Tolerance &cell_tol)
   {
     assert(cell_status == ImmersedCellStatusTmp::cut || cell_status == ImmersedCellStatusTmp::full_with_unf_bdry);
 
@@ -314,10 +363,12 @@ namespace {
     bool unf_bdry{ false };
     bool cut_facet{ false };
     for (const auto &node : facet_quad.nodes) {
-      if (on_levelset(phi, node.x, default_tol)) {
+      const auto normal = phi.grad(node.x);
+      const auto normal_norm = norm(normal);
+      const Tolerance levelset_tol{ cell_tol.value() * domain.extent(const_dir) * normal_norm };
+      if (on_levelset(phi, node.x, levelset_tol)) {
 
-        const auto normal = phi.grad(node.x);
-        const auto normal_comp = normal(const_dir) / norm(normal);
+        const auto normal_comp = normal(const_dir) / normal_norm;
         if (!default_tol.equal(std::abs(normal_comp), numbers::one)) {
           continue;
         }
@@ -351,7 +402,8 @@ namespace {
     const real cell_facet_vol = facet_quad.sumWeights();
     const int n_pts = static_cast<int>(facet_quad.nodes.size());
 
-    return classify_facet_full_unfitted_boundary(facet_status, domain, local_facet_id, cell_facet_vol, n_pts);
+    return classify_facet_full_unfitted_boundary(
+      facet_status, domain, local_facet_id, cell_facet_vol, n_pts, cell_tol);
   }
 
 
@@ -359,7 +411,8 @@ namespace {
   ImmersedFacetStatus classify_facet_general(const ImplicitFunc<dim> &phi,
     const SubCartGridTP<dim> &subgrid,
     const int local_facet_id,
-    const ImmersedCellStatusTmp cell_status)
+    const ImmersedCellStatusTmp cell_status,
+    const Tolerance &cell_tol)
   {
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -367,14 +420,15 @@ namespace {
     constexpr int n_pts_dir{ 1 };
     const auto facet_quad = ::algoim::quadGen(phi, domain, const_dir, side, n_pts_dir);
 
-    return classify_facet_from_quad(phi, domain, local_facet_id, cell_status, facet_quad);
+    return classify_facet_from_quad(phi, domain, local_facet_id, cell_status, facet_quad, cell_tol);
   }
 
   template<int dim>
   ImmersedFacetStatus classify_facet_Bezier(const BezierTP<dim> &bezier,
     const BoundBox<dim> &domain,
     const int local_facet_id,
-    const ImmersedCellStatusTmp cell_status)
+    const ImmersedCellStatusTmp cell_status,
+    const Tolerance &cell_tol)
   {
     BezierTP<dim> bzr_domain(bezier);
     bzr_domain.rescale_domain(domain);
@@ -400,14 +454,16 @@ namespace {
       });
 
     const BoundBox<dim> domain_01;
-    return classify_facet_from_quad(bzr_domain, domain_01.to_hyperrectangle(), local_facet_id, cell_status, facet_quad);
+    return classify_facet_from_quad(
+      bzr_domain, domain_01.to_hyperrectangle(), local_facet_id, cell_status, facet_quad, cell_tol);
   }
 
   template<int dim>
   ImmersedFacetStatus classify_facet(const ImplicitFunc<dim> &phi,
     const SubCartGridTP<dim> &subgrid,
     const int local_facet_id,
-    const ImmersedCellStatusTmp cell_status)
+    const ImmersedCellStatusTmp cell_status,
+    const real scale)
   {
     // NOLINTNEXTLINE(readability-simplify-boolean-expr)
     assert(0 <= local_facet_id && local_facet_id < dim * 2);
@@ -422,11 +478,12 @@ namespace {
     // facet state of neighbor cells. However, this involves a more
     // complicated algorithm that may not be worth it.
 
+    const auto cell_tol = get_cell_tolerance(subgrid.get_domain(), scale);
     if (is_bezier(phi)) {
       const auto &bzr = dynamic_cast<const BezierTP<dim> &>(phi);
-      return classify_facet_Bezier(bzr, subgrid.get_domain(), local_facet_id, cell_status);
+      return classify_facet_Bezier(bzr, subgrid.get_domain(), local_facet_id, cell_status, cell_tol);
     } else {
-      return classify_facet_general(phi, subgrid, local_facet_id, cell_status);
+      return classify_facet_general(phi, subgrid, local_facet_id, cell_status, cell_tol);
     }
   }
 
@@ -477,8 +534,8 @@ void UnfittedImplDomain<dim>::create_decomposition(KDTree &tree,
 
   const auto domain = subgrid->get_domain();
   // We slightly enlarge the domain to deal with edge cases.
-  const auto ext_domain = domain.extend(numbers::eps * 1000);
-  const auto sign = func_sign(ext_domain);
+  const auto scale = get_coordinates_scale(*this->phi_, subgrid->get_grid()->get_domain());
+  const auto sign = func_sign(enlarge_domain(domain, scale));
 
   if (sign == FuncSign::undetermined) {
     if (subgrid->is_unique_cell()) {
@@ -514,13 +571,14 @@ template<int dim> void UnfittedImplDomain<dim>::classify_undetermined_sign_cell(
   assert(subgrid->is_unique_cell());
 
   const auto domain = subgrid->get_domain();
-  auto cell_status = classify_cell(*this->phi_, domain);
+  const auto scale = get_coordinates_scale(*this->phi_, subgrid->get_grid()->get_domain());
+  auto cell_status = classify_cell(*this->phi_, domain, scale);
 
   if (cell_status == ImmersedCellStatusTmp::cut || cell_status == ImmersedCellStatusTmp::full_with_unf_bdry) {
     typename UnfittedImplDomain<dim>::FacetsStatus facets{};
     bool all_full = true;
     for (int local_facet_id = 0; local_facet_id < dim * 2; ++local_facet_id) {
-      const auto facet_status = classify_facet(*this->phi_, *subgrid, local_facet_id, cell_status);
+      const auto facet_status = classify_facet(*this->phi_, *subgrid, local_facet_id, cell_status, scale);
       if (facet_status != ImmersedFacetStatus::full) {
         all_full = false;
       }
-- 
2.43.0


From be15a70dce2f1cdd3a95f6f64e8d489d19dbe518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:56 +0000
Subject: [PATCH 60/69] fix: give the cells of plotted domains their own status

The status of the cells was stored following DOLFINx local numbering in
a grid whose cells are ordered lexicographically.
---
 python/qugar/plot/pyvista_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..4b3d4a5 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -623,6 +623,13 @@ def unfitted_domain_to_PyVista(
     value[full_cells] = full
     status[full_cells] = 0
 
+    if not is_cpp:
+        # The status follows the DOLFINx local numbering, but the cells
+        # of the grid follow the lexicographical one.
+        dlf_cell_ids = grid.cell_data["DOLFINx local cell ids"]
+        value = value[dlf_cell_ids]
+        status = status[dlf_cell_ids]
+
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
 
-- 
2.43.0


From baa7946d25d81bc1884a09f13918bc1ee32266bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:56 +0000
Subject: [PATCH 61/69] fix: plot the facets of domains of both kinds at their
 own position

The facets of meshes, numbered following DOLFINx, were used as if they
were lexicographical, and domains without a mesh were not accepted.
---
 python/qugar/plot/pyvista_tools.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 4b3d4a5..a09e4d8 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -528,9 +528,14 @@ def unfitted_domain_facets_to_PyVista(
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
 
-    dim = domain.tdim
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
+    # All the cells of the grid, sorted following the lexicographical ordering.
+    lex_cell_ids = grid.cell_data["Lexicographical cell ids"]
+
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
     if dim == 2:
         grid = cast(pv.DataSet, grid.extract_all_edges())
@@ -555,9 +560,16 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, cells_facets in facets.items():
+        if is_cpp:
+            lex_cells, lex_facets = cells_facets
+        else:
+            lex_cells_facets = cells_facets.to_original(domain.mesh)
+            lex_cells = lex_cells_facets.cell_ids
+            lex_facets = lex_cells_facets.local_facet_ids
+
+        vtk_facets = vtk_lex_mask[lex_facets]
+        vtk_cells = np.searchsorted(lex_cell_ids, lex_cells) * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +581,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From 062cdb1ca086e38f334141f072a075e0066d42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 62/69] fix: detect Bezier facets of cut cells lying completely
 on the unfitted boundary

The facet rule only keeps the points where the function is negative, so a facet
on which it vanishes was considered to be empty.
---
 cpp/qugar/impl_unfitted_domain.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index be187c2..5e3e703 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -439,9 +439,23 @@ namespace {
     constexpr int n_pts_dir{ 1 };
     constexpr auto quad_strategy = alg::QuadStrategy::AlwaysGL;
 
-    alg::ImplicitPolyQuadrature<dim - 1> ipquad(bzr_facet->get_xarray());
-
     QuadRule<dim> facet_quad;
+    const BoundBox<dim> domain_01;
+
+    // If the function vanishes in the whole facet (up to rounding errors), a single point is
+    // enough. It will be decided later on if the facet belongs to the unfitted boundary.
+    const auto mid_point = add_component(Point<dim - 1>(numbers::half), const_dir, static_cast<real>(side));
+    const auto levelset_tol = cell_tol.value() * norm(bzr_domain.grad(mid_point));
+    const auto &coefs = bzr_facet->get_coefs();
+    if (std::all_of(coefs.cbegin(), coefs.cend(), [levelset_tol](const auto &coef) {
+          return std::abs(coef) <= levelset_tol;
+        })) {
+      facet_quad.nodes.emplace_back(mid_point, numbers::one);
+      return classify_facet_from_quad(
+        bzr_domain, domain_01.to_hyperrectangle(), local_facet_id, cell_status, facet_quad, cell_tol);
+    }
+
+    alg::ImplicitPolyQuadrature<dim - 1> ipquad(bzr_facet->get_xarray());
 
     ipquad.integrate(quad_strategy,
       n_pts_dir,
@@ -453,7 +467,6 @@ namespace {
         }
       });
 
-    const BoundBox<dim> domain_01;
     return classify_facet_from_quad(
       bzr_domain, domain_01.to_hyperrectangle(), local_facet_id, cell_status, facet_quad, cell_tol);
   }
-- 
2.43.0


From 5451a48a85d0761b6142ce1773160333f4586a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 63/69] fix: remove the boundary points on facets of which the
 domain is on the other side

The boundary lying on a facet belongs to the neighbor cell: it was counted twice when
the cell is cut by another part of the boundary.
---
 cpp/qugar/impl_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 2f0d90e..de55e26 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -572,7 +572,8 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
+      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)
+          || unf_domain.has_external_boundary(cell_id, local_facet_id)) {
         purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
       }
     }
-- 
2.43.0


From f05aea03872591ee21b07621a186409970818fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 64/69] fix: restore the handlers of the root logger when the
 compilation of a form fails

---
 python/qugar/dolfinx/jit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..a9facf7 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,14 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers, also if the compilation fails
+        # (in case someone is logging into root logger and has custom
+        # handlers)
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +195,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From 5c51840d0dcedca56d7be58bc04cd703592e8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:44 +0000
Subject: [PATCH 65/69] fix: get the status of the leaves of the spatial
 partition

---
 cpp/qugar/unfitted_domain_binary_part.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/unfitted_domain_binary_part.cpp b/cpp/qugar/unfitted_domain_binary_part.cpp
index 80813cc..3b9b923 100644
--- a/cpp/qugar/unfitted_domain_binary_part.cpp
+++ b/cpp/qugar/unfitted_domain_binary_part.cpp
@@ -62,7 +62,7 @@ template<int dim> void UnfittedBinarySpacePart<dim>::set_status(const ImmersedCe
 
 template<int dim> ImmersedCellStatus UnfittedBinarySpacePart<dim>::get_status() const
 {
-  assert(this->get_child(0) != nullptr && this->get_child(1) != nullptr);
+  assert(this->is_leaf());
   return this->status_;
 }
 
-- 
2.43.0


From 9baaa53f1ac2f82eb9bd08006bba099245dad659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:28 +0000
Subject: [PATCH 66/69] fix: create all the nodes of a one-dimensional
 Cartesian mesh

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8a9e9d9..52e2484 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -152,7 +152,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0]]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From e30c119a61a2ea9afbcf3f4a590d980a8b04e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:33 +0000
Subject: [PATCH 67/69] fix: do not refer to local helpers after the bindings
 are declared

---
 python/nanobind_wrappers/unf_domain.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 359550f..4ca8e1d 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -54,7 +54,7 @@ namespace {
     };
 
     const auto get_cells =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
@@ -74,7 +74,7 @@ namespace {
       };
 
     const auto get_facets =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
         const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
@@ -113,7 +113,7 @@ namespace {
         "has_facets_with_unf_bdry", [](const UnfDomain &domain) { return domain.has_facets_with_unf_bdry(); })
       .def(
         "get_full_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
@@ -125,7 +125,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
@@ -137,7 +137,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_cut_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
@@ -149,7 +149,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -167,7 +167,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -185,7 +185,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_cut_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -203,7 +203,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -221,7 +221,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
-- 
2.43.0


From b026ad28ff6aaa1e061f267944336076104af292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:00 +0000
Subject: [PATCH 68/69] fix: sort the tables of elements regardless of the ids
 of the form compiler

---
 python/qugar/dolfinx/fe_table.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index 5fe6d54..e931a97 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -515,19 +515,11 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
         list[FETable]: Sorted tables list.
     """
 
-    # Creating id to sorted map.
-    ids_to_hashes = {}
-    for table in FE_tables:
-        h = hashlib.sha1(str(table.element).encode())
-        ids_to_hashes[table.FE_id] = int(h.hexdigest(), 32)
-
-    sorted_to_id = np.argsort(list(ids_to_hashes.values())).tolist()
-    id_to_sorted = {}
-    for i, id in enumerate(ids_to_hashes):
-        id_to_sorted[id] = sorted_to_id.index(i)
-
+    # The ids cannot be used: neither they are preserved between sessions,
+    # nor the same id in two quadratures stands for the same element.
     def tables_sort(table: FETable):
-        return id_to_sorted[table.FE_id]
+        h = hashlib.sha1(str(table.element).encode())
+        return h.hexdigest(), table.quad_name, table.component, table.derivatives
 
     FE_tables.sort(key=tables_sort)
 
-- 
2.43.0


From b78ca064d3d7e49aaefe23e0df6dcdaf925d2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:00 +0000
Subject: [PATCH 69/69] fix: accept tables of constant functions that vary by
 rounding in interior facets

---
 python/qugar/dolfinx/fe_table.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index e931a97..fd3d5e2 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -415,7 +415,10 @@ class FETable:
         component_element, _, _ = self._element.get_component_element(self._component)
         table = component_element.tabulate(sum(self._derivatives), points)
         values = table[basix.index(*self._derivatives)]
-        return np.allclose(values, values[0], rtol=1.0e-6, atol=1.0e-9)
+        # The values are those of the precision of the element.
+        rtol, atol = (1.0e-6, 1.0e-9) if values.dtype == np.float64 else (1.0e-4, 1.0e-5)
+        scale = np.max(np.abs(values), initial=1.0)
+        return np.allclose(values, values[0], rtol=rtol, atol=atol * scale)
 
     def _set_derivatives(self, elem_dim: int) -> None:
         """Sets the derivatives of the table.
@@ -467,11 +470,16 @@ class FETable:
                 r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]",
                 indices[0] + " " + indices[1],
             )
-            if match is None:
+            if match is not None:
+                side_index = int(match.group(1))
+            elif self._has_constant_values:
+                # Values that only vary by rounding: those of both sides
+                # are the same.
+                side_index = 0
+            else:
                 raise ValueError(
                     f"Side of the access to the table {self._name} not found."
                 )
-            side_index = int(match.group(1))
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
-- 
2.43.0

