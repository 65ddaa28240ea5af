From 89f7e5f2334c85da1af9b1031f912ff556f6da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:45 +0000
Subject: [PATCH 01/36] fix: mat_times_transposed_mat computes A times B
 transposed

The function accumulated entries of A^T B^T into a matrix of the wrong shape: it did not compile for
non-square A and returned a wrong product otherwise.
---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From 7bf6c4c1cc9a61205202aeda4bdd6f96333d60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:46 +0000
Subject: [PATCH 02/36] fix: reduced R of QR decomposition is indexed by its
 own number of rows

The reduced R has n_cols rows, so the zeros below its diagonal have been written to wrong entries and,
for tall matrices, outside of the array.
---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 780b5b4d43f800d0f587979e0e513b86a64c5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:46 +0000
Subject: [PATCH 03/36] fix: lapack_qr_decomp_r compiles when it is used

The called helper has no template parameter for the rank.
---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 8102435..9848d70 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -586,7 +586,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 745639cda1b1c96097c7d15443d84a1f45478242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:46 +0000
Subject: [PATCH 04/36] fix: sign of determinant if LAPACK does not reflect a
 column

LAPACK does not use a Householder reflection (tau = 0) for columns that are already zero below the
diagonal. This always holds for the last column of a square matrix, whose determinant therefore had
the wrong sign.
---
 include/HyperHDG/wrapper/lapack.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 9848d70..366df92 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -398,8 +398,8 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
 
   lapack_float_t determinant = 1.;
-  for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+  for (unsigned int i = 0; i < rank; ++i)  // There is no i-th reflection if tau[i] is zero.
+    determinant *= tau[i] == 0. ? dense_mat[i * (n_rows + 1)] : -dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From e97074608988ed682c992ce71654aeabec0dcf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:46 +0000
Subject: [PATCH 05/36] fix: normalization of QR decomposition to det(Q) = +1

The number of Householder reflections had been assumed to equal the number of rows. Thus, det(Q) has
been -1 for square matrices and for those with columns that do not need to be reflected (for example,
hyperedges that are parallel to an axis). Moreover, the R which is returned in mat has not been
normalized and did not fit to Q.
---
 include/HyperHDG/dense_la.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..c45e43f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1071,8 +1071,9 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   SmallVec<n_rows, mat_entry_t> factors(1.);
   bool switch_necessary = false;
 
-  // Q should have determinant = +1 and not -1 (as it has for odd dimensions)!
-  if (n_rows % 2 == 1)
+  // Q should have determinant = +1 and not -1!
+  SmallSquareMat<n_rows, mat_entry_t> helper_q(mat_q);
+  if (Wrapper::lapack_det<n_rows, n_rows, mat_entry_t>(helper_q.data()) < 0.)
   {
     if (n_cols == n_rows)
       factors[0] *= -1.;
@@ -1104,7 +1105,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
         mat_r(i, j) *= factors[i];
+        mat(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
-- 
2.43.0


From 27e6b60918789526e565890690c6f96d5dfd0aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:14 +0000
Subject: [PATCH 06/36] fix: degree-of-freedom indices are computed in the
 requested index type

---
 include/HyperHDG/hdg_hypergraph.hxx   |  2 +-
 include/HyperHDG/hypernodefactory.hxx | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/HyperHDG/hdg_hypergraph.hxx b/include/HyperHDG/hdg_hypergraph.hxx
index a96f9de..ecdb5aa 100644
--- a/include/HyperHDG/hdg_hypergraph.hxx
+++ b/include/HyperHDG/hdg_hypergraph.hxx
@@ -513,7 +513,7 @@ class HDGHyperGraph
   template <typename dof_index_t = unsigned int>
   const dof_index_t n_global_dofs() const
   {
-    return hyNode_factory_.n_global_dofs();
+    return hyNode_factory_.template n_global_dofs<dof_index_t>();
   }
   /*!***********************************************************************************************
    * \brief   Return the refinement level of the hypergraph.
diff --git a/include/HyperHDG/hypernodefactory.hxx b/include/HyperHDG/hypernodefactory.hxx
index 0480482..18db8e5 100644
--- a/include/HyperHDG/hypernodefactory.hxx
+++ b/include/HyperHDG/hypernodefactory.hxx
@@ -88,7 +88,7 @@ class HyperNodeFactory
   template <typename dof_index_t = hyNode_index_t>
   dof_index_t n_global_dofs() const
   {
-    return n_hyNodes_ * n_dofs_per_nodeT;
+    return (dof_index_t)n_hyNodes_ * n_dofs_per_nodeT;
   }
   /*!***********************************************************************************************
    * \brief   Calculate global indices of degrees of freedom related to a hypernode.
@@ -103,7 +103,8 @@ class HyperNodeFactory
   template <typename SmallVecT>
   SmallVecT& get_dof_indices(const hyNode_index_t hyNode_index, SmallVecT& dof_indices) const
   {
-    const typename SmallVecT::value_type initial_dof_index = hyNode_index * n_dofs_per_nodeT;
+    using dof_index_t = typename SmallVecT::value_type;
+    const dof_index_t initial_dof_index = (dof_index_t)hyNode_index * n_dofs_per_nodeT;
     hy_assert(dof_indices.size() == n_dofs_per_nodeT,
               "The size of the local dof vector is "
                 << dof_indices.size()
@@ -124,7 +125,7 @@ class HyperNodeFactory
   template <typename dof_index_t>
   hyNode_index_t get_hyNode_from_dof_index(const dof_index_t dof_index) const
   {
-    hy_assert(0 <= dof_index && dof_index < n_global_dofs(), "No valid dof index.");
+    hy_assert(0 <= dof_index && dof_index < n_global_dofs<dof_index_t>(), "No valid dof index.");
     return dof_index / n_dofs_per_nodeT;
   }
   /*!***********************************************************************************************
@@ -154,7 +155,7 @@ class HyperNodeFactory
                 << local_dof_values.size()
                 << ", but should be equal to the amount of local dofs, which is "
                 << n_dofs_per_nodeT << ".");
-    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;
+    dof_index_t initial_dof_index = (dof_index_t)hyNode_index * n_dofs_per_nodeT;
     hy_assert(initial_dof_index >= 0 &&
                 initial_dof_index + n_dofs_per_nodeT <= global_dof_vector.size(),
               "The initial dof index = "
@@ -191,7 +192,7 @@ class HyperNodeFactory
     static_assert(
       std::is_same<typename SmallVecT::value_type, typename LargeVecT::value_type>::value,
       "Both vectors must have same type!");
-    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;
+    dof_index_t initial_dof_index = (dof_index_t)hyNode_index * n_dofs_per_nodeT;
     hy_assert(local_dof_vector.size() == n_dofs_per_nodeT,
               "The size of the local dof vector is "
                 << local_dof_vector.size() << ", but should"
@@ -233,7 +234,7 @@ class HyperNodeFactory
     static_assert(
       std::is_same<typename SmallVecT::value_type, typename LargeVecT::value_type>::value,
       "Both vectors must have same type!");
-    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;
+    dof_index_t initial_dof_index = (dof_index_t)hyNode_index * n_dofs_per_nodeT;
     hy_assert(local_dof_vector.size() == n_dofs_per_nodeT,
               "The size of the local dof vector is "
                 << local_dof_vector.size() << ", but should"
@@ -265,7 +266,7 @@ class HyperNodeFactory
                             LargeVecT& global_dof_vector,
                             const typename LargeVecT::value_type value) const
   {
-    dof_index_t initial_dof_index = hyNode_index * n_dofs_per_nodeT;
+    dof_index_t initial_dof_index = (dof_index_t)hyNode_index * n_dofs_per_nodeT;
     hy_assert(initial_dof_index >= 0 &&
                 initial_dof_index + n_dofs_per_nodeT <= global_dof_vector.size(),
               "The initial dof index = "
-- 
2.43.0


From c228c9cd28341e740227697a03eee56a48bf4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:51 +0000
Subject: [PATCH 07/36] fix: set_dof_values with a single value is no longer
 ambiguous

---
 include/HyperHDG/hypernodefactory.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/hypernodefactory.hxx b/include/HyperHDG/hypernodefactory.hxx
index 18db8e5..e58ad53 100644
--- a/include/HyperHDG/hypernodefactory.hxx
+++ b/include/HyperHDG/hypernodefactory.hxx
@@ -226,7 +226,10 @@ class HyperNodeFactory
    *                              global ones.
    * \retval  global_dof_vector   Large vector containing the values of all degrees of freedom.
    ************************************************************************************************/
-  template <typename dof_index_t = hyNode_index_t, typename SmallVecT, typename LargeVecT>
+  template <typename dof_index_t = hyNode_index_t,
+            typename SmallVecT,
+            typename LargeVecT,
+            typename = typename SmallVecT::value_type>
   LargeVecT& set_dof_values(const hyNode_index_t hyNode_index,
                             LargeVecT& global_dof_vector,
                             const SmallVecT& local_dof_vector) const
-- 
2.43.0


From d02e9f06dcbb11ac3ff20946341690c8efe7285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:58 +0000
Subject: [PATCH 08/36] fix: points of epsilon neighborhood graph are written
 with full precision

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..07fc10f 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -128,6 +129,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From 831d01f8c9dd5dfd2209fa0e22822a0c75d509da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:58 +0000
Subject: [PATCH 09/36] fix: blank lines in .pts files do not duplicate points

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 07fc10f..27b194e 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -84,6 +84,8 @@ void make_epsilon_neighborhood_graph(std::string& filename)
 
   while (std::getline(infile, line))
   {
+    if (line.find_first_not_of(" \t\r") == std::string::npos)
+      continue;  // Blank lines do not contain points.
     linestream = std::istringstream(line);
     for (unsigned int dimension = 0; dimension < dim; ++dimension)
       linestream >> pt[dimension];
-- 
2.43.0


From ec3acae250cbf9348a2a307fe2c917766b158c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:58 +0000
Subject: [PATCH 10/36] fix: .pts files without points are rejected

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index 27b194e..aaac445 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -92,6 +92,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
     points.push_back(pt);
   }
 
+  hy_assert(points.size() > 0, "There must be at least one point in the file " << filename << "!");
   std::sort(points.begin(), points.end());
   hy_assert(std::adjacent_find(points.begin(), points.end()) == points.end(),
             "Points must be unique in given file!");
-- 
2.43.0


From 0535462f7b646cb73d263225328c9b394ce8f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:58 +0000
Subject: [PATCH 11/36] fix: check_consistency reports invalid and duplicate
 indices without asserts

---
 include/HyperHDG/read_domain.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/read_domain.hxx b/include/HyperHDG/read_domain.hxx
index 341f317..a268854 100644
--- a/include/HyperHDG/read_domain.hxx
+++ b/include/HyperHDG/read_domain.hxx
@@ -115,10 +115,11 @@ struct DomainInfo
     std::for_each(hyNodes_hyEdge.begin(), hyNodes_hyEdge.end(),
                   [&](std::array<hyNode_index_t, 2 * hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_hyNodes && hyEdge[i] >= 0);
+                      consistent = consistent && hyEdge[i] < n_hyNodes && hyEdge[i] >= 0;
                       hy_assert(consistent, "At least one hypernode index is invalid!");
                     }
                   });
@@ -126,14 +127,18 @@ struct DomainInfo
     std::for_each(points_hyEdge.begin(), points_hyEdge.end(),
                   [&](std::array<pt_index_t, 1 << hyEdge_dim> hyEdge)
                   {
-                    hy_assert(is_unique(hyEdge), "Duplicate points in hyperedge.");
+                    consistent = consistent && is_unique(hyEdge);
+                    hy_assert(consistent, "Duplicate points in hyperedge.");
                     for (unsigned int i = 0; i < hyEdge.size(); ++i)
                     {
-                      consistent = (hyEdge[i] < n_points && hyEdge[i] >= 0);
+                      consistent = consistent && hyEdge[i] < n_points && hyEdge[i] >= 0;
                       hy_assert(consistent, "At least one point index is invalid!");
                     }
                   });
 
+    if (!consistent)
+      return false;
+
     consistent = is_unique(points);
     hy_assert(consistent, "DomainInfo.points contains duplicate points!");
     if (!consistent)
-- 
2.43.0


From 76312e0fa3d5b02e742fb365fa082e1897ed1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:02 +0000
Subject: [PATCH 12/36] fix: node descriptors read from files can be copied

---
 include/HyperHDG/node_descriptor/file.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 2a30af3..3f6dd9c 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -152,12 +152,10 @@ class File
                   hyEdge_index_t,
                   hyNode_index_t,
                   pt_index_t>& other)
-  : domain_info_(other.domain_info),
-    n_subintervals_(1),
-    tpcc_ref_elem_(
-      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
-        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_))),
-    n_hyEdges_(domain_info_.n_hyEdges)
+  : domain_info_(other.domain_info_),
+    n_subintervals_(other.n_subintervals_),
+    tpcc_ref_elem_(other.tpcc_ref_elem_),
+    n_hyEdges_(other.n_hyEdges_)
   {
   }
 
-- 
2.43.0


From f65a1daab7d97d188745d68b727e12b2870ca9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 13/36] fix: make_initial of parabolic problems does not
 truncate the time to an integer

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 35944f197c4ac2682007482d7b7ed9a25f165fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 14/36] fix: dirichlet_indices of eigenvalue problems does not
 keep stale indices

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 1 +
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..fe0a4b6 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -144,6 +144,7 @@ class MassApproxEigenvalue
     std::array<dof_index_t, LocalSolverT::n_glob_dofs_per_node()> dof_indices;
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
+    dirichlet_indices_.clear();
 
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..7f0389b 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -140,6 +140,7 @@ class ShiftedInverseEigenvalue
     std::array<dof_index_t, LocalSolverT::n_glob_dofs_per_node()> dof_indices;
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
+    dirichlet_indices_.clear();
 
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
-- 
2.43.0


From f1dcb994e52fcda35b3f4ec03eb2a4c94f859210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 15/36] fix: trace_to_flux_mat respects Dirichlet indices as
 trace_to_flux does

---
 include/HyperHDG/global_loop/elliptic.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/elliptic.hxx b/include/HyperHDG/global_loop/elliptic.hxx
index cee6c89..bff254c 100644
--- a/include/HyperHDG/global_loop/elliptic.hxx
+++ b/include/HyperHDG/global_loop/elliptic.hxx
@@ -231,7 +231,14 @@ class Elliptic
   template <typename hyNode_index_t = dof_index_t>
   sparse_mat<LargeVecT> trace_to_flux_mat(const dof_value_t time = 0.)
   {
-    return prototype_mat_generate(trace_to_flux, has_trace_to_flux);
+    auto mat = prototype_mat_generate(trace_to_flux, has_trace_to_flux);
+
+    // Set all rows of Dirichlet indices to zero (cf. trace_to_flux).
+    for (unsigned int i = 0; i < mat.row_vec.size(); ++i)
+      if (std::binary_search(dirichlet_indices_.begin(), dirichlet_indices_.end(), mat.row_vec[i]))
+        mat.value_vec[i] = 0.;
+
+    return mat;
   }
 
   /*!***********************************************************************************************
-- 
2.43.0


From 1d05ebfbf3502b2d444faf9db1043b847ecabeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:53 +0000
Subject: [PATCH 16/36] fix: points of hyperedge boundaries are numbered as the
 geometry expects

---
 include/HyperHDG/plot.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..f897f96 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -421,7 +421,8 @@ void plot_vtu_unstructured_geometry(std::ostream& output,
           output << "        ";
           const Point<space_dim> point =
             (Point<space_dim>)edge.template boundary_lexicographic<n_subpoints>(
-              pt_number, boundary, plot_options.boundary_scale, boundary_sub_points);
+              boundary * points_per_boundary + pt_number, boundary, plot_options.boundary_scale,
+              boundary_sub_points);
 
           if (he_number == 0)
             for (unsigned int dim = 0; dim < space_dim; ++dim)
-- 
2.43.0


From f2167f9d9058cb35f9db95cee2df5369ad4c733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:49 +0000
Subject: [PATCH 17/36] fix: boundary values are plotted per point and not per
 component

---
 include/HyperHDG/plot.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index f897f96..d41c66d 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -666,7 +666,7 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
     {
       myfile << "      ";
 
-      for (unsigned int lval = 0; lval < local_values.size(); ++lval)
+      for (unsigned int lval = 0; lval < Hypercube<hyEdge_dim - 1>::pow(n_subdivisions + 1); ++lval)
         fancy_recursion<0, LocalSolverT, dof_value_t>(
           local_values, hyEdge_dofs,
           Hypercube<hyEdge_dim - 1>::template tensorial_pt<Point<hyEdge_dim - 1> >(lval, abscissas),
-- 
2.43.0


From 157c73bf12a382ea0b007fa5b951df82c3685f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 18/36] fix: values of each boundary point are padded to the
 number of components

---
 include/HyperHDG/plot.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index d41c66d..e9388d0 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -676,10 +676,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From 472d328ff8cd861e1bf3648201d61b7851ead5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:23 +0000
Subject: [PATCH 19/36] fix: plot option fileEnding is returned as text

---
 include/HyperHDG/plot.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index e9388d0..3023268 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -161,7 +161,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = (plot_options.fileEnding == PlotOptions::vtu) ? "vtu" : "";
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 0b457250fb5a94244ababefa670cf011e23b5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 20/36] fix: evaluate the diffusion coefficient of
 DiffusionIP's face terms at the given time

---
 include/HyperHDG/local_solver/diffusion_ip.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..95eaa18 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -395,7 +395,8 @@ class DiffusionIP
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +451,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +515,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +634,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +796,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +809,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From 5617b2d38661afb4be858f41238377e7bf80ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 21/36] fix: evaluate the advective velocity of
 DiffusionAdvectionReaction at the given time

---
 .../HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
-- 
2.43.0


From 27e8394dadcace3b609c93ab1aa64814c8bde3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:44 +0000
Subject: [PATCH 22/36] fix: Bilaplacian's residual_flux penalises the traces
 that belong to the fluxes

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 9afdd9c01f6fe6e0d05254408befc986d1a1bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:39 +0000
Subject: [PATCH 23/36] fix: BilaplacianParab's residual_flux penalises the
 traces that belong to the fluxes

---
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 36ec555c606113c5fa2e9dfa8e6eb482e158f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:55 +0000
Subject: [PATCH 24/36] fix: BilaplacianParab's initial skeletal unknowns are
 the face projections of the initial values

---
 .../local_solver/bilaplacian_parab_ldgh.hxx    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..14bcaa7 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -594,21 +594,23 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values.size(); ++i)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
-        for (unsigned int j = 0; j < lambda_values[i].size(); ++j)
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
           lambda_values[i][j] = 0.;
       else
-      {
-        for (unsigned int j = 0; j < lambda_values[i].size() / 2; ++j)
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
-        for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
-          lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
+            j, i, hyper_edge.geometry, time);
+      if (is_dirichlet_laplacian<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values[i][n_shape_bdr_ + j] = 0.;
+      else
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values[i][n_shape_bdr_ + j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
-      }
+            Point<hyEdge_dimT, lSol_float_t>>(j, i, hyper_edge.geometry, time);
     }
 
     for (unsigned int i = 0; i < n_shape_fct_; ++i)
-- 
2.43.0


From 8df524c7da619be3523f9278a9d0df0953c91fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:27 +0000
Subject: [PATCH 25/36] fix: AdvectionParab finds inflow and outflow faces by
 the outward normal on all geometries

---
 .../local_solver/advection_parab_ldgh.hxx     | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/advection_parab_ldgh.hxx b/include/HyperHDG/local_solver/advection_parab_ldgh.hxx
index 6188ca4..0fb6655 100644
--- a/include/HyperHDG/local_solver/advection_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/advection_parab_ldgh.hxx
@@ -164,6 +164,22 @@ class AdvectionParab
    * This allows to the use of this quantity as template parameter in member functions.
    ************************************************************************************************/
   static constexpr unsigned int node_system_dim = node_system_dimension();
+  /*!***********************************************************************************************
+   * \brief   Velocity at the barycenter of a face in the direction of the face's outward normal.
+   ************************************************************************************************/
+  template <typename parameters, typename hyEdge_t>
+  static constexpr lSol_float_t normal_velocity(const hyEdge_t& edge,
+                                                const unsigned int face,
+                                                const lSol_float_t time)
+  {
+    const auto velocity = parameters::velocity(edge.geometry.face_barycenter(face), time);
+    const auto mat_q = edge.geometry.mat_q();
+    const auto normal = edge.geometry.local_normal(face);
+    lSol_float_t result = 0.;
+    for (unsigned int dim = 0; dim < hyEdge_dimT; ++dim)
+      result += normal[dim] * scalar_product(mat_q.get_column(dim), velocity);
+    return result;
+  }
   /*!***********************************************************************************************
    * \brief   Find out whether a node is of Dirichlet type.
    ************************************************************************************************/
@@ -180,8 +196,7 @@ class AdvectionParab
       std::find(parameters::boundary_nodes.begin(), parameters::boundary_nodes.end(), node_type);
     if (node == parameters::boundary_nodes.end())
       return false;
-    return scalar_product(edge.geometry.inner_normal(face),
-                          parameters::velocity(edge.geometry.face_barycenter(face), time)) <= 0.;
+    return normal_velocity<parameters>(edge, face, time) <= 0.;
   }
 
   template <typename parameters, typename hyEdge_t>
@@ -197,8 +212,7 @@ class AdvectionParab
       std::find(parameters::boundary_nodes.begin(), parameters::boundary_nodes.end(), node_type);
     if (node == parameters::boundary_nodes.end())
       return false;
-    return scalar_product(edge.geometry.inner_normal(face),
-                          parameters::velocity(edge.geometry.face_barycenter(face), time)) > 0.;
+    return normal_velocity<parameters>(edge, face, time) > 0.;
   }
 
   // -----------------------------------------------------------------------------------------------
-- 
2.43.0


From 9be848e7e4daf2f38bfcba8e720c84a1c9cff9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:41 +0000
Subject: [PATCH 26/36] fix: BilaplacianEigs' initial skeletal unknowns use the
 face basis for both halves

---
 .../local_solver/bilaplacian_eigs_ldgh.hxx         | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..39e1051 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -471,21 +471,23 @@ class BilaplacianEigs
     for (unsigned int i = 0; i < lambda_values.size(); ++i)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
-        for (unsigned int j = 0; j < lambda_values[i].size(); ++j)
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
           lambda_values[i][j] = 0.;
       else
-      {
-        for (unsigned int j = 0; j < lambda_values[i].size() / 2; ++j)
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t> >(
             j, i, hyper_edge.geometry, time);
-        for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
-          lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
+      if (is_dirichlet_laplacian<parameters>(hyper_edge.node_descriptor[i]))
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values[i][n_shape_bdr_ + j] = 0.;
+      else
+        for (unsigned int j = 0; j < n_shape_bdr_; ++j)
+          lambda_values[i][n_shape_bdr_ + j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
             Point<hyEdge_dimT, lSol_float_t> >(j, i, hyper_edge.geometry, time);
-      }
     }
 
     return lambda_values;
-- 
2.43.0


From 9e9cf0c0c64bed11631046bf4dac9c17bd2ed8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:41 +0000
Subject: [PATCH 27/36] fix: errors() of the eigenvalue solvers names its
 parameter

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 2 +-
 include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index 39e1051..4ceb146 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -616,7 +616,7 @@ class BilaplacianEigs
     lSol_float_t result = integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time);
+                                                                      eig);
     hy_assert(result >= 0., "The squared error must be non-negative, but was " << result);
     return std::array<lSol_float_t, 1U>({result});
   }
diff --git a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
index 630c3ab..3d77a00 100644
--- a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
@@ -546,7 +546,7 @@ class DiffusionEigs
     return std::array<lSol_float_t, 1U>({integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time)});
+                                                                      eig)});
   }
   /*!***********************************************************************************************
    * \brief   Evaluate local local reconstruction at tensorial products of abscissas.
-- 
2.43.0


From 7d89a43df154e6e47c1dffccafc6a726cec7d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:17 +0000
Subject: [PATCH 28/36] fix: TimoshenkoBeam evaluates loads and boundary values
 at the requested time

---
 .../local_solver/timoshenko_network.hxx       | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0695b75..0803dff 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -376,7 +376,7 @@ class TimoshenkoBeam
   template <typename hyEdgeT>
   inline SmallVec<n_loc_dofs_, lSol_float_t> assemble_rhs_from_global_rhs(
     hyEdgeT& hyper_edge,
-    const unsigned int dim) const;
+    const lSol_float_t time) const;
 
   template <class hyEdgeT, typename SmallMatT>
   inline std::array<std::array<double, 2 * space_dim>, 2 * hyEdge_dimT> node_dof_to_edge_dof(
@@ -884,7 +884,7 @@ inline SmallVec<
     n_loc_dofs_,
   lSol_float_t>
 TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_float_t>::
-  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const unsigned int dim) const
+  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   // constexpr unsigned int n_dofs_lap = n_loc_dofs_ / 2;
@@ -897,33 +897,33 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
 
     right_hand_side[3 * space_dim * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     for (unsigned int face = 0; face < 2 * hyEdge_dimT; ++face)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))
@@ -931,7 +931,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -939,7 +939,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -947,7 +947,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
@@ -955,7 +955,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -963,7 +963,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -971,7 +971,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
-- 
2.43.0


From d40b84e3a8dc1b1a4bbeaee2ed6d10150f703a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 29/36] fix: definitions are found if they are structs and if
 the path contains special characters

---
 import/HyperHDG/import_cxx/cpp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..9ad4230 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
-        return re.sub(main_dir() + "/include/", '', file)
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
+        return file[len(main_dir() + "/include/"):]
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From dcf38f10e72e97a5bbc065273964d4fc4f935cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 30/36] fix: configurations with different replacements or own
 code get different modules

---
 import/HyperHDG/import_cxx/names.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..08bd705 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -11,7 +11,8 @@ def files(conf):
                  + ",Geometry::" + conf.geometry + ",NodeDescriptor::" \
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
-  cython_file  = re.sub(' ', '', cython_file)
+  cython_file  = re.sub(' ', '', cython_file) + str(conf.cython_replacements) \
+                 + str(conf.include_files) + conf.cpp_code
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From 4f55de5ed34220a3be370f01cdffcc81df403653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 31/36] fix: include() does not add the headers of one
 configuration to all others

---
 import/HyperHDG/import_cxx/include.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..f72b6c7 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import copy, os, sys, importlib, re, datetime
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -12,6 +12,9 @@ def include(conf):
   start_time = datetime.datetime.now()
   # Check that conf is appropriatelly filled.
   assert isinstance(conf, config) and consistent(conf)
+  # Included files are collected in a copy: they must not leak into other configurations.
+  conf = copy.copy(conf)
+  conf.include_files = list(conf.include_files)
 
   # Start program.
   options = get_options()
-- 
2.43.0


From dc25653cb0f7e8b93c649508e8cb5ad6b8e54eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 32/36] fix: include() compiles in optimised Python
 interpreters, too

---
 import/HyperHDG/import_cxx/include.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index f72b6c7..eac67de 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -62,9 +62,9 @@ def include(conf):
     if not (conf.debug_mode):
       compile_command += " -DNDEBUG"
     #Actually compile the prepared files.
-    assert os.system(cython_command) == 0
-    assert os.system(compile_command) == 0
-    assert os.system(link_command) == 0
+    for command in [cython_command, compile_command, link_command]:
+      if os.system(command) != 0:
+        raise RuntimeError("Compilation failed: " + command)
 
   try:
     mod = importlib.import_module(python_class)
-- 
2.43.0


From 8207dd1afb3aed2dbe512256dd4db9e70b44dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:30 +0000
Subject: [PATCH 33/36] fix: changes of the import scripts cause recompilation

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..c0fc303 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -36,7 +36,7 @@ def need_compile(conf, python_class, opt):
       + file_end).st_mtime
     if time_so < time_in:
       return True
-  for file in glob.glob(this_dir()):
+  for file in glob.glob(this_dir() + "/*.py"):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
-- 
2.43.0


From d151b9d38cb5a60129a4aa0d6eda9b381df26e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:18 +0000
Subject: [PATCH 34/36] fix: File geometries and node descriptors do not refer
 to topologies that are gone

---
 include/HyperHDG/geometry/file.hxx        | 3 ++-
 include/HyperHDG/node_descriptor/file.hxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/geometry/file.hxx b/include/HyperHDG/geometry/file.hxx
index a4731e0..cf4f7d4 100644
--- a/include/HyperHDG/geometry/file.hxx
+++ b/include/HyperHDG/geometry/file.hxx
@@ -320,7 +320,8 @@ class File
                    pointT,
                    hyEdge_index_t,
                    hyNode_index_t,
-                   pt_index_t>& domain_info_;
+                   pt_index_t>
+    domain_info_;
 
   /*!***********************************************************************************************
    * \brief   Refinment level corresponds to number of subintervals per dimension.
diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 3f6dd9c..c367f93 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -106,7 +106,8 @@ class File
                    pointT,
                    hyEdge_index_t,
                    hyNode_index_t,
-                   pt_index_t>& domain_info_;
+                   pt_index_t>
+    domain_info_;
 
   /*!***********************************************************************************************
    * \brief   Refinment level corresponds to number of subintervals per dimension.
-- 
2.43.0


From 9e0ecc12c4789f70673d16ad9fee027997256659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:18 +0000
Subject: [PATCH 35/36] fix: Python objects with geom_constr and without
 lsol_constr are refused instead of wrapping a null pointer

---
 cython/elliptic.pyx                   | 3 +--
 cython/mass_approx_eigenvalue.pyx     | 3 +--
 cython/nonlinear_eigenvalue.pyx       | 3 +--
 cython/parabolic.pyx                  | 3 +--
 cython/shifted_inverse_eigenvalue.pyx | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cython/elliptic.pyx b/cython/elliptic.pyx
index 01054f7..5da8694 100644
--- a/cython/elliptic.pyx
+++ b/cython/elliptic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/mass_approx_eigenvalue.pyx b/cython/mass_approx_eigenvalue.pyx
index 0184179..7847afb 100644
--- a/cython/mass_approx_eigenvalue.pyx
+++ b/cython/mass_approx_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/nonlinear_eigenvalue.pyx b/cython/nonlinear_eigenvalue.pyx
index 96a2dfb..ceca01a 100644
--- a/cython/nonlinear_eigenvalue.pyx
+++ b/cython/nonlinear_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/parabolic.pyx b/cython/parabolic.pyx
index 002f989..cc3d0c5 100644
--- a/cython/parabolic.pyx
+++ b/cython/parabolic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/shifted_inverse_eigenvalue.pyx b/cython/shifted_inverse_eigenvalue.pyx
index 7306198..042f34b 100644
--- a/cython/shifted_inverse_eigenvalue.pyx
+++ b/cython/shifted_inverse_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("If geom_constr is given, lsol_constr needs to be given, too.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
-- 
2.43.0


From 265cc3102ed9f09e0cdb9f38347d3e12e3271d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:10 +0000
Subject: [PATCH 36/36] fix: default loads of beams along the first axis belong
 to their analytic result

---
 include/HyperHDG/local_solver/timoshenko_network.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0803dff..2336d7d 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -44,7 +44,7 @@ struct TimoschenkoBeamParametersDefault
                                          const Point<space_dimT, param_float_t>& normal,
                                          const param_float_t = 0.)
   {
-    return M_PI * (M_PI - 1.) * cos(M_PI * point[0]) * normal[2] *
+    return M_PI * (M_PI + 1.) * cos(M_PI * point[0]) * normal[2] *
              (point[1] == 0. && point[2] == 0.) +
            M_PI * cos(M_PI * point[1]) * (M_PI * normal[1] + normal[0]) *
              (point[0] == 0. && point[2] == 0.);
@@ -60,7 +60,7 @@ struct TimoschenkoBeamParametersDefault
                                          const Point<space_dimT, param_float_t>& normal,
                                          const param_float_t = 0.)
   {
-    return (M_PI * M_PI - M_PI + 1.) * sin(M_PI * point[0]) * normal[1] *
+    return (M_PI * M_PI + M_PI + 1.) * sin(M_PI * point[0]) * normal[1] *
              (point[1] == 0. && point[2] == 0.) +
            (M_PI * M_PI + 1.) * sin(M_PI * point[1]) * normal[2] *
              (point[0] == 0. && point[2] == 0.);
-- 
2.43.0

