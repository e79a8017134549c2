From 8dc00547e0be2a72d329047ea909cbc374675000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 01/25] fix: write zeros of the reduced matrix R inside its own
 storage

The reduced R has n_cols rows, so its column stride is n_cols; with the stride of the
full matrix, tall matrices left stale entries or wrote behind the array.
---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 2703052..8102435 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -547,7 +547,7 @@ inline void get_r_from_lapack_qr_result(
   for (unsigned int i = 0; i < n_cols; ++i)    // i is column index, here!
     for (unsigned int j = 0; j < n_cols; ++j)  // j is row index, here!
       if (j > i)
-        mat_r[i * n_rows + j] = 0.;
+        mat_r[i * n_cols + j] = 0.;
       else
         mat_r[i * n_cols + j] = lapack_mat[i * n_rows + j];
 }
-- 
2.43.0


From 77406c9858cd89cb33d4bbe05fd9bf687b150f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 02/25] fix: make lapack_qr_decomp_r instantiable

The helper has no template parameter for the rank, so every use failed to compile.
---
 include/HyperHDG/wrapper/lapack.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 8102435..9848d70 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -586,7 +586,7 @@ std::array<lapack_float_t, n_rows * n_cols>& lapack_qr_decomp_r(
   constexpr unsigned int rank = std::min(n_rows, n_cols);
   std::array<lapack_float_t, rank> tau;
   lapack_qr(n_rows, n_cols, dense_mat.data(), tau.data());
-  return get_r_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat);
+  return get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
 }
 
 // -------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2e8654a0ecc74853835bb7fb5e09c9936cf3a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 03/25] fix: mat_times_transposed_mat computes A * B^T

It computed A^T * B^T (and did not compile for non-square operands).
---
 include/HyperHDG/dense_la.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 862a8a8..1fd453f 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -741,11 +741,11 @@ SmallMat<n_rowsA, n_rowsB, mat_entry_t> mat_times_transposed_mat(
   const SmallMat<n_rowsA, n_colsA, mat_entry_t>& A,
   const SmallMat<n_rowsB, n_colsA, mat_entry_t>& B)
 {
-  SmallMat<n_colsA, n_rowsB, mat_entry_t> result;
+  SmallMat<n_rowsA, n_rowsB, mat_entry_t> result;
   for (unsigned int rowB = 0; rowB < n_rowsB; ++rowB)
     for (unsigned int colA = 0; colA < n_colsA; ++colA)
       for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
-        result(colA, rowB) += A(rowA, colA) * B(rowB, rowA);
+        result(rowA, rowB) += A(rowA, colA) * B(rowB, colA);
   return result;
 }
 
-- 
2.43.0


From 6947b3b3146a9e8fd973bc4c68a1443ccd740d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 04/25] fix: sign of the determinant

LAPACK sets tau = 0 (no reflection) for columns that need no elimination, in particular for
the last column of a square matrix, so not every diagonal entry of R changes the sign:
determinant([[1,2],[3,4]]) was +2 and determinant([[5]]) was -5.
---
 include/HyperHDG/dense_la.hxx       | 8 ++++----
 include/HyperHDG/wrapper/lapack.hxx | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index 1fd453f..d095732 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1137,8 +1137,8 @@ void qr_decomp(const SmallMat<n_rows, n_cols, mat_entry_t>& mat,
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of (non-trivial) reflections is even
+ * and det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  *
  * The matrix is destroyed using this function. Its entries might be used to generate matrices Q and
  * R of the QR descomposition.
@@ -1153,8 +1153,8 @@ mat_entry_t determinant(SmallMat<n_rows, n_cols, mat_entry_t>& mat)
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of (non-trivial) reflections is even
+ * and det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  **************************************************************************************************/
 template <unsigned int n_rows, unsigned int n_cols, typename mat_entry_t>
 mat_entry_t determinant(const SmallMat<n_rows, n_cols, mat_entry_t>& mat)
diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index 9848d70..bf4c4b0 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -65,8 +65,8 @@ std::array<lapack_float_t, system_size * n_rhs_cols> lapack_solve(
  *
  * Calculate the generalized determinant of a rectangular matrix. If the matrix is square, this is
  * the standard determinant. The determinant is determined by doing a QR decomposition based on
- * Householder transformations. Thus det(Q) = +1, if the number of rows if even and det(Q) = -1, if
- * the number of rows is odd. This number is multiplied by the diagonal entries of R.
+ * Householder transformations. Thus det(Q) = +1, if the number of (non-trivial) reflections is even
+ * and det(Q) = -1, if it is odd. This number is multiplied by the diagonal entries of R.
  *
  * The matrix is destroyed using this function. Its entries might be used to generate matrices Q and
  * R of the QR descomposition.
@@ -399,7 +399,7 @@ lapack_float_t lapack_det(std::array<lapack_float_t, n_rows * n_cols>& dense_mat
 
   lapack_float_t determinant = 1.;
   for (unsigned int i = 0; i < rank; ++i)
-    determinant *= -dense_mat[i * (n_rows + 1)];
+    determinant *= (tau[i] == 0.) ? dense_mat[i * (n_rows + 1)] : -dense_mat[i * (n_rows + 1)];
   return determinant;
 }
 
-- 
2.43.0


From 291770a2c7519b78f11f4c0f790379222dc31702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 05/25] fix: qr_decomp returns Q with determinant +1

The number of Householder reflections is not the number of rows, e.g., the 3 x 2 case
returned Q with determinant -1.
---
 include/HyperHDG/dense_la.hxx       |  7 ++++---
 include/HyperHDG/wrapper/lapack.hxx | 11 +++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index d095732..fcb0ae3 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1067,12 +1067,13 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
                SmallSquareMat<n_cols, mat_entry_t>& mat_r)
 {
   static_assert(n_cols <= n_rows, "Function only defined for these matrices!");
-  Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
+  const bool reflects =
+    Wrapper::lapack_qr_decomp<n_rows, n_cols, mat_entry_t>(mat.data(), mat_q.data(), mat_r.data());
   SmallVec<n_rows, mat_entry_t> factors(1.);
   bool switch_necessary = false;
 
-  // Q should have determinant = +1 and not -1 (as it has for odd dimensions)!
-  if (n_rows % 2 == 1)
+  // Q should have determinant = +1 and not -1 (as it has for an odd number of reflections)!
+  if (reflects)
   {
     if (n_cols == n_rows)
       factors[0] *= -1.;
diff --git a/include/HyperHDG/wrapper/lapack.hxx b/include/HyperHDG/wrapper/lapack.hxx
index bf4c4b0..85d9a84 100644
--- a/include/HyperHDG/wrapper/lapack.hxx
+++ b/include/HyperHDG/wrapper/lapack.hxx
@@ -145,9 +145,10 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
  * \retval  dense_mat   Matrix R of Householder QR decomposition.
  * \retval  mat_q       Matrix Q of Householder QR decomposition.
  * \retval  mat_r       Square system of size n_cols that contains respective part of R.
+ * \retval  reflects    Whether det(Q) = -1, i.e., the number of reflections in Q is odd.
  **************************************************************************************************/
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+bool lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
                       std::array<lapack_float_t, n_rows * n_rows>& mat_q,
                       std::array<lapack_float_t, n_cols * n_cols>& mat_r);
 
@@ -610,7 +611,7 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
 // -------------------------------------------------------------------------------------------------
 
 template <unsigned int n_rows, unsigned int n_cols, typename lapack_float_t>
-void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
+bool lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
                       std::array<lapack_float_t, n_rows * n_rows>& mat_q,
                       std::array<lapack_float_t, n_cols * n_cols>& mat_r)
 {
@@ -621,6 +622,12 @@ void lapack_qr_decomp(std::array<lapack_float_t, n_rows * n_cols>& dense_mat,
   get_q_from_lapack_qr_result<n_rows, n_cols, rank, lapack_float_t>(dense_mat, tau, mat_q);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat, mat_r);
   get_r_from_lapack_qr_result<n_rows, n_cols, lapack_float_t>(dense_mat);
+
+  bool reflects = false;
+  for (unsigned int i = 0; i < rank; ++i)
+    if (tau[i] != 0.)
+      reflects = !reflects;
+  return reflects;
 }
 
 }  // end of namespace Wrapper
-- 
2.43.0


From 99e0b983b5d0473a4c61e029be8bcb26c9442f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:16 +0000
Subject: [PATCH 06/25] fix: qr_decomp returns the R that belongs to the
 returned Q

The normalisation of signs was applied to Q and the reduced R, but not to the full R, so
Q * mat differed from the factorised matrix.
---
 include/HyperHDG/dense_la.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HyperHDG/dense_la.hxx b/include/HyperHDG/dense_la.hxx
index fcb0ae3..2a69ba6 100644
--- a/include/HyperHDG/dense_la.hxx
+++ b/include/HyperHDG/dense_la.hxx
@@ -1105,7 +1105,10 @@ void qr_decomp(SmallMat<n_rows, n_cols, mat_entry_t>& mat,
   for (unsigned int i = 0; i < n_cols; ++i)
     if (factors[i] < 0.)
       for (unsigned int j = 0; j < n_cols; ++j)
+      {
         mat_r(i, j) *= factors[i];
+        mat(i, j) *= factors[i];
+      }
 }
 /*!*************************************************************************************************
  * \brief   Normalized QR decomposition.
-- 
2.43.0


From e0a95575f4c2bac13f4fc280a4b90e3c3dbc2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 07/25] fix: Parabolic::make_initial does not truncate the time
 to an integer

---
 include/HyperHDG/global_loop/parabolic.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HyperHDG/global_loop/parabolic.hxx b/include/HyperHDG/global_loop/parabolic.hxx
index 0c714c9..87405ea 100644
--- a/include/HyperHDG/global_loop/parabolic.hxx
+++ b/include/HyperHDG/global_loop/parabolic.hxx
@@ -345,7 +345,7 @@ class Parabolic
    * \retval  y_vec         A vector containing the initial fluxes.
    ************************************************************************************************/
   template <typename hyNode_index_t = dof_index_t>
-  LargeVecT make_initial(const LargeVecT& x_vec, const dof_index_t time = 0.)
+  LargeVecT make_initial(const LargeVecT& x_vec, const dof_value_t time = 0.)
   {
     constexpr unsigned int hyEdge_dim = TopologyT::hyEdge_dim();
     constexpr unsigned int n_dofs_per_node = LocalSolverT::n_glob_dofs_per_node();
-- 
2.43.0


From 562c80c7d9aea5f64ba895c08deab61494bd3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:35 +0000
Subject: [PATCH 08/25] fix: dirichlet_indices does not keep the indices of
 earlier calls

---
 include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx     | 1 +
 include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
index 84ed712..83d5d0b 100644
--- a/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/mass_approx_eigenvalue.hxx
@@ -145,6 +145,7 @@ class MassApproxEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
diff --git a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
index d88558f..6265bc2 100644
--- a/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
+++ b/include/HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx
@@ -141,6 +141,7 @@ class ShiftedInverseEigenvalue
     SmallVec<2 * hyEdge_dim, hyNode_index_t> hyEdge_hyNodes;
     std::array<unsigned int, 2 * hyEdge_dim> hyNode_types;
 
+    dirichlet_indices_.clear();
     std::for_each(hyper_graph_.begin(), hyper_graph_.end(),
                   [&](auto hyper_edge)
                   {
-- 
2.43.0


From 96b844211e75293b2edf69f3de684d893b41ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:14 +0000
Subject: [PATCH 09/25] fix: keep the full precision of the points of an
 epsilon neighborhood graph

---
 include/HyperHDG/epsilon_neighborhood_graph.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HyperHDG/epsilon_neighborhood_graph.hxx b/include/HyperHDG/epsilon_neighborhood_graph.hxx
index be6b2f0..07fc10f 100644
--- a/include/HyperHDG/epsilon_neighborhood_graph.hxx
+++ b/include/HyperHDG/epsilon_neighborhood_graph.hxx
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <deque>
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -128,6 +129,7 @@ void make_epsilon_neighborhood_graph(std::string& filename)
   infile.close();
   filename = filename + ".geo";
   std::ofstream outfile(filename);
+  outfile.precision(std::numeric_limits<float_t>::max_digits10);
 
   outfile << "Space_Dim     = " << dim << ";" << std::endl;
   outfile << "HyperEdge_Dim = 1;" << std::endl << std::endl;
-- 
2.43.0


From 991ebaf8094688e4f8103192c15f12aa6acabc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 10/25] fix: the fileEnding plot option is returned as text

The enum was converted to a character, so querying the option gave a NUL character instead of vtu.
---
 include/HyperHDG/plot.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 60ef102..08968ba 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -116,6 +116,10 @@ struct PlotOptions
   bool numbers = false;
 };  // end of class PlotOptions
 
+namespace PlotFunctions
+{
+std::string fileType_to_string(const PlotOptions::fileType& type);
+}  // namespace PlotFunctions
 /*!*************************************************************************************************
  * \brief Set a plot option and return the new value of this option as std::string.
  **************************************************************************************************/
@@ -161,7 +165,7 @@ std::string set_plot_option(PlotOptions& plot_options,
   else if (option == "fileName")
     return_value = plot_options.fileName;
   else if (option == "fileEnding")
-    return_value = plot_options.fileEnding;
+    return_value = PlotFunctions::fileType_to_string(plot_options.fileEnding);
   else if (option == "fileNumber")
     return_value = std::to_string(plot_options.fileNumber);
   else if (option == "printFileNumber")
-- 
2.43.0


From 3f3a59bfefcf9d9d86e862c308f37466f5ef602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 11/25] fix: number boundary points as boundary_lexicographic
 expects it

The point index of a boundary counts the points of all boundaries of the hyperedge; the number within
the boundary made the geometries convert a negative floating point number to unsigned.
---
 include/HyperHDG/plot.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 08968ba..5fc0bbf 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -425,7 +425,8 @@ void plot_vtu_unstructured_geometry(std::ostream& output,
           output << "        ";
           const Point<space_dim> point =
             (Point<space_dim>)edge.template boundary_lexicographic<n_subpoints>(
-              pt_number, boundary, plot_options.boundary_scale, boundary_sub_points);
+              pt_number + boundary * points_per_boundary, boundary, plot_options.boundary_scale,
+              boundary_sub_points);
 
           if (he_number == 0)
             for (unsigned int dim = 0; dim < space_dim; ++dim)
-- 
2.43.0


From 10bcdc64c0c598bcd54569ac9690f98542577a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 12/25] fix: pad the plotted values of every boundary corner

The missing components were appended once per boundary, so the values array was too short whenever a
boundary has several corners and the skeletal unknown has fewer components than the local one.
---
 include/HyperHDG/plot.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/plot.hxx b/include/HyperHDG/plot.hxx
index 5fc0bbf..278554c 100644
--- a/include/HyperHDG/plot.hxx
+++ b/include/HyperHDG/plot.hxx
@@ -680,10 +680,10 @@ void plot_boundary_values(HyperGraphT& hyper_graph,
         myfile << "  ";
         for (unsigned int d = 0; d < LocalSolverT::node_system_dimension(); ++d)
           myfile << "  " << local_values[d][corner];  // AR: I switched d and corner!?
+        for (unsigned int d = LocalSolverT::node_system_dimension();
+             d < LocalSolverT::system_dimension(); ++d)
+          myfile << "  " << 0;  // AR: I switched d and corner!?
       }
-      for (unsigned int d = LocalSolverT::node_system_dimension();
-           d < LocalSolverT::system_dimension(); ++d)
-        myfile << "  " << 0;  // AR: I switched d and corner!?
       myfile << std::endl;
     }
   }
-- 
2.43.0


From 7249e2f26a93067fd75878b5335374af3b1d0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 13/25] fix: copy constructor of NodeDescriptor::File used a
 nonexistent member and reset the refinement

---
 include/HyperHDG/node_descriptor/file.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/HyperHDG/node_descriptor/file.hxx b/include/HyperHDG/node_descriptor/file.hxx
index 2a30af3..3f6dd9c 100644
--- a/include/HyperHDG/node_descriptor/file.hxx
+++ b/include/HyperHDG/node_descriptor/file.hxx
@@ -152,12 +152,10 @@ class File
                   hyEdge_index_t,
                   hyNode_index_t,
                   pt_index_t>& other)
-  : domain_info_(other.domain_info),
-    n_subintervals_(1),
-    tpcc_ref_elem_(
-      Wrapper::create_tpcc<hyEdge_dimT, hyEdge_dimT, TPCC::boundaries::both, hyEdge_index_t>(
-        SmallVec<hyEdge_dimT, unsigned int>(n_subintervals_))),
-    n_hyEdges_(domain_info_.n_hyEdges)
+  : domain_info_(other.domain_info_),
+    n_subintervals_(other.n_subintervals_),
+    tpcc_ref_elem_(other.tpcc_ref_elem_),
+    n_hyEdges_(other.n_hyEdges_)
   {
   }
 
-- 
2.43.0


From 82fd8de819716adc38badee7b0bd82faeb12a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 14/25] fix: include() no longer adds headers to the user's (or
 the shared default) include list

---
 import/HyperHDG/import_cxx/include.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/include.py b/import/HyperHDG/import_cxx/include.py
index 8bdbe5f..1659f98 100644
--- a/import/HyperHDG/import_cxx/include.py
+++ b/import/HyperHDG/import_cxx/include.py
@@ -1,4 +1,4 @@
-import os, sys, importlib, re, datetime
+import os, sys, copy, importlib, re, datetime
 from .cmake import get_options
 from .compile_prep import compile_commands, need_compile
 from .config import *
@@ -13,6 +13,10 @@ def include(conf):
   # Check that conf is appropriatelly filled.
   assert isinstance(conf, config) and consistent(conf)
 
+  # Work on a copy, since the list of include files is extended (and might be the shared default).
+  conf = copy.copy(conf)
+  conf.include_files = list(conf.include_files)
+
   # Start program.
   options = get_options()
   print("Cythonizing ... ", end='', flush=True)
-- 
2.43.0


From 9cd3b522a956f4fd61f9f177197b92a962ab22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 15/25] fix: configurations with different replacements,
 includes, or own code have different modules

---
 import/HyperHDG/import_cxx/names.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import/HyperHDG/import_cxx/names.py b/import/HyperHDG/import_cxx/names.py
index fd2e6d4..97c83be 100644
--- a/import/HyperHDG/import_cxx/names.py
+++ b/import/HyperHDG/import_cxx/names.py
@@ -12,6 +12,7 @@ def files(conf):
                  + conf.node_descriptor + ",LocalSolver::" + conf.local_solver + " >"
   cython_file  = cpp_class + "_deb" if conf.debug_mode else cpp_class + "_rel"
   cython_file  = re.sub(' ', '', cython_file)
+  cython_file += str([conf.cython_replacements, conf.include_files, conf.cpp_code])
   cython_file  = "mod" + str(hashlib.sha256(cython_file.encode('utf-8')).hexdigest())
   cython_file  = re.sub('\+|\-|\*|\/|<|>|\,|\:', '_', cython_file)
   cython_class = cython_file + "CP"
-- 
2.43.0


From 552dcaa4e909626f0ec515690ca9567b4c3667c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 16/25] fix: recompile if a script of the import package has
 changed

---
 import/HyperHDG/import_cxx/compile_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/compile_prep.py b/import/HyperHDG/import_cxx/compile_prep.py
index 81490b2..c0fc303 100644
--- a/import/HyperHDG/import_cxx/compile_prep.py
+++ b/import/HyperHDG/import_cxx/compile_prep.py
@@ -36,7 +36,7 @@ def need_compile(conf, python_class, opt):
       + file_end).st_mtime
     if time_so < time_in:
       return True
-  for file in glob.glob(this_dir()):
+  for file in glob.glob(this_dir() + "/*.py"):
     if time_so < os.stat(file).st_mtime:
       return True
   dependent_files = [ x for x in conf.include_files if ".hxx" in x ]
-- 
2.43.0


From 9bd0f61d67a7b71327dc6c7c102a28669b611e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 17/25] fix: find_definition also finds structs

---
 import/HyperHDG/import_cxx/cpp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/import/HyperHDG/import_cxx/cpp.py b/import/HyperHDG/import_cxx/cpp.py
index d9ad0dc..8df43e8 100644
--- a/import/HyperHDG/import_cxx/cpp.py
+++ b/import/HyperHDG/import_cxx/cpp.py
@@ -10,6 +10,7 @@ def extract_classname(fullname):
 def find_definition(folder, classname):
   for file in glob.glob(main_dir() + "/include/HyperHDG/" + folder + "/*.hxx"):
     with open(file, "r") as hxxfile:
-      if ("\nclass " + classname + "\n{" or "\nstruct " + classname + "\n{") in hxxfile.read():
+      content = hxxfile.read()
+      if "\nclass " + classname + "\n{" in content or "\nstruct " + classname + "\n{" in content:
         return re.sub(main_dir() + "/include/", '', file)
   assert False, "File containing defintion of " + classname + " has not been found!"
-- 
2.43.0


From b4f677674006343579628c1fa327087e3dc5dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:23 +0000
Subject: [PATCH 18/25] fix: constructing a wrapper with geometry but without
 local solver data raised no error and left a null pointer

---
 cython/elliptic.pyx                   | 3 +--
 cython/mass_approx_eigenvalue.pyx     | 3 +--
 cython/nonlinear_eigenvalue.pyx       | 3 +--
 cython/parabolic.pyx                  | 3 +--
 cython/shifted_inverse_eigenvalue.pyx | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cython/elliptic.pyx b/cython/elliptic.pyx
index 01054f7..3273a7a 100644
--- a/cython/elliptic.pyx
+++ b/cython/elliptic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/mass_approx_eigenvalue.pyx b/cython/mass_approx_eigenvalue.pyx
index 0184179..7523e62 100644
--- a/cython/mass_approx_eigenvalue.pyx
+++ b/cython/mass_approx_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/nonlinear_eigenvalue.pyx b/cython/nonlinear_eigenvalue.pyx
index 96a2dfb..61f2d0e 100644
--- a/cython/nonlinear_eigenvalue.pyx
+++ b/cython/nonlinear_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/parabolic.pyx b/cython/parabolic.pyx
index 002f989..9b9c67c 100644
--- a/cython/parabolic.pyx
+++ b/cython/parabolic.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
diff --git a/cython/shifted_inverse_eigenvalue.pyx b/cython/shifted_inverse_eigenvalue.pyx
index 7306198..010ab85 100644
--- a/cython/shifted_inverse_eigenvalue.pyx
+++ b/cython/shifted_inverse_eigenvalue.pyx
@@ -16,8 +16,7 @@ cdef class PythonClassName :
       if isinstance(geom_constr,str):
         geom_constr = geom_constr.encode()
       if lsol_constr == 'default':
-        print("Python defaults lsol_constr to 1 and might overwrite C++ settings at this point.\n")
-        # self.thisptr = new CythonClassName (topo_constr, geom_constr, 1.)
+        raise ValueError("lsol_constr needs to be given if geom_constr is given.")
       else:
         self.thisptr = new CythonClassName (topo_constr, geom_constr, lsol_constr)
   def __dealloc__(self):
-- 
2.43.0


From 33a0023557155ec32eac8c4ceba5a7e37b361f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:22 +0000
Subject: [PATCH 19/25] fix: errors of the eigenvalue local solvers used an
 undeclared variable

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx | 2 +-
 include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index ab8b42a..618c673 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -614,7 +614,7 @@ class BilaplacianEigs
     lSol_float_t result = integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time);
+                                                                      eig);
     hy_assert(result >= 0., "The squared error must be non-negative, but was " << result);
     return std::array<lSol_float_t, 1U>({result});
   }
diff --git a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
index 630c3ab..3d77a00 100644
--- a/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx
@@ -546,7 +546,7 @@ class DiffusionEigs
     return std::array<lSol_float_t, 1U>({integrator::template integrate_vol_diffsquare_discana<
       Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
       parameters::analytic_result, Point<hyEdge_dimT, lSol_float_t> >(coeffs, hy_edge.geometry,
-                                                                      time)});
+                                                                      eig)});
   }
   /*!***********************************************************************************************
    * \brief   Evaluate local local reconstruction at tensorial products of abscissas.
-- 
2.43.0


From cd43dff5fbe2696311d1fa169d8f09bde01b554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 20/25] fix: residual_flux of the bilaplacian solvers penalised
 against the wrong skeletal unknown

---
 include/HyperHDG/local_solver/bilaplacian_ldgh.hxx       | 6 ++++--
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
index 92f174e..14898cf 100644
--- a/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_ldgh.hxx
@@ -600,8 +600,10 @@ class Bilaplacian
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c02638..9c0179f 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -541,8 +541,10 @@ class BilaplacianParab
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
       for (unsigned int j = 0; j < lambda_values_out[i].size(); ++j)
-        lambda_values_out[i][j] = duals[i][j] + tau_ * primals[i][j] -
-                                  tau_ * lambda_values_in[i][j] * hyper_edge.geometry.face_area(i);
+        lambda_values_out[i][j] =
+          duals[i][j] + tau_ * primals[i][j] -
+          tau_ * lambda_values_in[i][j < n_shape_bdr_ ? j + n_shape_bdr_ : j - n_shape_bdr_] *
+            hyper_edge.geometry.face_area(i);
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
         for (unsigned int j = 0; j < lambda_values_out[i].size() / 2; ++j)
           lambda_values_out[i][j] = 0.;
-- 
2.43.0


From 3fe515dacc9e5a5e022ce0b53083b18838b0a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:53 +0000
Subject: [PATCH 21/25] fix: initial values of the bilaplacian solvers were
 integrated for the wrong face or shape function

---
 include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx  | 2 +-
 include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
index 618c673..ac111e7 100644
--- a/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx
@@ -484,7 +484,7 @@ class BilaplacianEigs
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t> >(j, i, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t> >(j - n_shape_bdr_, i, hyper_edge.geometry, time);
       }
     }
 
diff --git a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
index 9c0179f..5ad0e2d 100644
--- a/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
+++ b/include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx
@@ -602,12 +602,12 @@ class BilaplacianParab
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial, Point<hyEdge_dimT, lSol_float_t>>(
-            i, j, hyper_edge.geometry, time);
+            j, i, hyper_edge.geometry, time);
         for (unsigned int j = lambda_values[i].size() / 2; j < lambda_values[i].size(); ++j)
           lambda_values[i][j] = integrator::template integrate_bdrUni_psifunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::initial_laplace,
-            Point<hyEdge_dimT, lSol_float_t>>(i, j, hyper_edge.geometry, time);
+            Point<hyEdge_dimT, lSol_float_t>>(j - n_shape_bdr_, i, hyper_edge.geometry, time);
       }
     }
 
-- 
2.43.0


From f3a1e2f6cd4d4c32243e2ac732996820149ebd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:50 +0000
Subject: [PATCH 22/25] fix: diffusion coefficient at faces and advective
 velocity were evaluated at time zero

---
 .../diffusion_advection_reaction_ldg.hxx          |  2 +-
 include/HyperHDG/local_solver/diffusion_ip.hxx    | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
index e57447d..574319d 100644
--- a/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
+++ b/include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx
@@ -998,7 +998,7 @@ DiffusionAdvectionReaction<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_fl
           integrator::template integrate_vol_phiphivecfunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::advective_velocity,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry);
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, dim, hyper_edge.geometry, time);
       }
     }
   }
diff --git a/include/HyperHDG/local_solver/diffusion_ip.hxx b/include/HyperHDG/local_solver/diffusion_ip.hxx
index da65b80..c2a937e 100644
--- a/include/HyperHDG/local_solver/diffusion_ip.hxx
+++ b/include/HyperHDG/local_solver/diffusion_ip.hxx
@@ -390,12 +390,14 @@ class DiffusionIP
    * \tparam  hyEdgeT       The geometry type / typename of the considered hyEdge's geometry.
    * \param   coeffs        Coefficients of the local solution.
    * \param   hyper_edge    The geometry of the considered hyperedge (of typename GeomT).
+   * \param   time          Point of time the diffusion coefficient is evaluated at.
    * \retval  bdr_coeffs    Coefficients of respective (dim-1) dimensional function at boundaries.
    ************************************************************************************************/
   template <typename hyEdgeT>
   inline SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> dual_at_boundary(
     const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-    hyEdgeT& hyper_edge) const;
+    hyEdgeT& hyper_edge,
+    const lSol_float_t time) const;
 
  public:
   // -----------------------------------------------------------------------------------------------
@@ -450,7 +452,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[i]))
@@ -514,7 +516,7 @@ class DiffusionIP
 
     SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> primals(
       primal_at_boundary(coeffs, hyper_edge)),
-      duals(dual_at_boundary(coeffs, hyper_edge));
+      duals(dual_at_boundary(coeffs, hyper_edge, time));
 
     for (unsigned int i = 0; i < lambda_values_out.size(); ++i)
     {
@@ -633,7 +635,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::assembl
         local_mat(i, j) -= integrator::template integrate_bdr_nablaphiphinufunc<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry);
+          Point<hyEdge_dimT, lSol_float_t> >(j, i, face, hyper_edge.geometry, time);
       }
     }
   }
@@ -795,7 +797,8 @@ inline SmallMat<
   lSol_float_t>
 DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at_boundary(
   const SmallVec<n_loc_dofs_, lSol_float_t>& coeffs,
-  hyEdgeT& hyper_edge) const
+  hyEdgeT& hyper_edge,
+  const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   SmallMat<2 * hyEdge_dimT, n_shape_bdr_, lSol_float_t> bdr_values;
@@ -807,7 +810,7 @@ DiffusionIP<hyEdge_dimT, poly_deg, quad_deg, parametersT, lSol_float_t>::dual_at
           integrator::template integrate_bdr_nablaphipsinufunc<
             Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
             decltype(hyEdgeT::geometry), parameters::diffusion_coeff,
-            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry) *
+            Point<hyEdge_dimT, lSol_float_t> >(i, j, face, hyper_edge.geometry, time) *
           coeffs[i];
 
   return bdr_values;
-- 
2.43.0


From c988d843952378e80e5853bc46c4d1799597b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:11 +0000
Subject: [PATCH 23/25] fix: data of the Timoshenko beam were evaluated at time
 zero

---
 .../local_solver/timoshenko_network.hxx       | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/HyperHDG/local_solver/timoshenko_network.hxx b/include/HyperHDG/local_solver/timoshenko_network.hxx
index 0695b75..0803dff 100644
--- a/include/HyperHDG/local_solver/timoshenko_network.hxx
+++ b/include/HyperHDG/local_solver/timoshenko_network.hxx
@@ -376,7 +376,7 @@ class TimoshenkoBeam
   template <typename hyEdgeT>
   inline SmallVec<n_loc_dofs_, lSol_float_t> assemble_rhs_from_global_rhs(
     hyEdgeT& hyper_edge,
-    const unsigned int dim) const;
+    const lSol_float_t time) const;
 
   template <class hyEdgeT, typename SmallMatT>
   inline std::array<std::array<double, 2 * space_dim>, 2 * hyEdge_dimT> node_dof_to_edge_dof(
@@ -884,7 +884,7 @@ inline SmallVec<
     n_loc_dofs_,
   lSol_float_t>
 TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_float_t>::
-  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const unsigned int dim) const
+  assemble_rhs_from_global_rhs(hyEdgeT& hyper_edge, const lSol_float_t time) const
 {
   using parameters = parametersT<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>;
   // constexpr unsigned int n_dofs_lap = n_loc_dofs_ / 2;
@@ -897,33 +897,33 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_n, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
 
     right_hand_side[3 * space_dim * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, 1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -1, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] =
       integrator::template integrate_vol_phivecfunccomp<
         Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>, decltype(hyEdgeT::geometry),
         parameters::right_hand_side_m, Point<hyEdge_dimT, lSol_float_t>>(i, -2, hyper_edge.geometry,
-                                                                         0.);
+                                                                         time);
     for (unsigned int face = 0; face < 2 * hyEdge_dimT; ++face)
     {
       if (is_dirichlet<parameters>(hyper_edge.node_descriptor[face]))
@@ -931,7 +931,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -939,7 +939,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -947,7 +947,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_u,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(0 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(2 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
@@ -955,7 +955,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, 1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 0) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 0) * n_shape_fct_ + i] += tau_ * integral;
@@ -963,7 +963,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -1, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 1) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 1) * n_shape_fct_ + i] += tau_ * integral;
@@ -971,7 +971,7 @@ TimoshenkoBeam<hyEdge_dimT, space_dim, poly_deg, quad_deg, parametersT, lSol_flo
         integral = integrator::template integrate_bdr_phivecfunccomp<
           Point<decltype(hyEdgeT::geometry)::space_dim(), lSol_float_t>,
           decltype(hyEdgeT::geometry), parameters::dirichlet_value_phi,
-          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, 0.);
+          Point<hyEdge_dimT, lSol_float_t>>(i, face, -2, hyper_edge.geometry, time);
         right_hand_side[(1 * space_dim + 2) * n_shape_fct_ + i] -=
           hyper_edge.geometry.local_normal(face).operator[](0) * integral;
         right_hand_side[(3 * space_dim + 2) * n_shape_fct_ + i] += tau_ * integral;
-- 
2.43.0


From 19fc7db85c47108eb1bb36753911627f53a55803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:55 +0000
Subject: [PATCH 24/25] fix: cross.geo declares Space_Dim = 3, so its points
 need three coordinates

---
 domains/cross.geo | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/domains/cross.geo b/domains/cross.geo
index 7c9d2dc..d94685d 100644
--- a/domains/cross.geo
+++ b/domains/cross.geo
@@ -14,11 +14,11 @@ N_HyperEdges  = 4;  # Number of hyperedges that are contained in the hypergraph.
 # point and therefore "Space_Dimension" numbers.
 
 POINTS:
-0.0 0.0
-1.0 0.0 
-0.0 1.0
--1. 0.0 
-0.0 -1. 
+0.0 0.0 0.0
+1.0 0.0 0.0
+0.0 1.0 0.0
+-1. 0.0 0.0
+0.0 -1. 0.0
 # 0.0 0.0 1.0
 # 0.0 0.0 -1.
 
-- 
2.43.0


From 76e2c109f22502951e15a707d9b4b1ec55ef043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:55 +0000
Subject: [PATCH 25/25] fix: read domains/cross.geo in the space dimension it
 declares (debug builds abort otherwise)

---
 ...iffusion_convergence_eigenvalue_shifted_inverse_cross.py | 6 +++---
 ...iffusion_hypergraph_convergence_eigenvalue_newt_cross.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/reproducibles_python/diffusion_convergence_eigenvalue_shifted_inverse_cross.py b/reproducibles_python/diffusion_convergence_eigenvalue_shifted_inverse_cross.py
index 1017f7e..3b96607 100644
--- a/reproducibles_python/diffusion_convergence_eigenvalue_shifted_inverse_cross.py
+++ b/reproducibles_python/diffusion_convergence_eigenvalue_shifted_inverse_cross.py
@@ -76,9 +76,9 @@ def eigenvalue_approx_SI(poly_degree, dimension, iteration, debug_mode=False):
   
   const                 = HyperHDG.config()
   const.global_loop     = "ShiftedInverseEigenvalue"
-  const.topology        = "File<1,2,std::vector,Point<2,double> >"
-  const.geometry        = "File<1,2,std::vector,Point<2,double> >"
-  const.node_descriptor = "File<1,2,std::vector,Point<2,double> >"
+  const.topology        = "File<1,3,std::vector,Point<3,double> >"
+  const.geometry        = "File<1,3,std::vector,Point<3,double> >"
+  const.node_descriptor = "File<1,3,std::vector,Point<3,double> >"
   const.local_solver    = "DiffusionEigs<1," + str(poly_degree) + "," \
     + str(2*poly_degree) + ",TestParametersEigs,double>"
   const.cython_replacements = ["string", "string"]
diff --git a/reproducibles_python/diffusion_hypergraph_convergence_eigenvalue_newt_cross.py b/reproducibles_python/diffusion_hypergraph_convergence_eigenvalue_newt_cross.py
index c8ab47c..530c4c1 100644
--- a/reproducibles_python/diffusion_hypergraph_convergence_eigenvalue_newt_cross.py
+++ b/reproducibles_python/diffusion_hypergraph_convergence_eigenvalue_newt_cross.py
@@ -58,9 +58,9 @@ def eigenvalue_newt(poly_degree, dimension, iteration, initial="default", debug_
   
   const                 = HyperHDG.config()
   const.global_loop     = "NonlinearEigenvalue"
-  const.topology        = "File<1,2,std::vector,Point<2,double> >"
-  const.geometry        = "File<1,2,std::vector,Point<2,double> >"
-  const.node_descriptor = "File<1,2,std::vector,Point<2,double> >"
+  const.topology        = "File<1,3,std::vector,Point<3,double> >"
+  const.geometry        = "File<1,3,std::vector,Point<3,double> >"
+  const.node_descriptor = "File<1,3,std::vector,Point<3,double> >"
   const.local_solver    = "DiffusionEigs<1," + str(poly_degree) + "," \
     + str(2*poly_degree) + ",TestParametersEigs,double>"
   const.cython_replacements = ["string", "string"]
-- 
2.43.0

