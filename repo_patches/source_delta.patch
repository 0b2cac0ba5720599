From 981515d69de28c823e54105571307d946febfa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 01/33] fix: escape XML special characters when translating a
 property tree

---
 source/common/utils.cc | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index ffdb0a1..f7b8bc1 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -17,6 +17,36 @@
 
 namespace mfmg
 {
+// Replace the characters that cannot appear in the value of an XML attribute
+static std::string escape_xml(std::string const &input)
+{
+  std::string output;
+  for (char const c : input)
+  {
+    switch (c)
+    {
+    case '&':
+      output += "&amp;";
+      break;
+    case '<':
+      output += "&lt;";
+      break;
+    case '>':
+      output += "&gt;";
+      break;
+    case '"':
+      output += "&quot;";
+      break;
+    case '\'':
+      output += "&apos;";
+      break;
+    default:
+      output += c;
+    }
+  }
+  return output;
+}
+
 static std::ostream &
 ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
 {
@@ -28,7 +58,7 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
     bool child_is_sublist = !item.second.empty();
     if (child_is_sublist)
     {
-      os << "<ParameterList name=\"" << item.first << "\">" << std::endl;
+      os << "<ParameterList name=\"" << escape_xml(item.first) << "\">" << std::endl;
       ptree2plist_internal(item.second, os);
       os << "</ParameterList>" << std::endl;
     }
@@ -54,8 +84,9 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
         value_type = "string";
       }
 
-      os << "<Parameter name=\"" << item.first << "\" type=\"" << value_type
-         << "\" value=\"" << value << "\"/>" << std::endl;
+      os << "<Parameter name=\"" << escape_xml(item.first) << "\" type=\""
+         << value_type << "\" value=\"" << escape_xml(value) << "\"/>"
+         << std::endl;
     }
   }
   return os;
-- 
2.43.0


From dd8390c9cd3228fc394eb6e3f3a57ece2ec6ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 02/33] fix: forget the agglomerates of a previous call in the
 block partitioner

---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..4a67e23 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -419,6 +419,11 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
   unsigned int constexpr y_p = 3;
   unsigned int constexpr z_p = 5;
 
+  // Remove the flags set by a previous call, otherwise the flagged cells would
+  // be considered to be part of an agglomerate
+  for (auto cell : _dof_handler.active_cell_iterators())
+    cell->set_user_index(0);
+
   // Flag the cells to create the agglomerates
   unsigned int agglomerate = 1;
   for (auto cell : _dof_handler.active_cell_iterators())
-- 
2.43.0


From 73ff94aced8c0b51cefc76958384d03bb045fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 03/33] fix: do not let an agglomerate take cells away from
 another one

---
 include/mfmg/common/amge.templates.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 4a67e23..12e1c6d 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -455,7 +455,9 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
                   (neighbor_cell->level() != cell_level))
                 throw std::runtime_error("Mesh locally refined");
 #endif
-              if (neighbor_cell->is_locally_owned())
+              // Do not take cells away from another agglomerate
+              if (neighbor_cell->is_locally_owned() &&
+                  (neighbor_cell->user_index() == 0))
                 current_cell = neighbor_cell;
             }
             else
@@ -464,7 +466,8 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
           if (current_y_cell->at_boundary(y_p) == false)
           {
             auto neighbor_y_cell = current_y_cell->neighbor(y_p);
-            if (neighbor_y_cell->is_locally_owned())
+            if (neighbor_y_cell->is_locally_owned() &&
+                (neighbor_y_cell->user_index() == 0))
             {
 #if MFMG_DEBUG
               if ((!neighbor_y_cell->active()) ||
@@ -480,7 +483,8 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
         if ((dim == 3) && (current_z_cell->at_boundary(z_p) == false))
         {
           auto neighbor_z_cell = current_z_cell->neighbor(z_p);
-          if (neighbor_z_cell->is_locally_owned())
+          if (neighbor_z_cell->is_locally_owned() &&
+              (neighbor_z_cell->user_index() == 0))
           {
 #if MFMG_DEBUG
             if ((!neighbor_z_cell->active()) ||
-- 
2.43.0


From 4f1cb45dfd90924f1abad0e6be642af2516e6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 04/33] fix: name the visualization piece of every rank in the
 pvtu record

---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 12e1c6d..ad06c70 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -262,7 +262,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From d63dbd88dee29b14f70b839ccdbf7b122e1a37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 05/33] fix: keep small entries when writing a serial matrix in
 MatrixMarket format

---
 source/dealii/dealii_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_utils.cc b/source/dealii/dealii_utils.cc
index 9cc5c39..c639e64 100644
--- a/source/dealii/dealii_utils.cc
+++ b/source/dealii/dealii_utils.cc
@@ -74,7 +74,8 @@ void matrix_market_output_file(std::string const &filename,
                                dealii::SparseMatrix<double> const &matrix)
 {
   dealii::TrilinosWrappers::SparseMatrix trilinos_matrix;
-  trilinos_matrix.reinit(matrix);
+  // keep the entries that are smaller than the default drop tolerance
+  trilinos_matrix.reinit(matrix, 0.);
 
   matrix_market_output_file(filename, trilinos_matrix);
 }
-- 
2.43.0


From 81cee992a965cbeb1398cc7986bd154125aaa636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 06/33] fix: keep the smallest eigenpairs of all deflated
 Lanczos cycles

---
 include/mfmg/common/lanczos.templates.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..ee7c557 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -145,25 +145,24 @@ Lanczos<OperatorType, VectorType>::solve(
     }
   }
 
-  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
-  evals.resize(n_eigenvectors);
-  evecs.resize(n_eigenvectors);
-
   // Sort eigenvalues in ascending order if we run multiple Lanczos
   // The reason is that while each Lanczos solve produces sorted eigenvalues,
-  // they may be the same, and thus need to be interleaved
+  // they may be the same, and thus need to be interleaved. This has to be done
+  // before squeezing, because a later cycle may find smaller eigenvalues than
+  // the largest ones of an earlier cycle.
   if (num_cycles > 1)
   {
-    std::vector<double> sorted_evals(n_eigenvectors);
-    std::vector<VectorType> sorted_evecs(n_eigenvectors);
+    int const n_computed = evals.size();
+    std::vector<double> sorted_evals(n_computed);
+    std::vector<VectorType> sorted_evecs(n_computed);
 
     // Compute permutation for ascending order
-    std::vector<int> perm_index(n_eigenvectors);
+    std::vector<int> perm_index(n_computed);
     std::iota(perm_index.begin(), perm_index.end(), 0);
     std::sort(perm_index.begin(), perm_index.end(),
               [&](int i, int j) { return evals[i] < evals[j]; });
 
-    for (int i = 0; i < n_eigenvectors; i++)
+    for (int i = 0; i < n_computed; i++)
     {
       sorted_evals[i] = evals[perm_index[i]];
       sorted_evecs[i] = evecs[perm_index[i]];
@@ -172,6 +171,10 @@ Lanczos<OperatorType, VectorType>::solve(
     evecs = sorted_evecs;
   }
 
+  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
+  evals.resize(n_eigenvectors);
+  evecs.resize(n_eigenvectors);
+
   return std::make_tuple(evals, evecs);
 }
 
-- 
2.43.0


From 04a18eaa5c10c106ef619859744452f6bec147a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 07/33] fix: normalize the eigenvectors computed by the Lanczos
 solver

---
 include/mfmg/common/lanczos.templates.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index ee7c557..6287163 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -500,6 +500,10 @@ std::vector<VectorType> Lanczos<OperatorType, VectorType>::details_calc_evecs(
     evecs[i] = 0.0;
     for (int j = 0; j < n; ++j)
       evecs[i].add(evecs_tridiag[j + n * i], lanc_vectors[j]);
+
+    // The Lanczos vectors may have lost their orthogonality, so that the norm
+    // of the linear combination is not necessarily one.
+    evecs[i] /= evecs[i].l2_norm();
   }
 
   return evecs;
-- 
2.43.0


From 0afe67459a91653f1d95cc53c9b6524ed0242b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 08/33] fix: make the tolerance for repeated and spurious Ritz
 values relative

---
 include/mfmg/common/lanczos.templates.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 6287163..1e43ef1 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -345,8 +345,10 @@ Lanczos<OperatorType, VectorType>::details_calc_tridiag_epairs(
   // revisions of the simplified algorithm implemented here.
 
   // The following tolerance may need adjustment, however this doesn't
-  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12.
-  double const tol2 = 5.e-12;
+  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12. It is relative
+  // to the magnitude of the eigenvalues.
+  double const tol2 =
+      5.e-12 * std::max(std::abs(evals.front()), std::abs(evals.back()));
 
   // Identify repeated eigenvalues.
   // A "marked" eigenvalue here is nonrepeated or first of a set of repeated.
-- 
2.43.0


From b50992acab102420a43a2f62d74a3ce18ec116db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:28 +0000
Subject: [PATCH 09/33] fix: handle an exhausted Krylov space and missing
 eigenpairs in the Lanczos solver

---
 include/mfmg/common/lanczos.templates.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 1e43ef1..0067a65 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <random>
+#include <stdexcept>
 #include <vector>
 
 #include "lanczos.hpp"
@@ -257,7 +258,10 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
     bool const max_iterations_reached = (it == maxit);
     bool const percent_overshoot_exceeded =
         (100 * (it - it_prev_check) > percent_overshoot * it_prev_check);
-    if (first_iteration || max_iterations_reached || percent_overshoot_exceeded)
+    // The Krylov space is exhausted: there is no next Lanczos vector
+    bool const breakdown = (beta == 0.);
+    if (first_iteration || max_iterations_reached ||
+        percent_overshoot_exceeded || breakdown)
     {
       int const dim_hessenberg = it;
       ASSERT((size_t)dim_hessenberg == main_diagonal.size(), "Internal error");
@@ -268,7 +272,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
           main_diagonal, sub_diagonal, num_requested);
 
       if (details_check_convergence(beta, dim_hessenberg, num_requested, tol,
-                                    evecs_tridiag))
+                                    evecs_tridiag) ||
+          breakdown)
       {
         break;
       }
@@ -279,8 +284,11 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   }
   it = it < maxit ? it : maxit;
 
-  ASSERT(it >= num_requested,
-         "Internal error: required number of iterations not reached");
+  // There may be fewer eigenpairs than requested, because the Krylov space is too
+  // small or because some of the Ritz values are spurious
+  if (evals.size() < static_cast<size_t>(num_requested))
+    throw std::runtime_error(
+        "Lanczos: fewer eigenpairs available than requested");
 
   // Calculate full operator eigenvectors from tridiagonal eigenvectors.
   // ISSUE: may be needed to modify this code to not save all Lanczos vectors
@@ -464,7 +472,7 @@ bool Lanczos<OperatorType, VectorType>::details_check_convergence(
     std::vector<double> const &evecs)
 {
   // Must iterate at least until we have num_requested eigenpairs
-  if (num_evecs < num_requested)
+  if (evecs.size() < static_cast<size_t>(num_evecs) * num_requested)
     return false;
 
   bool is_converged = true;
-- 
2.43.0


From 35d032db747710a350fdc4d5d0c0adfe02e8f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 10/33] fix: keep small entries of the matrix-free product with
 a transpose

---
 include/mfmg/dealii/dealii_utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/dealii_utils.hpp b/include/mfmg/dealii/dealii_utils.hpp
index 76b70e6..bed309d 100644
--- a/include/mfmg/dealii/dealii_utils.hpp
+++ b/include/mfmg/dealii/dealii_utils.hpp
@@ -68,8 +68,10 @@ matrix_transpose_matrix_multiply(
       auto const local_i = index_set.index_within_set(i);
       if (local_i != dealii::numbers::invalid_dof_index)
       {
+        // drop exact zeros only: any other threshold would depend on the scale
+        // of A and B
         auto const value = dst[i];
-        if (std::abs(value) > 1e-14) // is that an appropriate epsilon?
+        if (value != 0.)
         {
           C->set(i, j, value);
         }
-- 
2.43.0


From 0e0274f220f0e3ca63598afc46f2ccc1c6ccf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 11/33] fix: augment the smoothed aggregation defaults of ML
 with the user parameters

---
 source/dealii/dealii_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index b77e22a..ce2586a 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -58,7 +58,9 @@ DealIISolver<VectorType>::DealIISolver(
       if (ml_tree)
       {
         // Augment with user provided parameters
-        ptree2plist(*ml_tree, ml_params);
+        Teuchos::ParameterList user_params;
+        ptree2plist(*ml_tree, user_params);
+        ml_params.setParameters(user_params);
       }
 
       _smoother.reset(new dealii::TrilinosWrappers::PreconditionAMG());
-- 
2.43.0


From 9ef6e93f05dcc5109f2e00f972698f9ae8c3d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 12/33] fix: make the bounds for the LAPACK and constrained
 eigenvalues relative to the operator

---
 include/mfmg/dealii/amge_host.templates.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..7159d18 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -386,11 +386,16 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
       std::accumulate(diag_elements.begin(), diag_elements.end(), 0.) / size;
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
+  // The norm of the matrix bounds the eigenvalues on the unconstrained degrees
+  // of freedom, whatever the scale of the operator is.
+  double const spectral_bound = agglomerate_system_matrix.linfty_norm();
   // Shift diagonal entries for constrained degrees of freedom, to avoid
   // using the corresponding eigenvectors
+  double const constrained_eigenvalue = std::max(200., 2. * spectral_bound);
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        constrained_eigenvalue;
   }
 
   // Compute the eigenvalues and the eigenvectors
@@ -448,10 +453,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Use Lapack to compute the eigenvalues
     dealii::LAPACKFullMatrix<double> full_matrix;
     full_matrix.copy_from(agglomerate_system_matrix);
-
-    double const lower_bound = -0.5;
-    double const upper_bound = 100.;
-    double const tol = 1e-12;
+    // The accuracy of Lapack depends on the largest entries of the matrix
+    for (auto const constraint : agglomerate_constraints.get_lines())
+      full_matrix(constraint.index, constraint.index) = 2. * spectral_bound;
+
+    // Include all the eigenvalues but the ones due to the constraints
+    double const lower_bound = -1.5 * spectral_bound;
+    double const upper_bound = 1.5 * spectral_bound;
+    double const tol = 1e-12 * spectral_bound;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
-- 
2.43.0


From 55170269280d75a546ef1918ddda09d0cb8e38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:37 +0000
Subject: [PATCH 13/33] fix: let ARPACK iterate until convergence and report
 when it does not converge

---
 include/mfmg/dealii/amge_host.templates.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 7159d18..68c5ceb 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -417,7 +417,10 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SparseDirectUMFPACK inv_system_matrix;
     inv_system_matrix.initialize(agglomerate_system_matrix);
 
-    dealii::SolverControl solver_control(n_dofs_agglomerate, tolerance);
+    // The number of restarts needed depends on the spectrum and not on the size
+    // of the agglomerate.
+    unsigned int const max_iterations = std::max(n_dofs_agglomerate, 1000u);
+    dealii::SolverControl solver_control(max_iterations, tolerance);
     unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
@@ -434,6 +437,9 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     solver.set_initial_vector(initial_vector);
     solver.solve(agglomerate_system_matrix, agglomerate_mass_matrix,
                  inv_system_matrix, eigenvalues, eigenvectors);
+    // ArpackSolver does not report that it did not converge in release mode
+    ASSERT_THROW(solver_control.last_step() < max_iterations,
+                 "ARPACK did not converge");
   }
   else if (eigensolver_type == "lanczos")
   {
-- 
2.43.0


From 60fda88c380bcf59b29ce870bdaeeb663e9b47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 14/33] fix: use the tolerance recommended by LAPACK for the
 eigenpairs of an agglomerate

---
 include/mfmg/dealii/amge_host.templates.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 68c5ceb..49c5423 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,6 +29,8 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <limits>
+
 namespace mfmg
 {
 
@@ -466,7 +468,9 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // Include all the eigenvalues but the ones due to the constraints
     double const lower_bound = -1.5 * spectral_bound;
     double const upper_bound = 1.5 * spectral_bound;
-    double const tol = 1e-12 * spectral_bound;
+    // Lapack computes the eigenpairs most accurately, and its inverse iteration
+    // is the most likely to converge, with twice the underflow threshold
+    double const tol = 2. * std::numeric_limits<double>::min();
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
-- 
2.43.0


From eccc5669951224b40bebbec7fded94a9c7ccaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 15/33] fix: give ARPACK a Krylov space that resolves clusters
 and fits in the agglomerate

---
 include/mfmg/dealii/amge_host.templates.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 49c5423..f71fd5b 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -423,7 +423,10 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     // of the agglomerate.
     unsigned int const max_iterations = std::max(n_dofs_agglomerate, 1000u);
     dealii::SolverControl solver_control(max_iterations, tolerance);
-    unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
+    // A too small Krylov space does not resolve clustered eigenvalues, and the
+    // space cannot be larger than the agglomerate
+    unsigned int const n_arnoldi_vectors =
+        std::min(n_dofs_agglomerate, std::max(2 * n_eigenvectors + 2, 20u));
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
     // for the ones with the largest magnitudes because they are computed for
-- 
2.43.0


From 7d998d05771f45ecc7626f591c6bfc6f66c265cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 16/33] fix: report missing eigenpairs of an agglomerate with
 LOBPCG

---
 include/mfmg/dealii/amge_host.templates.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index f71fd5b..a023ce4 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -268,8 +268,9 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
   }
   std::tie(real_eigenvalues, eigenvectors) =
       solver.solve(eigensolver_params, lobpcg_initial_guess);
-  ASSERT(n_eigenvectors == eigenvectors.size(),
-         "Wrong number of computed eigenpairs");
+  // Only the converged eigenpairs are returned
+  ASSERT_THROW(n_eigenvectors == eigenvectors.size(),
+               "Wrong number of computed eigenpairs");
 
   // Copy real eigenvalues to complex
   std::copy(real_eigenvalues.begin(), real_eigenvalues.end(),
-- 
2.43.0


From 456fedd8319d65a134a35d827f2b60c45f538e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:30 +0000
Subject: [PATCH 17/33] fix: keep the Lanczos vectors orthogonal to the
 deflated eigenvectors

---
 include/mfmg/common/lanczos.templates.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 0067a65..0b1fe0b 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -249,6 +249,9 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
 
     lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);
 
+    // The recurrence amplifies the roundoff in the deflated space
+    op.deflate(lanc_vectors[it]);
+
     beta = lanc_vectors[it].l2_norm(); // = tridiag_{it+1,it}
 
     // Check convergence if requested
-- 
2.43.0


From 6c3701b26fac7f4954bf39e38a9f3d180327f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 18/33] fix: keep the LOBPCG start vectors of a matrix-free
 agglomerate compatible with the constraints

---
 include/mfmg/dealii/amge_host.templates.hpp | 28 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index a023ce4..6e22b85 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -30,6 +30,7 @@
 #include <EpetraExt_MatrixMatrix.h>
 
 #include <limits>
+#include <random>
 
 namespace mfmg
 {
@@ -208,9 +209,11 @@ void lanczos_compute_eigenvalues_and_eigenvectors(
             eigenvalues.begin());
 }
 
+// If constrained_kernel is true, the operator is zero on the constrained degrees
+// of freedom.
 template <typename AgglomerateOperator>
 void anasazi_compute_eigenvalues_and_eigenvectors(
-    unsigned int n_eigenvectors,
+    unsigned int n_eigenvectors, bool const constrained_kernel,
     boost::property_tree::ptree const &eigensolver_params,
     AgglomerateOperator const &agglomerate_operator,
     dealii::Vector<double> const &initial_guess,
@@ -232,6 +235,25 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
     lobpcg_initial_guess.resize(1);
     lobpcg_initial_guess[0] =
         std::make_shared<dealii::Vector<double>>(initial_guess);
+    if (constrained_kernel)
+    {
+      // LOBPCG completes the initial block with random vectors that do not know
+      // about the constraints. Provide the same vectors, with the zero entries
+      // of the initial guess.
+      std::mt19937 generator(1337);
+      std::uniform_real_distribution<double> distribution(0., 1.);
+      for (unsigned int i = 1; i < n_eigenvectors; ++i)
+      {
+        lobpcg_initial_guess.push_back(
+            std::make_shared<dealii::Vector<double>>(initial_guess));
+        for (auto &value : *lobpcg_initial_guess[i])
+        {
+          double const random_value = distribution(generator);
+          if (value != 0.)
+            value = random_value;
+        }
+      }
+    }
   }
   else
   {
@@ -323,7 +345,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   else if (eigensolver_type == "anasazi")
   {
     anasazi_compute_eigenvalues_and_eigenvectors(
-        n_eigenvectors, _eigensolver_params, agglomerate_operator,
+        n_eigenvectors, true, _eigensolver_params, agglomerate_operator,
         initial_vector, scratch_data.lobpcg_init_guess, eigenvalues,
         eigenvectors);
   }
@@ -456,7 +478,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   else if (eigensolver_type == "anasazi")
   {
     anasazi_compute_eigenvalues_and_eigenvectors(
-        n_eigenvectors, _eigensolver_params, agglomerate_system_matrix,
+        n_eigenvectors, false, _eigensolver_params, agglomerate_system_matrix,
         initial_vector, scratch_data.lobpcg_init_guess, eigenvalues,
         eigenvectors);
   }
-- 
2.43.0


From e29560375d6a6595714529383af6e134680a7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 19/33] fix: reject missing hierarchy parameters with an
 exception

The parameters default to nullptr, which was dereferenced.
---
 include/mfmg/common/hierarchy.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..0f182b8 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -161,6 +161,9 @@ public:
             std::shared_ptr<dealii::TimerOutput> timer = nullptr)
       : _timer(timer)
   {
+    ASSERT_THROW(params != nullptr,
+                 "The parameters of the hierarchy have to be given");
+
     timer_enter_subsection(_timer, "Setup");
     // Replace by a factory
     auto hierarchy_helpers = create_hierarchy_helpers<VectorType>(evaluator);
-- 
2.43.0


From c74fa5de19d0d863a5d69dcbf8fa2bfb82c19f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 20/33] fix: agglomerates without neighbours in the fast
 product

An empty patch left the values of another patch in the copy data, which
were then added a second time.
---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..71c1d20 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // The copy data may hold the result of another patch
+              local_copy_data.rows.clear();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..49662e8 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // The copy data may hold the result of another patch
+          local_copy_data.rows.clear();
           return;
         }
 
-- 
2.43.0


From e834398222a06de3940940c35d346ea2f79bf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 21/33] fix: reject a number of levels that is not positive
 with an exception

The check was compiled out in release mode and the empty list of levels
was accessed.
---
 include/mfmg/common/hierarchy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 0f182b8..5a13163 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -173,8 +173,8 @@ public:
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-    ASSERT(num_levels > 0, "number of levels specified by \"max levels\" "
-                           "parameter must be positive");
+    ASSERT_THROW(num_levels > 0, "number of levels specified by \"max levels\" "
+                                 "parameter must be positive");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
-- 
2.43.0


From 763ec9f650395a3cd773d30c5a546fa5c2f61ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 22/33] fix: reject operators of another kind in smoothers and
 solvers with an exception

A matrix-free hierarchy with one level or more than two levels ended in a
null pointer dereference.
---
 source/dealii/dealii_matrix_free_smoother.cc | 6 +++---
 source/dealii/dealii_smoother.cc             | 2 +-
 source/dealii/dealii_solver.cc               | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 6031ed3..3f03101 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -25,9 +25,9 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
 
   auto matrix_free_operator =
       std::dynamic_pointer_cast<operator_type const>(this->_operator);
-  ASSERT(matrix_free_operator != nullptr,
-         "DealIIMartixFreeSmoother must be constructed from a "
-         "DealIIMatrixFreeOperator");
+  ASSERT_THROW(matrix_free_operator != nullptr,
+               "DealIIMartixFreeSmoother must be constructed from a "
+               "DealIIMatrixFreeOperator");
 
   std::transform(prec_name.begin(), prec_name.end(), prec_name.begin(),
                  ::tolower);
diff --git a/source/dealii/dealii_smoother.cc b/source/dealii/dealii_smoother.cc
index a5c9197..d3adb69 100644
--- a/source/dealii/dealii_smoother.cc
+++ b/source/dealii/dealii_smoother.cc
@@ -29,7 +29,7 @@ DealIISmoother<VectorType>::DealIISmoother(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
-  ASSERT(
+  ASSERT_THROW(
       trilinos_operator != nullptr,
       "DealIISmoother must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index ce2586a..852b795 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -34,6 +34,9 @@ DealIISolver<VectorType>::DealIISolver(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
+  ASSERT_THROW(
+      trilinos_operator != nullptr,
+      "DealIISolver must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
   // Make parameters case-insensitive
   std::string coarse_type_lower = coarse_type;
-- 
2.43.0


From 28c2e769940cc536f57ed71cd0214a1c024d9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 23/33] fix: restriction weights of the constrained degrees of
 freedom of matrix-free evaluators

---
 include/mfmg/common/amge.templates.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index ad06c70..450833b 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -311,6 +311,10 @@ void AMGe<dim, VectorType>::compute_restriction_sparse_matrix(
       {
         dealii::types::global_dof_index const global_pos =
             dof_indices_maps[i][j];
+        // The matrix-free evaluators set the diagonal to zero for the
+        // constrained degrees of freedom
+        if (locally_relevant_global_diag[global_pos] == 0.)
+          continue;
         restriction_sparse_matrix.add(
             local_range.first + pos, global_pos,
             diag_elements[i][j] / locally_relevant_global_diag[global_pos] *
@@ -384,6 +388,10 @@ void AMGe<dim, VectorType>::compute_restriction_sparse_matrix(
       {
         dealii::types::global_dof_index const global_pos =
             dof_indices_maps[i][j];
+        // The matrix-free evaluators set the diagonal to zero for the
+        // constrained degrees of freedom
+        if (locally_relevant_global_diag[global_pos] == 0.)
+          continue;
         // Fill restriction sparse matrix
         restriction_sparse_matrix->add(
             local_range.first + pos, global_pos,
-- 
2.43.0


From 3985ab5074b7b2eaa92b1c787b6b016273922571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 24/33] fix: reject operands of another kind in operator
 products with an exception

---
 source/dealii/dealii_matrix_free_operator.cc     | 2 ++
 source/dealii/dealii_trilinos_matrix_operator.cc | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/source/dealii/dealii_matrix_free_operator.cc b/source/dealii/dealii_matrix_free_operator.cc
index 9abfc7b..2bd3486 100644
--- a/source/dealii/dealii_matrix_free_operator.cc
+++ b/source/dealii/dealii_matrix_free_operator.cc
@@ -101,6 +101,8 @@ DealIIMatrixFreeOperator<dim, VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The second operand must be a DealIITrilinosMatrixOperator");
 
   auto tmp = this->build_range_vector();
   auto b_mat = downcast_b->get_matrix();
diff --git a/source/dealii/dealii_trilinos_matrix_operator.cc b/source/dealii/dealii_trilinos_matrix_operator.cc
index bce586a..5afd4fe 100644
--- a/source/dealii/dealii_trilinos_matrix_operator.cc
+++ b/source/dealii/dealii_trilinos_matrix_operator.cc
@@ -61,6 +61,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The second operand must be a DealIITrilinosMatrixOperator");
 
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
@@ -80,6 +82,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The second operand must be a DealIITrilinosMatrixOperator");
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
   auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>(
-- 
2.43.0


From 7e632e0bf7dd48f5826695909fcb92cbfee1dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 25/33] fix: do not call eigensolvers that are not reentrant
 from several threads

ARPACK keeps its state in static variables, and Anasazi may be built with timers that are not
thread-safe. With more than one thread and more than a few agglomerates, setting up the restrictor
with the default eigensolver crashed.
---
 include/mfmg/dealii/amge_host.templates.hpp | 39 ++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 6e22b85..446dbff 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -164,6 +164,33 @@ namespace mfmg
 {
 namespace
 {
+/**
+ * Call @p worker for all the agglomerates, concurrently unless the eigensolver
+ * is not reentrant, and @p copier for all the results, in order.
+ */
+template <typename Worker, typename Copier, typename ScratchData,
+          typename CopyData>
+void run_on_agglomerates(std::string const &eigensolver_type,
+                         std::vector<unsigned int> &agglomerate_ids,
+                         Worker const &worker, Copier const &copier,
+                         ScratchData scratch_data, CopyData copy_data)
+{
+  // ARPACK keeps its state in static variables and the timers of Anasazi are
+  // not thread-safe.
+  if (eigensolver_type == "arpack" || eigensolver_type == "anasazi")
+  {
+    for (auto it = agglomerate_ids.begin(); it != agglomerate_ids.end(); ++it)
+    {
+      worker(it, scratch_data, copy_data);
+      copier(copy_data);
+    }
+    return;
+  }
+
+  dealii::WorkStream::run(agglomerate_ids.begin(), agglomerate_ids.end(),
+                          worker, copier, scratch_data, copy_data);
+}
+
 template <typename AgglomerateOperator>
 void lanczos_compute_eigenvalues_and_eigenvectors(
     unsigned int n_eigenvectors, double tolerance,
@@ -550,8 +577,10 @@ void AMGe_host<dim, MeshEvaluator, VectorType>::setup_restrictor(
   LobpcgScratchData scratch_data;
   CopyData copy_data;
 
-  dealii::WorkStream::run(
-      agglomerate_ids.begin(), agglomerate_ids.end(),
+  run_on_agglomerates(
+      _eigensolver_params.get<std::string>(
+          "type", is_matrix_free<MeshEvaluator>::value ? "lanczos" : "arpack"),
+      agglomerate_ids,
       [&](std::vector<unsigned int>::iterator const &agg_id,
           LobpcgScratchData &local_scratch_data, CopyData &local_copy_data) {
         this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,
@@ -608,8 +637,10 @@ void AMGe_host<dim, MeshEvaluator, VectorType>::setup_restrictor(
   LobpcgScratchData scratch_data;
   CopyData copy_data;
 
-  dealii::WorkStream::run(
-      agglomerate_ids.begin(), agglomerate_ids.end(),
+  run_on_agglomerates(
+      _eigensolver_params.get<std::string>(
+          "type", is_matrix_free<MeshEvaluator>::value ? "lanczos" : "arpack"),
+      agglomerate_ids,
       [&](std::vector<unsigned int>::iterator const &agg_id,
           LobpcgScratchData &local_scratch_data, CopyData &local_copy_data) {
         this->local_worker(n_eigenvectors, tolerance, evaluator, agg_id,
-- 
2.43.0


From 95fcf2ce0167bdafd945f481871beb3b8b3cebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 26/33] fix: hand exceptions of agglomerates on to the caller
 with several threads

WorkStream aborts the program when one of its tasks throws, for example because of an eigensolver
that is not available in matrix-free mode.
---
 include/mfmg/dealii/amge_host.templates.hpp | 37 +++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 446dbff..76599c6 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -29,7 +29,10 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
+#include <atomic>
+#include <exception>
 #include <limits>
+#include <mutex>
 #include <random>
 
 namespace mfmg
@@ -187,8 +190,38 @@ void run_on_agglomerates(std::string const &eigensolver_type,
     return;
   }
 
-  dealii::WorkStream::run(agglomerate_ids.begin(), agglomerate_ids.end(),
-                          worker, copier, scratch_data, copy_data);
+  // WorkStream aborts the program when a task throws. Hand the first exception
+  // on to the caller instead.
+  std::exception_ptr exception;
+  std::mutex exception_mutex;
+  std::atomic<bool> failed(false);
+  using Iterator = std::vector<unsigned int>::iterator;
+  dealii::WorkStream::run(
+      agglomerate_ids.begin(), agglomerate_ids.end(),
+      [&](Iterator const &agg_id, ScratchData &local_scratch_data,
+          CopyData &local_copy_data) {
+        if (failed)
+          return;
+        try
+        {
+          worker(agg_id, local_scratch_data, local_copy_data);
+        }
+        catch (...)
+        {
+          std::lock_guard<std::mutex> lock(exception_mutex);
+          if (!failed)
+            exception = std::current_exception();
+          failed = true;
+        }
+      },
+      [&](CopyData const &local_copy_data) {
+        if (!failed)
+          copier(local_copy_data);
+      },
+      scratch_data, copy_data);
+
+  if (exception)
+    std::rethrow_exception(exception);
 }
 
 template <typename AgglomerateOperator>
-- 
2.43.0


From 376b333ad76448436ef76399422e84162ed7d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 27/33] fix: allow MvAddMv to store its result in its second
 operand

---
 include/mfmg/dealii/anasazi_traits.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/anasazi_traits.hpp b/include/mfmg/dealii/anasazi_traits.hpp
index b946542..6bf513e 100644
--- a/include/mfmg/dealii/anasazi_traits.hpp
+++ b/include/mfmg/dealii/anasazi_traits.hpp
@@ -161,8 +161,16 @@ public:
 
     for (int i = 0; i < n_vectors; i++)
     {
-      *mv[i] = *A[i];
-      (*mv[i]).sadd(alpha, beta, *B[i]);
+      // the result may be stored in A or in B
+      if (mv[i] == B[i])
+      {
+        (*mv[i]).sadd(beta, alpha, *A[i]);
+      }
+      else
+      {
+        *mv[i] = *A[i];
+        (*mv[i]).sadd(alpha, beta, *B[i]);
+      }
     }
   }
 
-- 
2.43.0


From ec410d6e9cdecba63fae03b495c5db600e49bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 28/33] fix: hand exceptions of patches on to the caller with
 several threads

---
 include/mfmg/dealii/amge_host.templates.hpp   | 39 ++---------------
 include/mfmg/dealii/dealii_utils.hpp          | 43 +++++++++++++++++++
 source/dealii/dealii_hierarchy_helpers.cc     |  6 +--
 .../dealii_matrix_free_hierarchy_helpers.cc   |  7 ++-
 4 files changed, 51 insertions(+), 44 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 76599c6..bfcf2fa 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -17,8 +17,8 @@
 #include <mfmg/dealii/amge_host.hpp>
 #include <mfmg/dealii/anasazi.templates.hpp>
 #include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
+#include <mfmg/dealii/dealii_utils.hpp>
 
-#include <deal.II/base/work_stream.h>
 #include <deal.II/dofs/dof_accessor.h>
 #include <deal.II/lac/arpack_solver.h>
 #include <deal.II/lac/la_parallel_vector.h>
@@ -29,10 +29,7 @@
 
 #include <EpetraExt_MatrixMatrix.h>
 
-#include <atomic>
-#include <exception>
 #include <limits>
-#include <mutex>
 #include <random>
 
 namespace mfmg
@@ -190,38 +187,8 @@ void run_on_agglomerates(std::string const &eigensolver_type,
     return;
   }
 
-  // WorkStream aborts the program when a task throws. Hand the first exception
-  // on to the caller instead.
-  std::exception_ptr exception;
-  std::mutex exception_mutex;
-  std::atomic<bool> failed(false);
-  using Iterator = std::vector<unsigned int>::iterator;
-  dealii::WorkStream::run(
-      agglomerate_ids.begin(), agglomerate_ids.end(),
-      [&](Iterator const &agg_id, ScratchData &local_scratch_data,
-          CopyData &local_copy_data) {
-        if (failed)
-          return;
-        try
-        {
-          worker(agg_id, local_scratch_data, local_copy_data);
-        }
-        catch (...)
-        {
-          std::lock_guard<std::mutex> lock(exception_mutex);
-          if (!failed)
-            exception = std::current_exception();
-          failed = true;
-        }
-      },
-      [&](CopyData const &local_copy_data) {
-        if (!failed)
-          copier(local_copy_data);
-      },
-      scratch_data, copy_data);
-
-  if (exception)
-    std::rethrow_exception(exception);
+  run_work_stream(agglomerate_ids.begin(), agglomerate_ids.end(), worker,
+                  copier, scratch_data, copy_data);
 }
 
 template <typename AgglomerateOperator>
diff --git a/include/mfmg/dealii/dealii_utils.hpp b/include/mfmg/dealii/dealii_utils.hpp
index bed309d..2e90507 100644
--- a/include/mfmg/dealii/dealii_utils.hpp
+++ b/include/mfmg/dealii/dealii_utils.hpp
@@ -12,14 +12,57 @@
 #ifndef MFMG_DEALII_UTILS_H
 #define MFMG_DEALII_UTILS_H
 
+#include <deal.II/base/work_stream.h>
 #include <deal.II/lac/la_parallel_vector.h>
 #include <deal.II/lac/trilinos_sparse_matrix.h>
 #include <deal.II/lac/trilinos_vector.h>
 
+#include <atomic>
+#include <exception>
+#include <mutex>
 #include <string>
 
 namespace mfmg
 {
+// Same as WorkStream::run() but WorkStream aborts the program when a task
+// throws. Here, the first exception is handed on to the caller.
+template <typename Iterator, typename Worker, typename Copier,
+          typename ScratchData, typename CopyData>
+void run_work_stream(Iterator const &begin, Iterator const &end,
+                     Worker const &worker, Copier const &copier,
+                     ScratchData const &scratch_data, CopyData const &copy_data)
+{
+  std::exception_ptr exception;
+  std::mutex exception_mutex;
+  std::atomic<bool> failed(false);
+  dealii::WorkStream::run(
+      begin, end,
+      [&](Iterator const &it, ScratchData &local_scratch_data,
+          CopyData &local_copy_data) {
+        if (failed)
+          return;
+        try
+        {
+          worker(it, local_scratch_data, local_copy_data);
+        }
+        catch (...)
+        {
+          std::lock_guard<std::mutex> lock(exception_mutex);
+          if (!failed)
+            exception = std::current_exception();
+          failed = true;
+        }
+      },
+      [&](CopyData const &local_copy_data) {
+        if (!failed)
+          copier(local_copy_data);
+      },
+      scratch_data, copy_data);
+
+  if (exception)
+    std::rethrow_exception(exception);
+}
+
 dealii::LinearAlgebra::distributed::Vector<double>
 extract_row(dealii::TrilinosWrappers::SparseMatrix const &matrix,
             dealii::types::global_dof_index global_j);
diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 71c1d20..4e242cd 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -17,7 +17,6 @@
 #include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
 #include <mfmg/dealii/dealii_utils.hpp>
 
-#include <deal.II/base/work_stream.h>
 #include <deal.II/dofs/dof_accessor.h>
 
 #include <EpetraExt_MatrixMatrix.h>
@@ -229,9 +228,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
         }
       };
 
-      dealii::WorkStream::run(agglomerates_vector.begin(),
-                              agglomerates_vector.end(), worker, copier,
-                              scratch_data, copy_data);
+      run_work_stream(agglomerates_vector.begin(), agglomerates_vector.end(),
+                      worker, copier, scratch_data, copy_data);
 
       is_halo_agglomerate = true;
     }
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index 49662e8..4d257f2 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -21,8 +21,8 @@
 #include <mfmg/dealii/dealii_matrix_free_smoother.hpp>
 #include <mfmg/dealii/dealii_solver.hpp>
 #include <mfmg/dealii/dealii_trilinos_matrix_operator.hpp>
+#include <mfmg/dealii/dealii_utils.hpp>
 
-#include <deal.II/base/work_stream.h>
 #include <deal.II/dofs/dof_accessor.h>
 #include <deal.II/lac/trilinos_precondition.h>
 
@@ -229,9 +229,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
         }
       };
 
-      dealii::WorkStream::run(agglomerates_vector.begin(),
-                              agglomerates_vector.end(), worker, copier,
-                              scratch_data, copy_data);
+      run_work_stream(agglomerates_vector.begin(), agglomerates_vector.end(),
+                      worker, copier, scratch_data, copy_data);
 
       is_halo_agglomerate = true;
     }
-- 
2.43.0


From 057b95ab985777c1a7bd59a4e26a58c9554fb6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 29/33] fix: remove the agglomerate ids left in ghost cells by
 an earlier partitioning

---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 450833b..1fe8543 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -603,6 +603,11 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_partitioner(
       else
         cell->set_user_index(agg_id->second);
     }
+    else
+    {
+      // The cell may have been flagged before it changed owner
+      cell->set_user_index(0);
+    }
   }
 
   _n_agglomerates = n_zoltan_agglomerates;
-- 
2.43.0


From b1cf4e86989d620b1612e986e10e6ae32457fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 30/33] fix: reject agglomerates without cells with an
 exception

---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 1fe8543..ec53b52 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -63,6 +63,8 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates(
 #endif
     unsigned int const n_desired_agglomerates =
         ptree.get<unsigned int>("n_agglomerates");
+    ASSERT_THROW(n_desired_agglomerates > 0,
+                 "The number of agglomerates must be positive");
 
     return build_agglomerates_partitioner(partitioner_type,
                                           n_desired_agglomerates);
@@ -74,6 +76,9 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates(
     agglomerate_dim[1] = ptree.get<unsigned int>("ny");
     if (dim == 3)
       agglomerate_dim[2] = ptree.get<unsigned int>("nz");
+    for (unsigned int const n_cells : agglomerate_dim)
+      ASSERT_THROW(n_cells > 0,
+                   "The number of cells of a block must be positive");
 
     return build_agglomerates_block(agglomerate_dim);
   }
-- 
2.43.0


From 45532f370db724e1653dbb78e7ace2b99c75cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 31/33] fix: reject a number of eigenvectors that is not
 positive with an exception

---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 4e242cd..244435c 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -64,6 +64,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
 
   auto eigensolver_params = params->get_child("eigensolver");
   int n_eigenvectors = eigensolver_params.get("number of eigenvectors", 1);
+  ASSERT_THROW(n_eigenvectors > 0,
+               "The number of eigenvectors must be positive");
   double tolerance = eigensolver_params.get("tolerance", 1e-14);
 
   auto restrictor_matrix =
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index 4d257f2..e4cfc65 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -67,6 +67,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
 
   auto agglomerate_params = params->get_child("agglomeration");
   int n_eigenvectors = eigensolver_params.get("number of eigenvectors", 1);
+  ASSERT_THROW(n_eigenvectors > 0,
+               "The number of eigenvectors must be positive");
   double tolerance = eigensolver_params.get("tolerance", 1e-14);
 
   auto restrictor_matrix =
-- 
2.43.0


From eb6c522d6d2cf1af6c59d2fb7976742ccb5122c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 32/33] fix: reject a negative number of smoothing steps with
 an exception

---
 include/mfmg/common/hierarchy.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 5a13163..f3c8106 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -169,7 +169,10 @@ public:
     auto hierarchy_helpers = create_hierarchy_helpers<VectorType>(evaluator);
 
     _is_preconditioner = params->get("is preconditioner", true);
-    _n_smoothing_steps = params->get("smoother.n_smoothing_steps", 1);
+    int const n_smoothing_steps = params->get("smoother.n_smoothing_steps", 1);
+    ASSERT_THROW(n_smoothing_steps >= 0,
+                 "The number of smoothing steps must not be negative");
+    _n_smoothing_steps = n_smoothing_steps;
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-- 
2.43.0


From 1989b43b10a8d8411d82b8b1440949cb9c358109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 33/33] fix: report missing eigenpairs of an agglomerate with
 LAPACK

---
 include/mfmg/dealii/amge_host.templates.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index bfcf2fa..61498e5 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -528,6 +528,9 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
         lower_bound, upper_bound, tol, lapack_eigenvalues, lapack_eigenvectors);
+    // Only the eigenpairs within the bounds are returned
+    ASSERT_THROW(n_eigenvectors <= lapack_eigenvalues.size(),
+                 "Wrong number of computed eigenpairs");
 
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
-- 
2.43.0

