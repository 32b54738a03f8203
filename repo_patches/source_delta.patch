From f751da6d696f336eb2d5fd5df86eb8ffa529dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 01/20] fix: keep the smoothed-aggregation defaults when the
 user passes ML options

---
 source/dealii/dealii_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index b77e22a..ce2586a 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -58,7 +58,9 @@ DealIISolver<VectorType>::DealIISolver(
       if (ml_tree)
       {
         // Augment with user provided parameters
-        ptree2plist(*ml_tree, ml_params);
+        Teuchos::ParameterList user_params;
+        ptree2plist(*ml_tree, user_params);
+        ml_params.setParameters(user_params);
       }
 
       _smoother.reset(new dealii::TrilinosWrappers::PreconditionAMG());
-- 
2.43.0


From 71f022bf602813e7dca9e27523741298cca139d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 02/20] fix: name every process's file in the parallel
 visualisation record

---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..afc66a0 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -262,7 +262,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From ac347459f346f17da629990df3594f8a2a0f375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 03/20] fix: renumber block agglomerates when they are built
 again on the same mesh

---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index afc66a0..6f432a1 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -419,6 +419,11 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
   unsigned int constexpr y_p = 3;
   unsigned int constexpr z_p = 5;
 
+  // Forget the agglomerates of a previous call
+  for (auto cell : _dof_handler.active_cell_iterators())
+    if (cell->is_locally_owned())
+      cell->clear_user_index();
+
   // Flag the cells to create the agglomerates
   unsigned int agglomerate = 1;
   for (auto cell : _dof_handler.active_cell_iterators())
-- 
2.43.0


From dee6c69d4c17c8ec5de022f93c43f09d09a34e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 04/20] fix: reject unknown eigensolvers in release builds too

---
 include/mfmg/dealii/amge_host.templates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..6c91bfc 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -336,7 +336,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Compute the map between the local and the global dof indices.
@@ -467,7 +467,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Shift eigenvalues back
-- 
2.43.0


From 55ce4862f1383ce9ebfc49d4c7db2b90c2353abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 05/20] fix: timer helpers in a public header must be inline

---
 include/mfmg/common/hierarchy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..b2c03e4 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -33,14 +33,14 @@
 
 namespace mfmg
 {
-void timer_enter_subsection(std::shared_ptr<dealii::TimerOutput> const &timer,
+inline void timer_enter_subsection(std::shared_ptr<dealii::TimerOutput> const &timer,
                             std::string const &section)
 {
   if (timer)
     timer->enter_subsection(section);
 }
 
-void timer_leave_subsection(std::shared_ptr<dealii::TimerOutput> const &timer)
+inline void timer_leave_subsection(std::shared_ptr<dealii::TimerOutput> const &timer)
 {
   if (timer)
     timer->leave_subsection();
-- 
2.43.0


From cfabcb6db4320002851356b893d9d0abc0190a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 06/20] fix: do not modify the caller's parameters when
 building a one-level hierarchy

---
 include/mfmg/common/hierarchy.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index b2c03e4..2280111 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -186,6 +186,9 @@ public:
         if (level_index == 0)
         {
           // When using ML for the full hierarchy, do not zero out initial guess
+          // (the user's parameters are left untouched)
+          params =
+              std::make_shared<boost::property_tree::ptree>(*params);
           params->put("coarse.params.zero starting solution",
                       _is_preconditioner);
         }
-- 
2.43.0


From f499ca3bd975786946b67326b3e940b13775d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 07/20] fix: do not add the correction of another patch for an
 empty patch

---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..b681280 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // Do not add what was computed for another patch
+              local_copy_data.rows.clear();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..3fdd3f3 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // Do not add what was computed for another patch
+          local_copy_data.rows.clear();
           return;
         }
 
-- 
2.43.0


From ce79bf98418d742e5e846b705f274e0635a6562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 08/20] fix: check the status of every Epetra call before using
 its results

---
 source/dealii/dealii_hierarchy_helpers.cc             | 8 +++++---
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index b681280..097b2e9 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -261,7 +261,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
         vector_eigenvalues.trilinos_vector();
     auto &dummy_matrix =
         const_cast<Epetra_CrsMatrix &>(eigenvector_matrix->trilinos_matrix());
-    dummy_matrix.LeftScale(*dummy_multi_vector(0));
+    int error_code = dummy_matrix.LeftScale(*dummy_multi_vector(0));
+    ASSERT(error_code == 0, "Problem when scaling the eigenvectors");
 
     eigenvector_matrix->compress(dealii::VectorOperation::insert);
 
@@ -275,11 +276,12 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
     Epetra_Map domain_map = eigenvector_matrix->range_partitioner();
 #pragma GCC diagnostic pop
     bool const transpose = true;
-    int error_code = EpetraExt::MatrixMatrix::Add(
+    error_code = EpetraExt::MatrixMatrix::Add(
         eigenvector_matrix->trilinos_matrix(), transpose, 1.,
         delta_correction_matrix.trilinos_matrix(), transpose, 1., ap);
-    ap->FillComplete(domain_map, range_map);
     ASSERT(error_code == 0, "Problem when adding matrices");
+    error_code = ap->FillComplete(domain_map, range_map);
+    ASSERT(error_code == 0, "Problem when completing the sum of matrices");
 
     // Copy the Epetra_CrsMatrix to a dealii::TrilinosWrappers::SparseMatrix
     auto dealii_ap = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index 3fdd3f3..445a6df 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -261,7 +261,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
         vector_eigenvalues.trilinos_vector();
     auto &dummy_matrix =
         const_cast<Epetra_CrsMatrix &>(eigenvector_matrix->trilinos_matrix());
-    dummy_matrix.LeftScale(*dummy_multi_vector(0));
+    int error_code = dummy_matrix.LeftScale(*dummy_multi_vector(0));
+    ASSERT(error_code == 0, "Problem when scaling the eigenvectors");
 
     eigenvector_matrix->compress(dealii::VectorOperation::insert);
 
@@ -275,11 +276,12 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
     Epetra_Map domain_map = eigenvector_matrix->range_partitioner();
 #pragma GCC diagnostic pop
     bool const transpose = true;
-    int error_code = EpetraExt::MatrixMatrix::Add(
+    error_code = EpetraExt::MatrixMatrix::Add(
         eigenvector_matrix->trilinos_matrix(), transpose, 1.,
         delta_correction_matrix.trilinos_matrix(), transpose, 1., ap);
-    ap->FillComplete(domain_map, range_map);
     ASSERT(error_code == 0, "Problem when adding matrices");
+    error_code = ap->FillComplete(domain_map, range_map);
+    ASSERT(error_code == 0, "Problem when completing the sum of matrices");
 
     // Copy the Epetra_CrsMatrix to a dealii::TrilinosWrappers::SparseMatrix
     auto dealii_ap = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();
-- 
2.43.0


From 3f1263afb5e9550a093549a65c07195fc4e14443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 09/20] fix: adding multivectors is right when the result is
 one of the operands

---
 include/mfmg/dealii/anasazi_traits.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/anasazi_traits.hpp b/include/mfmg/dealii/anasazi_traits.hpp
index b946542..e104fb9 100644
--- a/include/mfmg/dealii/anasazi_traits.hpp
+++ b/include/mfmg/dealii/anasazi_traits.hpp
@@ -161,8 +161,10 @@ public:
 
     for (int i = 0; i < n_vectors; i++)
     {
-      *mv[i] = *A[i];
-      (*mv[i]).sadd(alpha, beta, *B[i]);
+      // mv may be the same multivector as A or B
+      VectorType sum(*A[i]);
+      sum.sadd(alpha, beta, *B[i]);
+      *mv[i] = sum;
     }
   }
 
-- 
2.43.0


From e2d27416771931f9de3730091288e1d773f80ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 10/20] fix: throw when an operator or evaluator is of the
 wrong type

---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 3 ++-
 source/dealii/dealii_matrix_free_operator.cc          | 2 ++
 source/dealii/dealii_matrix_free_smoother.cc          | 6 +++---
 source/dealii/dealii_smoother.cc                      | 2 +-
 source/dealii/dealii_solver.cc                        | 3 +++
 source/dealii/dealii_trilinos_matrix_operator.cc      | 4 ++++
 7 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 097b2e9..c6ac33d 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -38,6 +38,7 @@ DealIIHierarchyHelpers<dim, VectorType>::get_global_operator(
   // Downcast to DealIIMeshEvaluator
   auto dealii_mesh_evaluator =
       std::dynamic_pointer_cast<DealIIMeshEvaluator<dim>>(mesh_evaluator);
+  ASSERT_THROW(dealii_mesh_evaluator != nullptr, "downcasting failed");
 
   auto system_matrix =
       std::make_shared<dealii::TrilinosWrappers::SparseMatrix>();
@@ -62,6 +63,7 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
   // Downcast to DealIIMeshEvaluator
   auto dealii_mesh_evaluator =
       std::dynamic_pointer_cast<DealIIMeshEvaluator<dim>>(mesh_evaluator);
+  ASSERT_THROW(dealii_mesh_evaluator != nullptr, "downcasting failed");
 
   auto eigensolver_params = params->get_child("eigensolver");
   int n_eigenvectors = eigensolver_params.get("number of eigenvectors", 1);
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index 445a6df..ebefac5 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -42,7 +42,7 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::get_global_operator(
   auto matrix_free_mesh_evaluator =
       std::dynamic_pointer_cast<DealIIMatrixFreeMeshEvaluator<dim>>(
           mesh_evaluator);
-  ASSERT(matrix_free_mesh_evaluator != nullptr, "downcasting failed");
+  ASSERT_THROW(matrix_free_mesh_evaluator != nullptr, "downcasting failed");
   std::shared_ptr<Operator<VectorType>> global_operator =
       std::make_shared<DealIIMatrixFreeOperator<dim, VectorType>>(
           matrix_free_mesh_evaluator);
@@ -62,6 +62,7 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
   auto dealii_mesh_evaluator =
       std::dynamic_pointer_cast<DealIIMatrixFreeMeshEvaluator<dim>>(
           mesh_evaluator);
+  ASSERT_THROW(dealii_mesh_evaluator != nullptr, "downcasting failed");
 
   auto eigensolver_params = params->get_child("eigensolver");
 
diff --git a/source/dealii/dealii_matrix_free_operator.cc b/source/dealii/dealii_matrix_free_operator.cc
index 9abfc7b..8f2697b 100644
--- a/source/dealii/dealii_matrix_free_operator.cc
+++ b/source/dealii/dealii_matrix_free_operator.cc
@@ -101,6 +101,8 @@ DealIIMatrixFreeOperator<dim, VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operator must be a DealIITrilinosMatrixOperator");
 
   auto tmp = this->build_range_vector();
   auto b_mat = downcast_b->get_matrix();
diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 6031ed3..3f03101 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -25,9 +25,9 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
 
   auto matrix_free_operator =
       std::dynamic_pointer_cast<operator_type const>(this->_operator);
-  ASSERT(matrix_free_operator != nullptr,
-         "DealIIMartixFreeSmoother must be constructed from a "
-         "DealIIMatrixFreeOperator");
+  ASSERT_THROW(matrix_free_operator != nullptr,
+               "DealIIMartixFreeSmoother must be constructed from a "
+               "DealIIMatrixFreeOperator");
 
   std::transform(prec_name.begin(), prec_name.end(), prec_name.begin(),
                  ::tolower);
diff --git a/source/dealii/dealii_smoother.cc b/source/dealii/dealii_smoother.cc
index a5c9197..d3adb69 100644
--- a/source/dealii/dealii_smoother.cc
+++ b/source/dealii/dealii_smoother.cc
@@ -29,7 +29,7 @@ DealIISmoother<VectorType>::DealIISmoother(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
-  ASSERT(
+  ASSERT_THROW(
       trilinos_operator != nullptr,
       "DealIISmoother must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index ce2586a..852b795 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -34,6 +34,9 @@ DealIISolver<VectorType>::DealIISolver(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
+  ASSERT_THROW(
+      trilinos_operator != nullptr,
+      "DealIISolver must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
   // Make parameters case-insensitive
   std::string coarse_type_lower = coarse_type;
diff --git a/source/dealii/dealii_trilinos_matrix_operator.cc b/source/dealii/dealii_trilinos_matrix_operator.cc
index bce586a..9dd3dc3 100644
--- a/source/dealii/dealii_trilinos_matrix_operator.cc
+++ b/source/dealii/dealii_trilinos_matrix_operator.cc
@@ -61,6 +61,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operator must be a DealIITrilinosMatrixOperator");
 
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
@@ -80,6 +82,8 @@ DealIITrilinosMatrixOperator<VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "The operator must be a DealIITrilinosMatrixOperator");
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
   auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>(
-- 
2.43.0


From 9886b0cfab16cb41d4d6d478d004f72eb98a4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 11/20] fix: convert parameter trees without going through
 unescaped XML

---
 source/common/utils.cc | 44 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index ffdb0a1..fc649a4 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -11,14 +11,10 @@
 
 #include <mfmg/common/utils.hpp>
 
-#include <Teuchos_XMLParameterListCoreHelpers.hpp>
-
-#include <string>
-
 namespace mfmg
 {
-static std::ostream &
-ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
+static void ptree2plist_internal(boost::property_tree::ptree const &node,
+                                 Teuchos::ParameterList &plist)
 {
   ASSERT(!node.empty(), "Internal error");
 
@@ -28,54 +24,40 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
     bool child_is_sublist = !item.second.empty();
     if (child_is_sublist)
     {
-      os << "<ParameterList name=\"" << item.first << "\">" << std::endl;
-      ptree2plist_internal(item.second, os);
-      os << "</ParameterList>" << std::endl;
+      ptree2plist_internal(item.second, plist.sublist(item.first));
     }
     else
     {
-      auto value = item.second.data();
-      std::string value_type;
-
-      if (item.second.get_value_optional<int>())
+      if (auto const int_value = item.second.get_value_optional<int>())
       {
-        value_type = "int";
+        plist.set(item.first, *int_value);
       }
-      else if (item.second.get_value_optional<double>())
+      else if (auto const double_value =
+                   item.second.get_value_optional<double>())
       {
-        value_type = "double";
+        plist.set(item.first, *double_value);
       }
-      else if (item.second.get_value_optional<bool>())
+      else if (auto const bool_value = item.second.get_value_optional<bool>())
       {
-        value_type = "bool";
+        plist.set(item.first, *bool_value);
       }
       else
       {
-        value_type = "string";
+        plist.set(item.first, item.second.data());
       }
-
-      os << "<Parameter name=\"" << item.first << "\" type=\"" << value_type
-         << "\" value=\"" << value << "\"/>" << std::endl;
     }
   }
-  return os;
 }
 
 void ptree2plist(boost::property_tree::ptree const &ptree,
                  Teuchos::ParameterList &plist)
 {
+  plist = Teuchos::ParameterList();
   if (ptree.empty())
   {
-    plist = Teuchos::ParameterList();
     return;
   }
 
-  std::ostringstream ss;
-
-  ss << "<ParameterList name=\"ANONYMOUS\">\n";
-  ptree2plist_internal(ptree, ss);
-  ss << "</ParameterList>";
-
-  plist = *Teuchos::getParametersFromXmlString(ss.str());
+  ptree2plist_internal(ptree, plist);
 }
 } // namespace mfmg
-- 
2.43.0


From 9ea01fbd72f48094852bdf1a7f87da68e76147de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 12/20] fix: never read Lanczos eigenpairs that were not found

---
 include/mfmg/common/lanczos.templates.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..ec6e124 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -101,6 +101,10 @@ Lanczos<OperatorType, VectorType>::solve(
   ASSERT(num_evecs_per_cycle >= 1,
          "Number of computed eigenpairs per cycle must be positive");
 
+  ASSERT_THROW(num_cycles * num_evecs_per_cycle >= n_eigenvectors,
+               "Too few cycles or eigenpairs per cycle to compute the "
+               "requested number of eigenpairs");
+
   std::vector<double> evals;
   std::vector<VectorType> evecs;
 
@@ -278,6 +282,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
 
   ASSERT(it >= num_requested,
          "Internal error: required number of iterations not reached");
+  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
+               "Lanczos did not find the required number of eigenpairs");
 
   // Calculate full operator eigenvectors from tridiagonal eigenvectors.
   // ISSUE: may be needed to modify this code to not save all Lanczos vectors
@@ -458,8 +464,9 @@ bool Lanczos<OperatorType, VectorType>::details_check_convergence(
     double beta, int const num_evecs, int const num_requested, double tol,
     std::vector<double> const &evecs)
 {
-  // Must iterate at least until we have num_requested eigenpairs
-  if (num_evecs < num_requested)
+  // Must iterate at least until we have num_requested eigenpairs. Too few are
+  // left, too, if spurious and redundant ones were removed.
+  if (num_evecs < num_requested || evecs.empty())
     return false;
 
   bool is_converged = true;
-- 
2.43.0


From d1d85446200a390dab537a7677ae3dd92e5f560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 13/20] fix: number block agglomerates contiguously on
 unstructured meshes

---
 include/mfmg/common/amge.templates.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 6f432a1..58ef794 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <fstream>
 #include <map>
+#include <numeric>
 #include <unordered_map>
 
 #ifdef DEAL_II_TRILINOS_WITH_ZOLTAN
@@ -498,7 +499,18 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
     }
   }
 
-  _n_agglomerates = agglomerate - 1;
+  // On unstructured meshes an agglomerate may have claimed all the cells of a
+  // previous one. Renumber the agglomerates that are left contiguously.
+  std::vector<unsigned int> new_index(agglomerate, 0);
+  for (auto cell : _dof_handler.active_cell_iterators())
+    if (cell->is_locally_owned())
+      new_index[cell->user_index()] = 1;
+  std::partial_sum(new_index.begin(), new_index.end(), new_index.begin());
+  for (auto cell : _dof_handler.active_cell_iterators())
+    if (cell->is_locally_owned())
+      cell->set_user_index(new_index[cell->user_index()]);
+
+  _n_agglomerates = new_index.back();
 
   return _n_agglomerates;
 }
-- 
2.43.0


From 09d8ed7a2f31ef60b8b747276a9aebbca1ec5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 14/20] fix: check the type of the mesh instead of assuming it
 is a parallel one

---
 source/dealii/dealii_matrix_free_mesh_evaluator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dealii/dealii_matrix_free_mesh_evaluator.cc b/source/dealii/dealii_matrix_free_mesh_evaluator.cc
index 3b4834b..91023d3 100644
--- a/source/dealii/dealii_matrix_free_mesh_evaluator.cc
+++ b/source/dealii/dealii_matrix_free_mesh_evaluator.cc
@@ -36,7 +36,7 @@ DealIIMatrixFreeMeshEvaluator<dim>::build_range_vector() const
   auto const &triangulation = (this->_dof_handler).get_triangulation();
   using Triangulation =
       typename std::remove_reference<decltype(triangulation)>::type;
-  auto comm = static_cast<dealii::parallel::Triangulation<
+  auto comm = dynamic_cast<dealii::parallel::Triangulation<
       Triangulation::dimension, Triangulation::space_dimension> const &>(
                   triangulation)
                   .get_communicator();
-- 
2.43.0


From eb868ddedd94c19b18b6ce05243a843220e5b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 15/20] fix: let a given largest eigenvalue of the Chebyshev
 smoother take effect

---
 source/dealii/dealii_matrix_free_smoother.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 3f03101..2b01168 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -48,6 +48,8 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
             params->get_optional<double>("smoother.max_eigenvalue"))
     {
       data.max_eigenvalue = *max_eigenvalue;
+      // deal.II ignores the value when it estimates the eigenvalues itself
+      data.eig_cg_n_iterations = 0;
     }
 
     data.preconditioner = matrix_free_operator->get_diagonal_inverse();
-- 
2.43.0


From 6440b245d7c2a2fd6d38ebb458f93a19c3488d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 16/20] fix: keep the smallest eigenpairs when several Lanczos
 cycles find more than requested

---
 include/mfmg/common/lanczos.templates.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index ec6e124..e83db8d 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -149,25 +149,22 @@ Lanczos<OperatorType, VectorType>::solve(
     }
   }
 
-  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
-  evals.resize(n_eigenvectors);
-  evecs.resize(n_eigenvectors);
-
   // Sort eigenvalues in ascending order if we run multiple Lanczos
   // The reason is that while each Lanczos solve produces sorted eigenvalues,
   // they may be the same, and thus need to be interleaved
   if (num_cycles > 1)
   {
-    std::vector<double> sorted_evals(n_eigenvectors);
-    std::vector<VectorType> sorted_evecs(n_eigenvectors);
+    int const n_found = evals.size();
+    std::vector<double> sorted_evals(n_found);
+    std::vector<VectorType> sorted_evecs(n_found);
 
     // Compute permutation for ascending order
-    std::vector<int> perm_index(n_eigenvectors);
+    std::vector<int> perm_index(n_found);
     std::iota(perm_index.begin(), perm_index.end(), 0);
     std::sort(perm_index.begin(), perm_index.end(),
               [&](int i, int j) { return evals[i] < evals[j]; });
 
-    for (int i = 0; i < n_eigenvectors; i++)
+    for (int i = 0; i < n_found; i++)
     {
       sorted_evals[i] = evals[perm_index[i]];
       sorted_evecs[i] = evecs[perm_index[i]];
@@ -176,6 +173,11 @@ Lanczos<OperatorType, VectorType>::solve(
     evecs = sorted_evecs;
   }
 
+  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors, only
+  // after sorting so that the smallest ones are kept
+  evals.resize(n_eigenvectors);
+  evecs.resize(n_eigenvectors);
+
   return std::make_tuple(evals, evecs);
 }
 
-- 
2.43.0


From dc79f217693adb4479c31d3a9781c7c7c0947d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 17/20] fix: leave no stale agglomerate number on cells of
 other processes

---
 include/mfmg/common/amge.templates.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 58ef794..1c65463 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -422,8 +422,7 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
 
   // Forget the agglomerates of a previous call
   for (auto cell : _dof_handler.active_cell_iterators())
-    if (cell->is_locally_owned())
-      cell->clear_user_index();
+    cell->clear_user_index();
 
   // Flag the cells to create the agglomerates
   unsigned int agglomerate = 1;
@@ -603,6 +602,8 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_partitioner(
       else
         cell->set_user_index(agg_id->second);
     }
+    else
+      cell->clear_user_index();
   }
 
   _n_agglomerates = n_zoltan_agglomerates;
-- 
2.43.0


From dedf1e04a592359a02671cb9542950f1556f7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 18/20] fix: name the visualisation files after the rank also
 on serial meshes

---
 include/mfmg/common/amge.templates.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 1c65463..14fd47f 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -252,8 +252,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
 
   std::string full_filename =
       filename +
-      std::to_string(
-          _dof_handler.get_triangulation().locally_owned_subdomain());
+      std::to_string(dealii::Utilities::MPI::this_mpi_process(_comm));
   std::ofstream output((full_filename + ".vtu").c_str());
   data_out.write_vtu(output);
 
-- 
2.43.0


From 5db8b22a07d63b73afcf29501d64790457de9a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 19/20] fix: place the eigenvalues of constrained unknowns
 beyond all others for any scaling of the matrix

---
 include/mfmg/dealii/amge_host.templates.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 6c91bfc..e37fbaf 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -387,10 +387,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
   // Shift diagonal entries for constrained degrees of freedom, to avoid
-  // using the corresponding eigenvectors
+  // using the corresponding eigenvectors. They need to be beyond all other
+  // eigenvalues, whatever the scaling of the matrix.
+  double const eigenvalue_bound =
+      std::max(100., 2. * agglomerate_system_matrix.linfty_norm());
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        2. * eigenvalue_bound;
   }
 
   // Compute the eigenvalues and the eigenvectors
@@ -450,12 +454,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     full_matrix.copy_from(agglomerate_system_matrix);
 
     double const lower_bound = -0.5;
-    double const upper_bound = 100.;
+    double const upper_bound = eigenvalue_bound;
     double const tol = 1e-12;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
     full_matrix.compute_eigenvalues_symmetric(
         lower_bound, upper_bound, tol, lapack_eigenvalues, lapack_eigenvectors);
+    ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,
+                 "LAPACK did not find the required number of eigenpairs");
 
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
-- 
2.43.0


From 55de5150c18d5726d7bad6160c6237e007b13fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 20/20] fix: refuse results of LOBPCG with fewer eigenpairs
 than requested

---
 include/mfmg/dealii/amge_host.templates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index e37fbaf..4bb6bfe 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -266,8 +266,8 @@ void anasazi_compute_eigenvalues_and_eigenvectors(
   }
   std::tie(real_eigenvalues, eigenvectors) =
       solver.solve(eigensolver_params, lobpcg_initial_guess);
-  ASSERT(n_eigenvectors == eigenvectors.size(),
-         "Wrong number of computed eigenpairs");
+  ASSERT_THROW(n_eigenvectors == eigenvectors.size(),
+               "Wrong number of computed eigenpairs");
 
   // Copy real eigenvalues to complex
   std::copy(real_eigenvalues.begin(), real_eigenvalues.end(),
-- 
2.43.0

