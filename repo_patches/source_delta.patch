From d98cd7ccc7b321fa2e2d3b6f3b8177e3d26c94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 01/16] fix: apply beta when a low-rank operand of a product
 has rank zero

---
 .../htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp   | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp  | 5 +++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp      | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp  | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp  | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..6d1eaaa 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "add_lrmat_matrix_product.hpp"                         // for add_...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -28,6 +29,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +98,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..9d1a984 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -8,6 +8,7 @@
 #include "../utils/recompression.hpp"                           // for reco...
 #include "htool/matrix/matrix.hpp"                              // for Matrix
 #include "htool/misc/misc.hpp"                                  // for conj...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -29,6 +30,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +106,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..29698c4 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -3,6 +3,7 @@
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
 #include "../lrmat.hpp"
+#include "htool/wrappers/wrapper_blas.hpp" // for Blas
 #include <vector>
 
 namespace htool {
@@ -23,6 +24,10 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = ((transa == 'N') ? A.nb_rows() : A.nb_cols()) * mu;
+        int inc  = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &inc);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..c9f9777 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
 #include "../lrmat.hpp"                                         // for LowR...
+#include "htool/wrappers/wrapper_blas.hpp"                      // for Blas
 #include <vector>                                               // for vector
 namespace htool {
 
@@ -20,6 +21,10 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = (trans == 'N') ? A.nb_rows() : A.nb_cols();
+        int inc  = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &inc);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..414026b 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "../utils/recompression.hpp"                           // for reco...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -32,6 +33,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +110,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
-- 
2.43.0


From dd656b7ab1bfe03d55eac041aef37be9b173454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 02/16] fix: conjugate transposed A when multiplying it by a
 hermitian hierarchical matrix

---
 .../hmatrix/linalg/add_matrix_hmatrix_product.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..c9ad8f8 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -22,8 +22,8 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
     char new_transa = transb == 'N' ? 'T' : 'N';
     new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'N' : new_transa;
     new_transa      = B.get_symmetry_for_leaves() == 'S' and transb == 'N' ? 'N' : new_transa;
+    bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
     if (transa == 'N') {
-        bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
         std::vector<CoefficientPrecision> buffer_A(need_buffer_for_conj ? A.nb_cols() * A.nb_rows() : 0);
         if (need_buffer_for_conj) {
             std::copy(A.data(), A.data() + A.nb_cols() * A.nb_rows(), buffer_A.data());
@@ -37,14 +37,14 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
     } else {
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_buffer_for_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'T' && need_buffer_for_conj) or (transa == 'C' and !need_buffer_for_conj)) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_buffer_for_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_buffer_for_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_buffer_for_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From 1ed655a954ab0205f2c2f1f385a8e21bf9003c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 03/16] fix: apply beta when a hierarchical product has a
 rank-zero low-rank operand

---
 include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp | 5 +++++
 include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..ef50dc5 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_hmatrix_matrix_product.hpp"    // for add_hmatrix_m...
@@ -34,6 +35,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +113,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..9f2328b 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_lrmat_hmatrix.hpp"             // for add_lrmat_hma...
@@ -29,6 +30,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +103,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
-- 
2.43.0


From a8a7b0a51fb25388785f1084ec68c4440b6eeb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 04/16] fix: scale a hierarchical output by beta whatever the
 structure of the operands

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..d0a3895 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
-- 
2.43.0


From 3e05538f7e16078b93d03db3d438f299ee648858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 05/16] fix: report unsupported conjugations in hierarchical
 matrix-vector products

---
 .../hmatrix/linalg/add_hmatrix_vector_product.hpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
index 91da819..4306916 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
@@ -2,12 +2,14 @@
 #define HTOOL_HMATRIX_LINALG_ADD_HMATRIX_VECTOR_PRODUCT_HPP
 
 #include "../../matrix/linalg/add_matrix_vector_product.hpp" // for add_mat...
+#include "../../misc/logger.hpp"                             // for Logger
 #include "../../misc/misc.hpp"                               // for underly...
 #include "../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../hmatrix.hpp"                                    // for HMatrix
 #include "../lrmat/linalg/add_lrmat_vector_product.hpp"      // for add_lrm...
 #include <algorithm>                                         // for transform
 #include <complex>                                           // for complex
+#include <string>                                            // for string
 #include <vector>                                            // for vector
 
 namespace htool {
@@ -54,6 +56,10 @@ void internal_add_hmatrix_vector_product(char trans, std::complex<CoefficientPre
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) {
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
 
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
@@ -98,6 +104,11 @@ void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPreci
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void openmp_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) {
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
-- 
2.43.0


From 81260ab7b5ebfd1fe5b9c26443ade523bff7f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 06/16] fix: use both panel blocks in the off-diagonal Cholesky
 updates

---
 include/htool/hmatrix/linalg/factorization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..97d9eca 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -133,19 +133,21 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *input_L = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *input_L, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *output_U = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *output_U, *U, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From c3e09306bda6ba6d0a03b5ce68212425ef75f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 07/16] fix: zero the output of the internal transposed
 local-to-local matrix product

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..e40d499 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From 5c1fa7a1f9a532c5d0b69a472c205e75f9489e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 08/16] fix: conjugate in the internal transposed products of a
 hermitian distributed operator

---
 .../distributed_operator.hpp                  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index e40d499..b5ec4e3 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,9 +575,17 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_vector_product_local_to_local(in, out, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rank));
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank));
+        return;
     }
 
     int sizeWorld, rankWorld;
@@ -621,9 +629,17 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_matrix_product_local_to_local(in, out, mu, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rank) * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank) * mu);
+        return;
     }
 
     int sizeWorld, rankWorld;
-- 
2.43.0


From 9f5b2c2a6afed3b90c0cf3a9bb8f698fc319df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 09/16] fix: transposed local product of several vectors drops
 the previous value of the output

---
 .../htool/local_operators/local_operator.hpp  | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..b1cca73 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -180,11 +180,33 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
 
+        // Initial value of the output
+        if (m_source_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    buffer_out[j] = out[i + (m_source_cluster.get_offset() + j) * mu];
+                }
+                user_to_cluster(m_source_cluster, buffer_out.data(), buffer_out.data() + nc + nc * i);
+            }
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    output_perm[i + j * mu] = buffer_out[nc + j + i * nc];
+                }
+            }
+        } else {
+            std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
+        }
+        if (m_symmetry == 'H') {
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') {
+            local_add_matrix_product_symmetric_row_major('T', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output_perm.data(), mu, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
-- 
2.43.0


From 756d76c4184dd7a49f41f26aefd031ad2d7a3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 10/16] fix: transposed local product of a Hermitian block with
 one vector is not conjugated

---
 include/htool/local_operators/local_operator.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index b1cca73..bd5729f 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -151,9 +151,15 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_vector_product('T', alpha, in, beta, output);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             // m_data.add_vector_product('T', alpha, in, beta, output);
             local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
+            std::vector<CoefficientPrecision> input_conj(in, in + m_target_cluster.get_size());
+            conj_if_complex<CoefficientPrecision>(input_conj.data(), input_conj.size());
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+            local_add_vector_product_symmetric('T', conj_if_complex<CoefficientPrecision>(alpha), input_conj.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
-- 
2.43.0


From b39cd9433f229d60bbced053947f37c62c436295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 11/16] fix: local products with a renumbered target ignore the
 renumbering except for A x

---
 .../htool/local_operators/local_operator.hpp  | 65 +++++++++++++++----
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index bd5729f..f4c0409 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -117,6 +117,19 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_source_use_permutation_to_mvprod || m_symmetry == 'H' ? in_perm.data() : in + m_source_cluster.get_offset() * mu;
 
+        if (m_target_use_permutation_to_mvprod) {
+            std::vector<CoefficientPrecision> column(2 * nr);
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = out[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    buffer_out[i + j * mu] = column[nr + j];
+                }
+            }
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('N', alpha, input, beta, output, mu);
@@ -131,18 +144,31 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            std::vector<CoefficientPrecision> column(2 * nr);
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = output[i + j * mu];
+                }
+                cluster_to_user(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    out[i + j * mu] = column[nr + j];
+                }
+            }
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
-        CoefficientPrecision *output = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? buffer_in.data() : in;
+        CoefficientPrecision *output      = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
+
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+        }
 
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
@@ -150,12 +176,12 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_vector_product('T', alpha, in, beta, output);
+            local_add_vector_product('T', alpha, input, beta, output);
         } else if (m_symmetry == 'S') {
             // m_data.add_vector_product('T', alpha, in, beta, output);
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
         } else if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
-            std::vector<CoefficientPrecision> input_conj(in, in + m_target_cluster.get_size());
+            std::vector<CoefficientPrecision> input_conj(input, input + m_target_cluster.get_size());
             conj_if_complex<CoefficientPrecision>(input_conj.data(), input_conj.size());
             conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
             local_add_vector_product_symmetric('T', conj_if_complex<CoefficientPrecision>(alpha), input_conj.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
@@ -175,16 +201,29 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         int nc = m_source_cluster.get_size();
         int nr = m_target_cluster.get_size();
-        std::vector<CoefficientPrecision> input_perm(m_symmetry == 'H' ? nr * mu : 0);
+        std::vector<CoefficientPrecision> input_perm(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? nr * mu : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
-        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
+        if (m_target_use_permutation_to_mvprod) {
+            std::vector<CoefficientPrecision> column(2 * nr);
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = in[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    input_perm[i + j * mu] = column[nr + j];
+                }
+            }
+        } else if (m_symmetry == 'H') {
             std::copy_n(in, input_perm.size(), input_perm.data());
+        }
+        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
         }
 
-        const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? input_perm.data() : in;
 
         // Initial value of the output
         if (m_source_use_permutation_to_mvprod) {
-- 
2.43.0


From 012347b0025b52cd61ffa76b81ebfc45e0a5298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 12/16] fix: copies of an HMatrix carry the symmetry of their
 leaves, assignments drop the old data

---
 include/htool/hmatrix/hmatrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..a8f0314 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
@@ -97,9 +97,13 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
 
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
+        } else {
+            m_dense_data.reset();
         }
         if (rhs.m_low_rank_data) {
             m_low_rank_data = std::make_unique<LowRankMatrix<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_low_rank_data);
+        } else {
+            m_low_rank_data.reset();
         }
         return *this;
     }
-- 
2.43.0


From 3f59c4169bf906c29f838e6e7f310faedc8ac0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 13/16] fix: a moved-from Matrix is empty

---
 include/htool/matrix/matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..3f82118 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -59,7 +59,9 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
+        rhs.m_data           = nullptr;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -70,8 +72,11 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
+            rhs.m_data           = nullptr;
         }
         return *this;
     }
-- 
2.43.0


From ceb2a25d804d45161d71ecc518bdd8aa07ee881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 14/16] fix: resizing a Matrix that does not own its data does
 not take ownership of it

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 3f82118..25514de 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -230,13 +230,13 @@ class Matrix {
             m_data = nullptr;
             m_data = new T[nbr * nbc];
         } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+            m_data           = new T[nbr * nbc];
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 79086bacb17f2ba2ef11614086f55d0ee5a1b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:30 +0000
Subject: [PATCH 15/16] fix: a moved Cluster tree refers to its new root

---
 include/htool/clustering/cluster_node.hpp | 41 ++++++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..47abf73 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -9,6 +9,7 @@
 #include <memory>  // for make_shared, operator==
 #include <numeric> // for iota
 #include <string>  // for basic_string
+#include <utility> // for move
 #include <vector>  // for vector
 
 namespace htool {
@@ -23,6 +24,20 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     int m_size;                                   // number of geometric points
     int m_counter;                                // numbering of the nodes level-wise
 
+    void replace_in_tree_data(const Cluster &moved_node) {
+        if (this->m_tree_data == nullptr) {
+            return;
+        }
+        if (this->m_tree_data->m_root_cluster == &moved_node) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+        for (auto &cluster_on_partition : this->m_tree_data->m_clusters_on_partition) {
+            if (cluster_on_partition == &moved_node) {
+                cluster_on_partition = this;
+            }
+        }
+    }
+
   public:
     // Root constructor
     Cluster(CoordinatesPrecision radius, std::vector<CoordinatesPrecision> &center, int rank, int offset, int size) : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(), m_radius(radius), m_center(center), m_rank(rank), m_offset(offset), m_size(size), m_counter(0) {
@@ -42,11 +57,27 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     }
 
     // no copy
-    Cluster(const Cluster &)                       = delete;
-    Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
-    virtual ~Cluster()                             = default;
+    Cluster(const Cluster &)            = delete;
+    Cluster &operator=(const Cluster &) = delete;
+    virtual ~Cluster()                  = default;
+
+    // the tree data refers to its root, and possibly to the moved node, by address
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        this->replace_in_tree_data(cluster);
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        if (this != &cluster) {
+            TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+            m_radius  = cluster.m_radius;
+            m_center  = std::move(cluster.m_center);
+            m_rank    = cluster.m_rank;
+            m_offset  = cluster.m_offset;
+            m_size    = cluster.m_size;
+            m_counter = cluster.m_counter;
+            this->replace_in_tree_data(cluster);
+        }
+        return *this;
+    }
 
     // Cluster getters
     const CoordinatesPrecision &get_radius() const { return m_radius; }
-- 
2.43.0


From f737fe41c4ea6dc7c8b85bf12ca19c9d06a0f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 16/16] fix: building twice with one HMatrixTreeBuilder
 computed the blocks of the first matrix again

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..b376d09 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -189,6 +189,11 @@ HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<Coefficien
     root_hmatrix.set_minimal_source_depth(m_minsourcedepth);
     root_hmatrix.set_block_tree_consistency(m_is_block_tree_consistent);
 
+    // Forget the blocks of a previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Build hierarchical block structure
     std::chrono::steady_clock::time_point start, end;
     start = std::chrono::steady_clock::now();
-- 
2.43.0

