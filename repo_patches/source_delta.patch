From 1592e2b5549c8a32d811c230d09a4fe362457e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 01/42] fix: honour the leading block size when preprocessing
 is skipped

With no_pre set, the three level kernels replaced the user's leading block
size by the whole matrix, so the deferral statistic m0 - m wrapped around.
---
 src/hif/alg/factor.hpp       | 2 +-
 src/hif/alg/pivot_factor.hpp | 2 +-
 src/hif/alg/symm_factor.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 8472352..36399bd 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -682,7 +682,7 @@ inline CsType level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // keep the leading block size given by the user, if any
   }
   timer.finish();  // prefile pre-processing
 
diff --git a/src/hif/alg/pivot_factor.hpp b/src/hif/alg/pivot_factor.hpp
index 4e36be9..c82e58a 100644
--- a/src/hif/alg/pivot_factor.hpp
+++ b/src/hif/alg/pivot_factor.hpp
@@ -156,7 +156,7 @@ inline CsType pivot_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // keep the leading block size given by the user, if any
   }
 
   timer.finish();  // prefile pre-processing
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 546d38e..116c84d 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -197,7 +197,7 @@ inline CsType symm_level_factorize(
     std::fill(s.begin(), s.end(), scalar_type(1));
     t.resize(A.ncols());
     std::fill(t.begin(), t.end(), scalar_type(1));
-    m = A.nrows();
+    m = m0;  // keep the leading block size given by the user, if any
   }
   timer.finish();  // prefile pre-processing
 
-- 
2.43.0


From fc6634d3ee1c1aeb79ec16a1f38a8e4684c26960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 02/42] fix: always give RCM a symmetric pattern

Symmetric preprocessing is also used for matrices whose pattern is only
nearly symmetric; RCM then walked a nonsymmetric graph and returned (and
indexed with) invalid permutations.
---
 src/hif/pre/matching_scaling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/matching_scaling.hpp b/src/hif/pre/matching_scaling.hpp
index f005e52..da28537 100644
--- a/src/hif/pre/matching_scaling.hpp
+++ b/src/hif/pre/matching_scaling.hpp
@@ -441,8 +441,10 @@ inline std::pair<CcsType, typename CcsType::size_type> do_maching(
   return_type BB;
   if (compute_perm && m) {
     p.build_inv();
-    // to see if we need to build A^T+A pattern
-    const bool build_apat = !IsSymm && opts.reorder == REORDER_RCM;
+    // to see if we need to build A^T+A pattern. NOTE that RCM requires symmetric
+    // patterns, and IsSymm does not imply that for the actual input
+    const bool build_apat = opts.reorder == REORDER_RCM ||
+                            (IsSymm && opts.reorder == REORDER_AUTO);
     if (build_apat) q.build_inv();
     BB = internal::compute_leading_block(A, A_crs, m, p, q, build_apat);
   }
-- 
2.43.0


From b0c95ad2561277983c05ead3df34f269a3d6346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 03/42] fix: accept an entirely deferred symmetric leading
 block

With no usable diagonal m is zero; an empty L_offsets array was taken for a
failed memory allocation.
---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index 36399bd..dea50d1 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -746,7 +746,7 @@ inline CsType level_factorize(
   Array<indptr_type> L_offsets;
   if (IsSymm) {
     L_offsets.resize(m);
-    hif_error_if(L_offsets.status() == DATA_UNDEF,
+    hif_error_if(m && L_offsets.status() == DATA_UNDEF,
                  "memory allocation failed for L_offsets at level %zd.",
                  cur_level);
   }
-- 
2.43.0


From a442117c694ee7251e3f195d97d1bfedb66a771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 04/42] fix: extract an empty leading block

The pointer array kept offsets of the full matrix and the empty value array
was reported as a failed allocation.
---
 src/hif/ds/CompressedStorage.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 0079753..1c2477a 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -620,15 +620,13 @@ class CompressedStorage {
       nz += (last - ind_cbegin(i));
     }
     indices.resize(nz);
-    if (nz) {
-      hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
-      indptr.front() = 0;
-      auto itr       = indices.begin();
-      for (size_type i(0); i < m; ++i) {
-        auto last     = _indices.cbegin() + indptr[i + 1];
-        itr           = std::copy(ind_cbegin(i), last, itr);
-        indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
-      }
+    hif_error_if(nz && indices.status() == DATA_UNDEF,
+                 "memory allocation failed");
+    auto itr = indices.begin();
+    for (size_type i(0); i < m; ++i) {
+      auto last     = _indices.cbegin() + indptr[i + 1];
+      itr           = std::copy(ind_cbegin(i), last, itr);
+      indptr[i + 1] = indptr[i] + (last - ind_cbegin(i));
     }
   }
 
@@ -641,7 +639,8 @@ class CompressedStorage {
                                iarray_type &indices, array_type &vals) const {
     _extract_leading_struct(m, indptr, indices);
     vals.resize(indices.size());
-    hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+    hif_error_if(vals.size() && vals.status() == DATA_UNDEF,
+                 "memory allocation failed");
     auto v_itr = vals.begin();
     for (size_type i(0); i < m; ++i)
       v_itr = std::copy_n(val_cbegin(i), indptr[i + 1] - indptr[i], v_itr);
-- 
2.43.0


From 13cf1c847d4f2e71d59653975fa06521fc56385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 05/42] fix: factorize complex Hermitian systems with is_symm

The symmetric kernel transposed without conjugation (counterpart of A, F and
the LDL^H update), so complex Hermitian input gave a wrong preconditioner.
---
 src/hif/alg/Crout.hpp       | 24 +++++++++++++++++++++++-
 src/hif/alg/symm_factor.hpp | 16 ++++++----------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/hif/alg/Crout.hpp b/src/hif/alg/Crout.hpp
index dded03a..e04ebd0 100644
--- a/src/hif/alg/Crout.hpp
+++ b/src/hif/alg/Crout.hpp
@@ -36,6 +36,7 @@ along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 #include "hif/utils/common.hpp"
 #include "hif/utils/log.hpp"
+#include "hif/utils/math.hpp"
 
 namespace hif {
 
@@ -381,7 +382,7 @@ class Crout {
                    (size_type)L_col, _step);
         // compute d*L^T
         auto       L_v_itr = L.val_cbegin(L_col) + L_start[L_col];
-        const auto dlt     = d[L_col] * *L_v_itr;
+        const auto dlt     = d[L_col] * conjugate(*L_v_itr);
         auto       L_i_itr = L.row_ind_cbegin(L_col) + L_start[L_col],
              L_last        = L.row_ind_cend(L_col);
         if (L_i_itr != L_last) {
@@ -629,6 +630,27 @@ class Crout {
     }
   }
 
+  /// \brief update diagonal for symmetric (Hermitian) systems
+  /// \tparam SpVecType sparse vector for storing l, see \ref SparseVector
+  /// \tparam DiagType diagonal matrix type, see \ref Array
+  /// \param[in] l current column vector of L, scaled by the diagonal
+  /// \param[in] m leading block size
+  /// \param[in,out] d diagonal entries
+  template <class SpVecType, class DiagType>
+  inline void update_diag_symm(const SpVecType &l, const size_type m,
+                               DiagType &d) const {
+    const auto      dk = d[_step];
+    const size_type n  = l.size();
+    for (size_type i(0); i < n; ++i) {
+      const size_type idx = l.idx(i);
+      hif_assert(idx > deferred_step(),
+                 "l should only contain the lower part, "
+                 "(idx,step(defer))=(%zd,%zd(%zd))!",
+                 idx, _step, _defers);
+      if (idx < m) d[idx] -= dk * l.val(i) * conjugate(l.val(i));
+    }
+  }
+
   /// \brief scale the computed row/column vectors by current diagonal inverse
   /// \tparam DiagType diagonal matrix type, see \ref Array
   /// \tparam SpVecType sparse vector for storing l/U, see \ref SparseVector
diff --git a/src/hif/alg/symm_factor.hpp b/src/hif/alg/symm_factor.hpp
index 116c84d..880884b 100644
--- a/src/hif/alg/symm_factor.hpp
+++ b/src/hif/alg/symm_factor.hpp
@@ -152,9 +152,9 @@ inline CsType symm_level_factorize(
 
   // build counterpart type
   other_type A_counterpart;
-  // NOTE: This can be done efficiently for symmetric real systems
-  // NOTE: For complex Hermitian matrix, the following will not work
-  internal::make_transpose(A, A_counterpart);
+  // NOTE: This can be done efficiently for symmetric real systems, whereas
+  // complex Hermitian systems need the conjugate values
+  internal::make_transpose(A, A_counterpart, true);
 
   // now use our trait and its static methods to precisely determine the ccs
   // and crs components.
@@ -396,7 +396,7 @@ inline CsType symm_level_factorize(
                cur_level, step);
 
     // update diagonals b4 dropping
-    step.update_diag<true>(l, l, m2, d);
+    step.update_diag_symm(l, m2, d);
 
     //---------------
     // drop and sort
@@ -623,12 +623,8 @@ inline CsType symm_level_factorize(
     A_counterpart.destroy();
   }
 
-  // construct F differently for symmetric real systems
-  crs_type F_ccs(E);
-  F.resize(E.ncols(), E.nrows());
-  F.inds()      = F_ccs.inds();
-  F.ind_start() = F_ccs.ind_start();
-  F.vals()      = F_ccs.vals();
+  // F is the (conjugate) transpose of E
+  internal::make_transpose(E, F, true);
 
   // recursive function free
   if (cur_level > 1u) const_cast<input_type &>(A).destroy();
-- 
2.43.0


From e97ffd5b5fce3dc8d7931e57578889efea5ceb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 06/42] fix: solve several right-hand sides on several levels

prec_solve_mrhs copied the remainder in the wrong direction and handed the
next level a work array that was too small; HIF::solve_mrhs sized its buffer
only when it was empty, so it overflowed after a single right-hand-side solve
or a narrower block solve.
---
 src/hif/alg/prec_solve.hpp | 6 +++---
 src/hif/builder.hpp        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/alg/prec_solve.hpp b/src/hif/alg/prec_solve.hpp
index 74f177c..a93c381 100644
--- a/src/hif/alg/prec_solve.hpp
+++ b/src/hif/alg/prec_solve.hpp
@@ -484,17 +484,17 @@ inline void prec_solve_mrhs(PrecItr prec_itr,
   } else {
     auto y_mn = interface_array_type(nm, y.data() + m, WRAP);
     // advance to next buffer region
-    auto work_next = work_array_type(nm, &work[n], WRAP);
+    auto work_next = work_array_type(work.size() - n, &work[0] + n, WRAP);
     auto work_b    = work_array_type(nm, &work[0] + m, WRAP);
     for (size_type i(0); i < nm; ++i)
-      for (size_type k(0); k < Nrhs; ++k) y_mn[i][k] = work_b[i][k];
+      for (size_type k(0); k < Nrhs; ++k) work_b[i][k] = y_mn[i][k];
     // rec call, note that y_mn should store the solution
     prec_solve_mrhs(++prec_itr, work_b, last_dim, y_mn, work_next);
   }
 
   // copy y(m+1:n) to work(m+1:n)
   for (size_type i(m); i < n; ++i)
-    for (size_type k(0); k < Nrhs; ++k) y[i][k] = work[i][k];
+    for (size_type k(0); k < Nrhs; ++k) work[i][k] = y[i][k];
 
   // only handle the F part if it's not empty
   if (prec.F.ncols()) {
diff --git a/src/hif/builder.hpp b/src/hif/builder.hpp
index aa23a49..8c18730 100644
--- a/src/hif/builder.hpp
+++ b/src/hif/builder.hpp
@@ -438,7 +438,7 @@ class HIF {
     hif_error_if(b.size() != x.size(), "unmatched sizes");
     hif_error_if(nsp, "multiple RHS does not support null space filter.");
     const auto nw = compute_prec_work_space(_precs.cbegin(), _precs.cend());
-    if (_prec_work.empty()) _prec_work.resize(nw * Nrhs);
+    if (_prec_work.size() < nw * Nrhs) _prec_work.resize(nw * Nrhs);
     Array<std::array<boost_value_type, Nrhs>> w(
         nw, (std::array<boost_value_type, Nrhs> *)_prec_work.data(), true);
     prec_solve_mrhs(_precs.cbegin(), b, r, x, w);
-- 
2.43.0


From 1c9119f3981add0d1dd79c2dc40223e4f5bc1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 07/42] fix: address the columns of SYEIG's block right-hand
 sides

---
 src/hif/small_scale/SYEIG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index b259604..c8b4151 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -234,7 +234,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, solve inv(lambda)*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -243,7 +243,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
@@ -300,7 +300,7 @@ class SYEIG {
     for (size_type i = 0; i < Nrhs; ++i) {
       // step 1, compute y=Q^T*x
       lapack_kernel::gemv('C', _mat.nrows(), _mat.ncols(), value_type(1),
-                          _mat.data(), _mat.nrows(), &_mrhs(0, i * Nrhs),
+                          _mat.data(), _mat.nrows(), &_mrhs(0, i),
                           value_type(0), _work.data());
       // step 2, compute lambda*y with truncation
       for (size_type i(0); i < rk; ++i)
@@ -309,7 +309,7 @@ class SYEIG {
       // step 3, compute x=Q*y
       lapack_kernel::gemv('N', _mat.nrows(), _mat.ncols(), value_type(1),
                           _mat.data(), _mat.nrows(), _work.data(),
-                          value_type(0), &_mrhs(0, i * Nrhs));
+                          value_type(0), &_mrhs(0, i));
     }
     // copy back to the application
     for (int j = 0; j < Nrhs; ++j)
-- 
2.43.0


From ff0f22336f27599d050f1919aaa77cee5c74f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 08/42] fix: rank decision of the symmetric eigenvalue solver

The threshold must be relative to the magnitude of the dominant eigenvalue,
which may be negative, and ?syev returns eigenvalues in ascending order, so the
positive and negative definite branches truncated from the wrong end.
---
 src/hif/small_scale/SYEIG.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hif/small_scale/SYEIG.hpp b/src/hif/small_scale/SYEIG.hpp
index c8b4151..0c606c2 100644
--- a/src/hif/small_scale/SYEIG.hpp
+++ b/src/hif/small_scale/SYEIG.hpp
@@ -134,23 +134,24 @@ class SYEIG {
     _trunc_order.resize(n);
     std::iota(_trunc_order.begin(), _trunc_order.end(), 0);
     const scalar_type thres =
-        EPS * *std::max_element(_w.cbegin(), _w.cend(),
-                                [](const value_type a, const value_type b) {
-                                  return std::abs(a) < std::abs(b);
-                                });
+        EPS *
+        std::abs(*std::max_element(_w.cbegin(), _w.cend(),
+                                   [](const scalar_type a, const scalar_type b) {
+                                     return std::abs(a) < std::abs(b);
+                                   }));
     _rank = n;
     if (opts.spd > 0) {
-      // ensure pd-ness
-      for (int i(n - 1); i > -1; --i)
+      // ensure pd-ness, NOTE that eigenvalues are in ascending order
+      // reverse the order for truncations
+      std::reverse(_trunc_order.begin(), _trunc_order.end());
+      for (size_type i(0); i < n; ++i)
         if (_w[i] <= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
           break;
     } else if (opts.spd < 0) {
       // ensure nd-ness
-      // reverse the order for truncations
-      std::reverse(_trunc_order.begin(), _trunc_order.end());
-      for (size_type i(0); i < n; ++i)
+      for (int i(n - 1); i > -1; --i)
         if (_w[i] >= 0.0 || std::abs(_w[i]) <= thres)
           --_rank;
         else
-- 
2.43.0


From 835aff5894030fe7bf54cd6c45968ed4ba5b67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 09/42] fix: report rank zero for a zero dense block

QRCP judged a block of zeros to have full rank and then divided by zero.
---
 src/hif/small_scale/QRCP.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hif/small_scale/QRCP.hpp b/src/hif/small_scale/QRCP.hpp
index f8b8644..688c117 100644
--- a/src/hif/small_scale/QRCP.hpp
+++ b/src/hif/small_scale/QRCP.hpp
@@ -148,7 +148,7 @@ class QRCP {
     // weighted by R(0,0)
     const scalar_type diag_eps = diag_tol * std::abs(_mat[0]);
     for (size_type i = N; i != 0u; --i)
-      if (std::abs(_mat(i - 1, i - 1)) < diag_eps) {
+      if (std::abs(_mat(i - 1, i - 1)) <= diag_eps) {
         if (hif_verbose(INFO, opts)) {
           hif_info(
               "\n  System is ill-conditioned (diagonal %zd is smaller\n"
@@ -334,6 +334,11 @@ class QRCP {
     static constexpr typename lapack_kernel::int_type JOB_MIN = 2, JOB_MAX = 1;
 
     const size_type n = _mat.ncols();
+    if (_mat(0, 0) == value_type(0)) {
+      // zero matrix, as the pivots are in descending order
+      _rank = 0u;
+      return;
+    }
     _work.resize(2 * n);                 // allocate buffer
     auto *x = _work.data(), *y = x + n;  // used in ?laic1
     x[0] = y[0] = value_type(1);
-- 
2.43.0


From c85b0fa0c36a6b10daa1f8d53a7794244c107874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 10/42] fix: lower and upper drop tolerances were exchanged

determine_fac_pars returned tau_U before tau_L while every caller unpacks
them in the other order.
---
 src/hif/alg/factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/alg/factor.hpp b/src/hif/alg/factor.hpp
index dea50d1..3f6e4b9 100644
--- a/src/hif/alg/factor.hpp
+++ b/src/hif/alg/factor.hpp
@@ -101,7 +101,7 @@ determine_fac_pars(const Options &opts, const int lvl) {
     alpha_L = opts.alpha_L;
     alpha_U = opts.alpha_U;
   }
-  return std::make_tuple(kappa_d, kappa, tau_U, tau_L, alpha_L, alpha_U);
+  return std::make_tuple(kappa_d, kappa, tau_L, tau_U, alpha_L, alpha_U);
 }
 
 /// \brief extract permutated diagonal
-- 
2.43.0


From c3d0b04049d1642f31c071dcfbdd41a57add866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 11/42] fix: iterative a priori scaling of empty rows and
 columns

A row or column without (nonzero) entries got an infinite scaling factor, which
made every factor of the preconditioner NaN with pre_scale=2.
---
 src/hif/pre/a_priori_scaling.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hif/pre/a_priori_scaling.hpp b/src/hif/pre/a_priori_scaling.hpp
index 5517bca..c2d2471 100644
--- a/src/hif/pre/a_priori_scaling.hpp
+++ b/src/hif/pre/a_priori_scaling.hpp
@@ -199,12 +199,16 @@ inline void iterative_scale_p(const PermType &p, CrsType &A, ScalingType &rs,
           local_cs[j]  = std::max(std::abs(*v_itr), local_cs[j]);
         }
       }
-      local_rs[p[row]] = 1. / std::sqrt(tmp);
+      // do not scale empty rows
+      local_rs[p[row]] =
+          tmp == scalar_type(0) ? scalar_type(1) : 1. / std::sqrt(tmp);
     }
     for (size_type i(0); i < m; ++i) rs[i] *= local_rs[i];
     if (!IsSymm) {
       for (size_type i(0); i < n; ++i) {
-        const auto tmp = 1. / std::sqrt(local_cs[i]);
+        const scalar_type tmp = local_cs[i] == scalar_type(0)
+                                    ? scalar_type(1)
+                                    : 1. / std::sqrt(local_cs[i]);
         local_cs[i]    = tmp;
         cs[i] *= tmp;
       }
-- 
2.43.0


From 8fe032d78f34fcb184671583d26bc58297660463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 12/42] fix: wrapping of user's compressed arrays checks every
 line

---
 src/hif/ds/CompressedStorage.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 1c2477a..05d439a 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1757,7 +1757,7 @@ using CSR = CRS<ValueType, IndexType, IndPtrType>;
 /// \warning It's the user's responsibility to maintain the external data
 /// \ingroup ds
 template <class ValueType, class IndexType, class IndPtrType>
-inline CRS<ValueType, IndexType> wrap_const_crs(
+inline CRS<ValueType, IndexType, IndPtrType> wrap_const_crs(
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type nrows,
     const typename CRS<ValueType, IndexType, IndPtrType>::size_type ncols,
     const IndPtrType *row_start, const IndexType *col_ind,
@@ -1778,6 +1778,8 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
     if (row_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     for (size_type i = 0u; i < nrows; ++i) {
+      hif_error_if(row_start[i] > row_start[i + 1],
+                   "row_start decreases after row %zd", i);
       if (!mat.nnz_in_row(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
@@ -1792,7 +1794,8 @@ inline CRS<ValueType, IndexType> wrap_const_crs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.ncols(),
+        hif_error_if(size_type(*first) >= mat.ncols() ||
+                         size_type(*(last - 1)) >= mat.ncols(),
                      "%zd exceeds column size %zd", size_type(*(last - 1)),
                      mat.ncols());
     }
@@ -2679,7 +2682,9 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
     if (col_start[0] != 0)
       hif_error("first entry of row_start does not agree with 0.");
     Array<ValueType> buf;
-    for (size_type i = 0u; i < nrows; ++i) {
+    for (size_type i = 0u; i < ncols; ++i) {
+      hif_error_if(col_start[i] > col_start[i + 1],
+                   "col_start decreases after column %zd", i);
       if (!mat.nnz_in_col(i)) {
 #ifdef HIF_DEBUG
         hif_warning("row %zd is empty!", i);
@@ -2694,7 +2699,8 @@ inline CCS<ValueType, IndexType, IndPtrType> wrap_const_ccs(
         hif_error("%zd row is not sorted, the checking failed at entry %td", i,
                   itr - first);
       else
-        hif_error_if(size_type(*(last - 1)) >= mat.nrows(),
+        hif_error_if(size_type(*first) >= mat.nrows() ||
+                         size_type(*(last - 1)) >= mat.nrows(),
                      "%zd exceeds row size %zd", size_type(*(last - 1)),
                      mat.nrows());
     }
-- 
2.43.0


From d7b6bd5f8db168a2d8508394cbfb433ef77c1f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 13/42] fix: refuse decreasing index pointers

---
 src/hif/ds/CompressedStorage.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 05d439a..8fd1190 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -205,6 +205,9 @@ class CompressedStorage {
             "indices/values length %zd/%zd",
             pname, pname, nnz(), _indices.size(), _vals.size());
       // check each entry
+      for (size_type i = 0u; i < _psize; ++i)
+        hif_error_if(_ind_start[i] > _ind_start[i + 1],
+                     "%s start decreases after %s %zd", pname, pname, i);
       for (size_type i = 0u; i < _psize; ++i) {
         hif_error_if(!std::is_sorted(_ind_cbegin(i), _ind_cend(i),
                                      [](const index_type l,
-- 
2.43.0


From 6ca7959307c54e45d272f004c54f7cd0455d5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 14/42] fix: permute and assemble matrices without entries

---
 src/hif/ds/CompressedStorage.hpp | 3 ++-
 src/hif/utils/coo2compress.hpp   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 8fd1190..dd5998e 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -560,7 +560,8 @@ class CompressedStorage {
     const size_type psize = OnlyLeading ? leading : m;
     if (DoValue) {
       buf.resize(OnlyLeading ? leading : n);
-      hif_error_if(buf.status() == DATA_UNDEF, "memory allocation failed");
+      hif_error_if(buf.size() && buf.status() == DATA_UNDEF,
+                   "memory allocation failed");
     }
     indptr.resize(psize + 1);
     hif_error_if(indptr.status() == DATA_UNDEF, "memory allocation failed");
diff --git a/src/hif/utils/coo2compress.hpp b/src/hif/utils/coo2compress.hpp
index 1d52102..d61a690 100644
--- a/src/hif/utils/coo2compress.hpp
+++ b/src/hif/utils/coo2compress.hpp
@@ -76,9 +76,10 @@ inline void convert_coo2cs(const std::size_t       primary_size,
 
   // assemble to compressed storage
   indices.resize(nnz);
-  hif_error_if(indices.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && indices.status() == DATA_UNDEF,
+               "memory allocation failed");
   vals.resize(nnz);
-  hif_error_if(vals.status() == DATA_UNDEF, "memory allocation failed");
+  hif_error_if(nnz && vals.status() == DATA_UNDEF, "memory allocation failed");
   for (size_type i(0); i < nnz; ++i) {
     const auto pos = ind_start[pidx[i]];
     indices[pos]   = sids[i];
-- 
2.43.0


From f796c5ff81bd769de5a941757f7d6097c930886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 15/42] fix: transposed lower solve of several right-hand sides

---
 src/hif/ds/CompressedStorage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index dd5998e..4202a8d 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1432,7 +1432,7 @@ class CRS
     using rev_v_iterator = std::reverse_iterator<const_v_iterator>;
 
     std::array<InOutType, Nrhs> tmp;
-    for (size_type j(_ncols - 1); j != 0u; --j) {
+    for (size_type j(_ncols); j != 0u; --j) {
       const auto j1 = j - 1;
       for (size_type k(0); k < Nrhs; ++k) tmp[k] = y[j1][k];
       auto itr   = rev_iterator(col_ind_cend(j1));
@@ -2346,7 +2346,7 @@ class CCS
       auto            itr   = row_ind_cbegin(j1);
       auto            v_itr = _base::val_cbegin(j1);
       tmp.fill(v_t(0));
-      for (auto last = row_ind_cbegin(j1); itr != last; ++itr, ++v_itr) {
+      for (auto last = row_ind_cend(j1); itr != last; ++itr, ++v_itr) {
         const auto avc = conjugate(static_cast<v_t>(*v_itr));
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += avc * y[*itr][k];
       }
-- 
2.43.0


From 00b7332ce9e71442e5e9c0a8fdd9d84556d89510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 16/42] fix: transposed product with several vectors conjugates

---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 4202a8d..fb38697 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1305,7 +1305,8 @@ class CRS
       for (auto last = col_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         const size_type j = *i_itr;
         hif_assert(j < _ncols, "%zd exceeds column size", j);
-        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * *v_itr;
+        const auto      av = conjugate(*v_itr);
+        for (size_type k(0); k < Nrhs; ++k) y[j * Nrhs + k] += temp[k] * av;
       }
     }
   }
@@ -2217,7 +2218,7 @@ class CCS
       for (auto last = row_ind_cend(i); i_itr != last; ++i_itr, ++v_itr) {
         hif_assert(size_type(*i_itr) < _nrows, "%zd exceeds the size bound",
                    size_type(*i_itr));
-        const auto av = *v_itr;
+        const auto av = conjugate(*v_itr);
         for (size_type k(0); k < Nrhs; ++k) tmp[k] += x[*i_itr * Nrhs + k] * av;
       }
       for (size_type k(0); k < Nrhs; ++k) y[i * Nrhs + k] = tmp[k];
-- 
2.43.0


From 094491b79417a3cc7b689546f0319ed05f4531aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 17/42] fix: prune against the largest entry of the orthogonal
 direction

---
 src/hif/ds/CompressedStorage.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index fb38697..4862a22 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -678,10 +678,11 @@ class CompressedStorage {
       // index since this maybe called by the user directly, and the user
       // may use 1-based index.
       Array<scalar_type> buf(n + 1);
-      std::fill_n(buf.begin(), n, scalar_type(0));
+      std::fill(buf.begin(), buf.end(), scalar_type(0));
       // determine the thresholds for the orthogonal direction
       for (size_type i(0); i < nz; ++i)
-        buf[_indices[i]] = eps * std::max(buf[_indices[i]], std::abs(_vals[i]));
+        buf[_indices[i]] = std::max(buf[_indices[i]], std::abs(_vals[i]));
+      for (auto &thres : buf) thres *= eps;
       for (size_type i(0); i < psize; ++i) {
         const size_type j_bak(j);
         auto            v_itr = v_itr_first + pos;
-- 
2.43.0


From 601bd33cdd78f8c851dc3c3d4998bd2614e7e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 18/42] fix: products with an empty dimension still define the
 result

---
 src/hif/ds/CompressedStorage.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hif/ds/CompressedStorage.hpp b/src/hif/ds/CompressedStorage.hpp
index 4862a22..fc80bc6 100644
--- a/src/hif/ds/CompressedStorage.hpp
+++ b/src/hif/ds/CompressedStorage.hpp
@@ -1218,8 +1218,8 @@ class CRS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication for MT (CRS only)
@@ -1240,8 +1240,8 @@ class CRS
                  nrows());
     hif_error_if(istart + len > nrows(),
                  "out-of-bound pass-of-end range detected");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), istart, len, y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, istart, len, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -1256,8 +1256,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, ncols(), Vy(0));
+    if (!_psize) return;
     for (size_type i = 0u; i < _psize; ++i) {
       const v_t temp  = x[i];
       auto      v_itr = _base::val_cbegin(i);
@@ -1296,8 +1296,8 @@ class CRS
         typename std::conditional<(sizeof(Vx) > sizeof(Vy)), Vx, Vy>::type;
     using v_t = typename std::conditional<(sizeof(v1_t) > sizeof(value_type)),
                                           v1_t, value_type>::type;
-    if (!_psize) return;
     std::fill_n(y, Nrhs * ncols(), Vy(0));
+    if (!_psize) return;
     std::array<v_t, Nrhs> temp;
     for (size_type i = 0u; i < _psize; ++i) {
       for (size_type k(0); k < Nrhs; ++k) temp[k] = x[i * Nrhs + k];
@@ -1323,8 +1323,8 @@ class CRS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector multiplication unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
@@ -2155,8 +2155,8 @@ class CCS
                                Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != y.size() || ncols() != x.size(),
                  "matrix vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_nt_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_nt_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix transpose vector multiplication with different type
@@ -2237,8 +2237,8 @@ class CCS
                               Array<std::array<OutType, Nrhs>> &     y) const {
     hif_error_if(nrows() != x.size() || ncols() != y.size(),
                  "T(matrix) vector unmatched sizes!");
-    if (x.size() && y.size())
-      multiply_mrhs_t_low<Nrhs>(x[0].data(), y[0].data());
+    if (y.size())
+      multiply_mrhs_t_low<Nrhs>(x.size() ? x[0].data() : nullptr, y[0].data());
   }
 
   /// \brief matrix vector multiplication
-- 
2.43.0


From 97928cc91384cede3bc6820c2722e1d51eb57c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 19/42] fix: parallel kernels partition by the size of the team
 they run in

Inside an enclosing parallel region (nested parallelism off), or when the
runtime grants fewer threads than requested, a team has fewer members than
the requested number of threads; the partitions assigned to the missing
threads were never processed.
---
 src/hif/alg/Schur.hpp   | 20 ++++++++++++--------
 src/hif/utils/mt.hpp    | 10 ++++++++++
 src/hif/utils/mt_mv.hpp |  8 ++++----
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index 8f89701..b3eb43c 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -446,11 +446,13 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   if (nthreads <= 3) {
 #pragma omp parallel num_threads(2) default(shared)
     do {
-      const int thread = get_thread();
-      if (thread)
-        drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
-      else
-        drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      // the team may consist of a single thread
+      for (int task = get_thread(); task < 2; task += get_team_size()) {
+        if (task)
+          drop_L_E(ref_indptr_L, alpha_L, L_E, buf_L, ibuf_L);
+        else
+          drop_U_F(ref_indptr_U, alpha_U, U_F, buf_U, ibuf_U);
+      }
     } while (false);  // end of parallel region for 2
     return;
   }
@@ -462,7 +464,7 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
   do {
     // determine thread id and work of partition
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(n, nthreads, thread);
+    const auto      part      = uniform_partition(n, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create additional work buffer
@@ -542,7 +544,9 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
       // resize nnz arrays
       L_E.col_ind().resize(L_E.nnz());
       L_E.vals().resize(L_E.nnz());
-    } else if (thread == 1) {
+    }
+    // NOTE the team may consist of a single thread
+    if (thread == (get_team_size() > 1 ? 1 : 0)) {
       // U part
       auto i_itr = U_F.row_ind().begin();
       auto v_itr = U_F.vals().begin();
@@ -624,7 +628,7 @@ inline CrsType compute_Schur_simple(const ScaleArray &s, const CrsType &A,
 #pragma omp parallel num_threads(nthreads) default(shared)
   do {
     const int       thread    = get_thread();
-    const auto      part      = uniform_partition(N, nthreads, thread);
+    const auto      part      = uniform_partition(N, get_team_size(), thread);
     const size_type start_idx = part.first, poe_idx = part.second;
 
     // create local sparse buffer
diff --git a/src/hif/utils/mt.hpp b/src/hif/utils/mt.hpp
index a736c6c..cc8db9a 100644
--- a/src/hif/utils/mt.hpp
+++ b/src/hif/utils/mt.hpp
@@ -87,6 +87,16 @@ inline int get_thread() {
 #endif
 }
 
+/// \brief get the number of threads in the current team
+/// \note Can be smaller than the number requested, e.g., in nested regions
+inline int get_team_size() {
+#ifdef _OPENMP
+  return omp_get_num_threads();
+#else
+  return 1;
+#endif
+}
+
 /// \brief uniform partition
 inline std::pair<std::size_t, std::size_t> uniform_partition(
     const std::size_t n, const int threads, const int thread) {
diff --git a/src/hif/utils/mt_mv.hpp b/src/hif/utils/mt_mv.hpp
index 9047317..200501c 100644
--- a/src/hif/utils/mt_mv.hpp
+++ b/src/hif/utils/mt_mv.hpp
@@ -67,7 +67,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x.data(), part.first, part.second - part.first, y.data());
   } while (false);  // parallel region
 }
@@ -91,7 +91,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.multiply_nt_low(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
@@ -142,7 +142,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x[0].data(), part.first,
                                  part.second - part.first, y[0].data());
   } while (false);  // parallel region
@@ -169,7 +169,7 @@ inline typename std::enable_if<CsType::ROW_MAJOR, T>::type multiply_mrhs_nt_low(
 #  pragma omp parallel num_threads(nthreads)
 #endif
   do {
-    const auto part = uniform_partition(A.nrows(), nthreads, get_thread());
+    const auto part = uniform_partition(A.nrows(), get_team_size(), get_thread());
     A.template multiply_mrhs_nt_low<Nrhs>(x, part.first, part.second - part.first, y);
   } while (false);  // parallel region
 }
-- 
2.43.0


From a99d4cd62cc566051b5b1d415002455f0fa7a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 20/42] fix: libhifir applies the requested rank in solves and
 products

lhf?Apply computed the numerical rank to use but only iterative refinement
received it.
---
 libhifir/src/libhifir.cpp | 44 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d59d310..0b1160c 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -147,25 +147,25 @@ static inline void factorize(PrecType &M, const MatHdlType mat,
 // solve implementation
 template <class PrecType, class ValueType>
 static inline void solve(PrecType &M, const ValueType *b, ValueType *x,
-                         const bool trans = false) {
+                         const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.solve(rhs, lhs, trans);
+  M.solve(rhs, lhs, trans, rank);
 }
 
 // multiplication implementation
 template <class PrecType, class ValueType>
 static inline void mmultiply(PrecType &M, const ValueType *b, ValueType *x,
-                             const bool trans = false) {
+                             const bool trans = false, const int rank = 0) {
   using array_t              = hif::Array<ValueType>;
   static constexpr bool WRAP = true;
 
   const array_t rhs(M.nrows(), (ValueType *)b, WRAP);
   array_t       lhs(M.nrows(), x, WRAP);
-  M.mmultiply(rhs, lhs, trans);
+  M.mmultiply(rhs, lhs, trans, rank);
 }
 
 template <class PrecType, class MatHdlType, class ValueType>
@@ -452,13 +452,13 @@ LhfStatus lhfdApply(const LhfdHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -672,13 +672,13 @@ LhfStatus lhfsApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -892,15 +892,15 @@ LhfStatus lhfzApply(const LhfzHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1114,15 +1114,15 @@ LhfStatus lhfcApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<float> *)b,
-                                 (std::complex<float> *)x, trans);
+                                 (std::complex<float> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<float> *)b,
-                             (std::complex<float> *)x, trans);
+                             (std::complex<float> *)x, trans, rnk);
     } else {
       _LHF_CANNOT_ACCEPT_NULL(hif->A);
       if (hif->M->nrows() != hif->A->n) return LHF_MISMATCHED_SIZES;
@@ -1197,13 +1197,13 @@ LhfStatus lhfsdApply(const LhfsHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
-        libhifir_impl::mmultiply(*hif->M, b, x, trans);
+        libhifir_impl::mmultiply(*hif->M, b, x, trans, rnk);
       else
-        libhifir_impl::solve(*hif->M, b, x, trans);
+        libhifir_impl::solve(*hif->M, b, x, trans, rnk);
     } else {
       // Ad not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Ad);
@@ -1247,15 +1247,15 @@ LhfStatus lhfczApply(const LhfcHifHdl hif, const LhfOperationType op,
   // determine rank
   int rnk(rank);
   if (rank == LHF_DEFAULT_RANK)
-    rnk = ((op != LHF_S && op != LHF_SH) || nirs > 1) ? -1 : 0;
+    rnk = ((op == LHF_S || op == LHF_SH) && nirs > 1) ? -1 : 0;
   try {
     if (nirs <= 1 || op == LHF_M || op == LHF_MH) {
       if (op == LHF_M || op == LHF_MH)
         libhifir_impl::mmultiply(*hif->M, (const std::complex<double> *)b,
-                                 (std::complex<double> *)x, trans);
+                                 (std::complex<double> *)x, trans, rnk);
       else
         libhifir_impl::solve(*hif->M, (const std::complex<double> *)b,
-                             (std::complex<double> *)x, trans);
+                             (std::complex<double> *)x, trans, rnk);
     } else {
       // Az not A
       _LHF_CANNOT_ACCEPT_NULL(hif->Az);
-- 
2.43.0


From 23adf89ecbd69644ac11e7625f8cf25dd9a167f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 21/42] fix: libhifir updates do not keep a matrix of the wrong
 size

---
 libhifir/src/libhifir.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 0b1160c..91de6ce 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -424,9 +424,9 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
 // Update A
 LhfStatus lhfdUpdate(LhfdHifHdl hif, const LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -644,9 +644,9 @@ LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
 // Update A
 LhfStatus lhfsUpdate(LhfsHifHdl hif, const LhfsMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -863,9 +863,9 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
 // Update A
 LhfStatus lhfzUpdate(LhfzHifHdl hif, const LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1085,9 +1085,9 @@ LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
 // Update A
 LhfStatus lhfcUpdate(LhfcHifHdl hif, const LhfcMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->A = A;
-  if (hif->A && !hif->M->empty())
-    if (hif->A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1182,9 +1182,9 @@ size_t lhfcGetSchurRank(const LhfcHifHdl hif) {
 // update Ad in hif by a double-precision matrix
 LhfStatus lhfsdUpdate(LhfsHifHdl hif, LhfdMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Ad = A;
-  if (hif->Ad && !hif->M->empty())
-    if (hif->Ad->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
@@ -1231,9 +1231,9 @@ LhfStatus lhfsdSolve(const LhfsHifHdl hif, const double *b, double *x) {
 // update Az in hif by a double-precision matrix
 LhfStatus lhfczUpdate(LhfcHifHdl hif, LhfzMatrixHdl A) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
+  if (A && !hif->M->empty())
+    if (A->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   hif->Az = A;
-  if (hif->Az && !hif->M->empty())
-    if (hif->Az->n != hif->M->nrows()) return LHF_MISMATCHED_SIZES;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From aa57e2cd547d278cf972b15300b240cf6d4bbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 22/42] fix: a refused libhifir setup leaves the refinement
 matrix alone

The refinement matrix was replaced before the arguments were checked and the
factorization was known to succeed; in addition, an empty preconditioner's
matrix pointers were not initialized.
---
 libhifir/src/libhifir.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 91de6ce..40704db 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -385,6 +385,7 @@ LhfdHifHdl lhfdCreate(const LhfdMatrixHdl A, const LhfdMatrixHdl S,
   LhfdHifHdl M = (LhfdHifHdl)std::malloc(sizeof(LhfdHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<double, LhfInt, LhfIndPtr>();
+  M->A = nullptr;
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -410,7 +411,6 @@ LhfStatus lhfdDestroy(LhfdHifHdl hif) {
 LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
                     const LhfdMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfdMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
@@ -418,6 +418,7 @@ LhfStatus lhfdSetup(LhfdHifHdl hif, const LhfdMatrixHdl A,
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  hif->A = A ? A : S;
   return LHF_SUCCESS;
 }
 
@@ -604,6 +605,8 @@ LhfsHifHdl lhfsCreate(const LhfsMatrixHdl A, const LhfsMatrixHdl S,
   LhfsHifHdl M = (LhfsHifHdl)std::malloc(sizeof(LhfsHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<float, LhfInt, LhfIndPtr>();
+  M->A = nullptr;
+  M->Ad = nullptr;
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -629,15 +632,15 @@ LhfStatus lhfsDestroy(LhfsHifHdl hif) {
 LhfStatus lhfsSetup(LhfsHifHdl hif, const LhfsMatrixHdl A,
                     const LhfsMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfsMatrixHdl facA = S ? S : A;
-  hif->Ad            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  hif->A = A ? A : S;
+  hif->Ad = nullptr;
   return LHF_SUCCESS;
 }
 
@@ -824,6 +827,7 @@ LhfzHifHdl lhfzCreate(const LhfzMatrixHdl A, const LhfzMatrixHdl S,
   LhfzHifHdl M = (LhfzHifHdl)std::malloc(sizeof(LhfzHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<double>, LhfInt, LhfIndPtr>();
+  M->A = nullptr;
   if (!M->M) {
     std::free(M);
     return nullptr;
@@ -849,7 +853,6 @@ LhfStatus lhfzDestroy(LhfzHifHdl hif) {
 LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
                     const LhfzMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfzMatrixHdl facA = S ? S : A;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
@@ -857,6 +860,7 @@ LhfStatus lhfzSetup(LhfzHifHdl hif, const LhfzMatrixHdl A,
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  hif->A = A ? A : S;
   return LHF_SUCCESS;
 }
 
@@ -1070,15 +1074,15 @@ LhfStatus lhfcDestroy(LhfcHifHdl hif) {
 LhfStatus lhfcSetup(LhfcHifHdl hif, const LhfcMatrixHdl A,
                     const LhfcMatrixHdl S, const double params[]) {
   _LHF_CANNOT_ACCEPT_NULL(hif);
-  hif->A             = A ? A : S;
   LhfcMatrixHdl facA = S ? S : A;
-  hif->Az            = nullptr;
   _LHF_CANNOT_ACCEPT_NULL(facA);
   try {
     libhifir_impl::factorize(*hif->M, facA, params);
   } catch (const std::exception &e) {
     _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
+  hif->A = A ? A : S;
+  hif->Az = nullptr;
   return LHF_SUCCESS;
 }
 
-- 
2.43.0


From 372af42ca5b558311ce2276064190cefef1054ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 23/42] fix: an empty libhifir matrix has no nonzeros instead
 of crashing

---
 libhifir/src/libhifir.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 40704db..d2e1a88 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -335,7 +335,8 @@ size_t lhfdGetMatrixSize(const LhfdMatrixHdl mat) {
 
 // get nnz
 size_t lhfdGetMatrixNnz(const LhfdMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -554,7 +555,8 @@ size_t lhfsGetMatrixSize(const LhfsMatrixHdl mat) {
 
 // get nnz
 size_t lhfsGetMatrixNnz(const LhfsMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -776,7 +778,8 @@ size_t lhfzGetMatrixSize(const LhfzMatrixHdl mat) {
 
 // get nnz
 size_t lhfzGetMatrixNnz(const LhfzMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
@@ -1002,7 +1005,8 @@ size_t lhfcGetMatrixSize(const LhfcMatrixHdl mat) {
 
 // get nnz
 size_t lhfcGetMatrixNnz(const LhfcMatrixHdl mat) {
-  return mat ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
+  return mat && mat->indptr
+             ? std::size_t(mat->indptr[mat->n] - mat->indptr[0])
              : std::size_t(0);
 }
 
-- 
2.43.0


From c5f0af7d76799e7fb0754ceabffc6d30b2788138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 24/42] fix: lhfQueryMmFile reports failures and dense files as
 documented

Exceptions raised for malformed files escaped to the C caller, and dense files
reported a nonzero column count.
---
 libhifir/src/libhifir.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index d2e1a88..1ee1a90 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -275,16 +275,21 @@ LhfStatus lhfQueryMmFile(const char *fname, int *is_sparse, int *is_real,
   if (!f) return LHF_NULL_OBJ;
   bool is_sparse2, is_real2;
   int  type_id;
-  // parse the first line
-  hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
-  *is_sparse = is_sparse2;
-  *is_real   = is_real2;
-  (void)type_id;  // not used
-  if (is_sparse2)
-    hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
-  else {
-    *nnz = 0u;
-    hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+  try {
+    // parse the first line
+    hif::internal::mm_read_firstline(f, is_sparse2, is_real2, type_id);
+    *is_sparse = is_sparse2;
+    *is_real   = is_real2;
+    (void)type_id;  // not used
+    if (is_sparse2)
+      hif::internal::mm_read_sparse_size(f, *nrows, *ncols, *nnz);
+    else {
+      hif::internal::mm_read_dense_size(f, *nrows, *ncols);
+      *ncols = *nnz = 0u;
+    }
+  } catch (const std::exception &e) {
+    // NOTE the file has been closed
+    _LHF_RETURN_FROM_HIFIR_ERROR(e);
   }
   std::fclose(f);
   return LHF_SUCCESS;
-- 
2.43.0


From d4b111b29ed8f0ebf2b9b34ac5471460bf830761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 25/42] fix: symmetric Matrix Market files with a diagonal only
 read correctly

The work arrays of twice the stored entries were not shrunk when no entry had
been mirrored, leaving uninitialized entries in the matrix.
---
 src/hif/utils/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 44436d8..e4033dc 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -591,7 +591,7 @@ inline void mm_read_sparse_data(std::FILE *f, const std::size_t nnz,
       vals[index] = -vals[index - 1];
     ++index;
   }
-  if (index != nnz) {
+  if (index != rows.size()) {
     rows.resize(index);
     cols.resize(index);
     vals.resize(index);
-- 
2.43.0


From 8b0b5a5b30a4d8ccb2370b7f3b9a540ab6355148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 26/42] fix: a non-numeric Matrix Market size line is an error,
 not an endless loop

---
 src/hif/utils/io.hpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index e4033dc..70edb8c 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -707,14 +707,11 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d %d", &m, &n, &nz);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 3);
+  // NOTE fscanf skips blank lines
+  if (std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+    std::fclose(f);
+    hif_error("unable to read sizes!");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -741,14 +738,11 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
     return;
   }
 
-  int num_items_read;
-  do {
-    num_items_read = std::fscanf(f, "%d %d", &m, &n);
-    if (num_items_read == EOF) {
-      std::fclose(f);
-      hif_error("reached EOF!");
-    }
-  } while (num_items_read != 2);
+  // NOTE fscanf skips blank lines
+  if (std::fscanf(f, "%d %d", &m, &n) != 2) {
+    std::fclose(f);
+    hif_error("unable to read sizes!");
+  }
   nrows = m;
   ncols = n;
 }
-- 
2.43.0


From 8d26f9cf5f710eb950a2249337488aa5650056ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 27/42] fix: overlong Matrix Market banners do not overflow the
 token buffers

---
 src/hif/utils/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index 70edb8c..afcd32f 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -627,8 +627,11 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   char storage_scheme[65];
 
   // read the first line
-  if (!std::fgets(line, 1025, f)) hif_error("unable to read the first line");
-  if (std::sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (!std::fgets(line, 1025, f)) {
+    std::fclose(f);
+    hif_error("unable to read the first line");
+  }
+  if (std::sscanf(line, "%64s %64s %64s %64s %64s", banner, mtx, crd, data_type,
                   storage_scheme) != 5) {
     std::fclose(f);
     hif_error("insufficient number of tokens in the first line");
-- 
2.43.0


From ba1612495062da9bade3e7492cb24aadb82a5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 28/42] fix: Matrix Market sizes and indices are validated

Negative sizes and row or column indices outside the declared shape led to
writes outside the compressed arrays.
---
 src/hif/utils/io.hpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index afcd32f..a688326 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -703,18 +703,16 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n, nz;
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) == 3) {
-    nrows = m;
-    ncols = n;
-    nnz   = nz;
-    return;
-  }
-
   // NOTE fscanf skips blank lines
-  if (std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+  if (sscanf(line, "%d %d %d", &m, &n, &nz) != 3 &&
+      std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
     std::fclose(f);
     hif_error("unable to read sizes!");
   }
+  if (m < 0 || n < 0 || nz < 0) {
+    std::fclose(f);
+    hif_error("sizes cannot be negative!");
+  }
   nrows = m;
   ncols = n;
   nnz   = nz;
@@ -735,17 +733,16 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
   } while (line[0] == '%');
 
   int m, n;
-  if (sscanf(line, "%d %d", &m, &n) == 2) {
-    nrows = m;
-    ncols = n;
-    return;
-  }
-
   // NOTE fscanf skips blank lines
-  if (std::fscanf(f, "%d %d", &m, &n) != 2) {
+  if (sscanf(line, "%d %d", &m, &n) != 2 &&
+      std::fscanf(f, "%d %d", &m, &n) != 2) {
     std::fclose(f);
     hif_error("unable to read sizes!");
   }
+  if (m < 0 || n < 0) {
+    std::fclose(f);
+    hif_error("sizes cannot be negative!");
+  }
   nrows = m;
   ncols = n;
 }
@@ -818,6 +815,12 @@ inline void read_mm_sparse(const char *filename, std::size_t &nrows,
       internal::mm_read_sparse_data<3, false>(f, nnz, rows, cols, vals);
   }
   std::fclose(f);
+  for (std::size_t i(0); i < rows.size(); ++i)
+    hif_error_if(static_cast<std::size_t>(rows[i]) >= nrows ||
+                     static_cast<std::size_t>(cols[i]) >= ncols,
+                 "entry (%zd,%zd) (C-based) is out of bounds (%zd,%zd)",
+                 static_cast<std::size_t>(rows[i]),
+                 static_cast<std::size_t>(cols[i]), nrows, ncols);
 }
 
 /// \brief Read vector from a MatrixMarket file
-- 
2.43.0


From dc3d73c948c8c1a3c059383e3941483edf40a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 29/42] fix: factorizing an empty libhifir matrix is an error,
 not a crash

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 1ee1a90..38b8daa 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -129,6 +129,7 @@ static inline LhfStatus mm_read_sparse(const char *fname, MatHdlType mat) {
 template <class PrecType, class MatHdlType>
 static inline void factorize(PrecType &M, const MatHdlType mat,
                              const double params[]) {
+  hif_error_if(!mat->indptr, "cannot factorize an empty matrix");
   if (!params) {
     if (mat->is_rowmajor)
       M.template factorize<true>(mat->n, mat->indptr, mat->indices, mat->vals);
-- 
2.43.0


From fb82c68b2df3c9234ff0dd14a6297172e38c4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 30/42] fix: lhfcCreate initializes the refinement matrices

---
 libhifir/src/libhifir.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 38b8daa..277a262 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -1063,6 +1063,12 @@ LhfcHifHdl lhfcCreate(const LhfcMatrixHdl A, const LhfcMatrixHdl S,
   LhfcHifHdl M = (LhfcHifHdl)std::malloc(sizeof(LhfcHif));
   if (!M) return nullptr;
   M->M = new (std::nothrow) hif::HIF<std::complex<float>, LhfInt, LhfIndPtr>();
+  M->A = nullptr;
+  M->Az = nullptr;
+  if (!M->M) {
+    std::free(M);
+    return nullptr;
+  }
   const auto status = lhfcSetup(M, A, S, params);
   if (status == LHF_HIFIR_ERROR) {
     lhfcDestroy(M);
-- 
2.43.0


From 12afc9cb8c45309228db2a564bc06c03c39bb830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 31/42] fix: refining with an empty libhifir matrix is an
 error, not a crash

---
 libhifir/src/libhifir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libhifir/src/libhifir.cpp b/libhifir/src/libhifir.cpp
index 277a262..da80000 100644
--- a/libhifir/src/libhifir.cpp
+++ b/libhifir/src/libhifir.cpp
@@ -178,6 +178,7 @@ static inline void hifir(const PrecType &M, const MatHdlType A,
 
   array_t bb(A->n, (ValueType *)b, true);
   array_t xx(A->n, (ValueType *)x, true);
+  hif_error_if(!A->indptr, "cannot refine with an empty matrix");
   if (!betas) {
     // no residual bounds
     if (A->is_rowmajor) {
-- 
2.43.0


From cfa0dfac786a033544f93baf07836945d7b2d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:14 +0000
Subject: [PATCH 32/42] fix: blank lines between Matrix Market comments are
 skipped

---
 src/hif/utils/io.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hif/utils/io.hpp b/src/hif/utils/io.hpp
index a688326..e6c0026 100644
--- a/src/hif/utils/io.hpp
+++ b/src/hif/utils/io.hpp
@@ -687,6 +687,12 @@ inline void mm_read_firstline(std::FILE *f, bool &is_sparse, bool &is_real,
   }
 }
 
+/// \brief Internal routine to check blank lines
+inline bool mm_is_blank(const char *line) {
+  while (*line && std::isspace((unsigned char)*line)) ++line;
+  return *line == '\0';
+}
+
 /// \brief Internal routine to read sizes
 inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
                                 std::size_t &ncols, std::size_t &nnz) {
@@ -700,12 +706,10 @@ inline void mm_read_sparse_size(std::FILE *f, std::size_t &nrows,
       std::fclose(f);
       hif_error("unable to read file");
     }
-  } while (line[0] == '%');
+  } while (line[0] == '%' || mm_is_blank(line));
 
   int m, n, nz;
-  // NOTE fscanf skips blank lines
-  if (sscanf(line, "%d %d %d", &m, &n, &nz) != 3 &&
-      std::fscanf(f, "%d %d %d", &m, &n, &nz) != 3) {
+  if (std::sscanf(line, "%d %d %d", &m, &n, &nz) != 3) {
     std::fclose(f);
     hif_error("unable to read sizes!");
   }
@@ -730,12 +734,10 @@ inline void mm_read_dense_size(std::FILE *f, std::size_t &nrows,
       std::fclose(f);
       hif_error("unable to read file");
     }
-  } while (line[0] == '%');
+  } while (line[0] == '%' || mm_is_blank(line));
 
   int m, n;
-  // NOTE fscanf skips blank lines
-  if (sscanf(line, "%d %d", &m, &n) != 2 &&
-      std::fscanf(f, "%d %d", &m, &n) != 2) {
+  if (std::sscanf(line, "%d %d", &m, &n) != 2) {
     std::fclose(f);
     hif_error("unable to read sizes!");
   }
-- 
2.43.0


From 11b67c30cda1e7d54fed5d3bcbca5dc7793d8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 33/42] fix: streaming options in includes the pivoting flag

---
 src/hif/Options.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index ffb8550..66ebf69 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -568,8 +568,8 @@ inline InStream &operator>>(InStream &in_str, hif::Options &opt) {
       opt.alpha_U >> opt.rho >> opt.c_d >> opt.c_h >> opt.N >> opt.verbose >>
       opt.rf_par >> opt.reorder >> opt.spd >> opt.check >> opt.pre_scale >>
       opt.symm_pre_lvls >> opt.threads >> opt.mumps_blr >> opt.fat_schur_1st >>
-      opt.rrqr_cond >> opt.gamma >> opt.beta >> opt.is_symm >> opt.no_pre >>
-      opt.nzp_thres >> opt.dense_thres;
+      opt.rrqr_cond >> opt.pivot >> opt.gamma >> opt.beta >> opt.is_symm >>
+      opt.no_pre >> opt.nzp_thres >> opt.dense_thres;
   return in_str;
 }
 
-- 
2.43.0


From 48a8bac3067398c077cd4b8951fba3431f2f8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 34/42] fix: documented option defaults are the actual ones

---
 src/hif/Options.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hif/Options.h b/src/hif/Options.h
index 66ebf69..db9a4b7 100644
--- a/src/hif/Options.h
+++ b/src/hif/Options.h
@@ -80,8 +80,8 @@ enum {
  * \note Values in parentheses are default settings
  */
 struct hif_Options {
-  double tau_L;      /*!< inverse-based droptol for L (0.001) */
-  double tau_U;      /*!< inverse-based droptol for U (0.001) */
+  double tau_L;      /*!< inverse-based droptol for L (0.0001) */
+  double tau_U;      /*!< inverse-based droptol for U (0.0001) */
   double kappa_d;    /*!< threshold for inverse-diagonal (3.) */
   double kappa;      /*!< inverse-norm threshold (3.) */
   double alpha_L;    /*!< growth factor of nnz per col (10) */
@@ -90,7 +90,7 @@ struct hif_Options {
   double c_d;        /*!< size parameter for dense LU (10.0) */
   double c_h;        /*!< size parameter for H-version (2.0) */
   int    N;          /*!< reference size of matrix (-1, system size) */
-  int    verbose;    /*!< message output level (1, i.e. info) */
+  int    verbose;    /*!< message output level (1, i.e. warning) */
   int    rf_par;     /*!< parameter refinement (default 1) */
   int    reorder;    /*!< reordering method (default is 2 (AMD)) */
   int    spd;        /*!< SPD-ness: 0 (ID), >0 (PD), <0 (ND), (default 0) */
@@ -103,7 +103,7 @@ struct hif_Options {
                         automatically determine symmetric preprocessing via
                         pattern symmetry (default -2) */
   int    threads;    /*!< user specified threads (default 0) */
-  int    mumps_blr;  /*!< MUMPS BLR options (default 2) *deprecated* */
+  int    mumps_blr;  /*!< MUMPS BLR options (default 1) *deprecated* */
   int    fat_schur_1st; /*!< double alpha for dropping L_E and U_F on 1st lvl */
   double rrqr_cond;     /*!< condition number threshold for RRQR (default 0) */
   int    pivot;         /*!< pivoting flag (default is AUTO (2)) */
-- 
2.43.0


From fbec21ffd19fb4ec8547c7fc50cb523c7b615b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 35/42] fix: libhifir verbose levels denote the levels of the
 C++ options

---
 libhifir/include/libhifir.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libhifir/include/libhifir.h b/libhifir/include/libhifir.h
index c75ddde..0130426 100644
--- a/libhifir/include/libhifir.h
+++ b/libhifir/include/libhifir.h
@@ -119,11 +119,12 @@ enum {
 // verbose levels
 enum {
   LHF_VERBOSE_NULL     = 0,
-  LHF_VERBOSE_INFO     = 1,
-  LHF_VERBOSE_PRE      = 2,
-  LHF_VERBOSE_FAC      = 4,
-  LHF_VERBOSE_PRE_TIME = 8,
-  LHF_VERBOSE_MEM      = 16,
+  LHF_VERBOSE_WARN     = 1,
+  LHF_VERBOSE_INFO     = 2,
+  LHF_VERBOSE_PRE      = 4,
+  LHF_VERBOSE_FAC      = 8,
+  LHF_VERBOSE_PRE_TIME = 16,
+  LHF_VERBOSE_MEM      = 32,
 };
 
 // reordering options
-- 
2.43.0


From 6d61e2d57946c4a6ef652200f5afaf718a606b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 36/42] fix: transposed LU solves conjugate like the transposed
 product

---
 src/hif/small_scale/LUP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hif/small_scale/LUP.hpp b/src/hif/small_scale/LUP.hpp
index 0c7d93e..5743baa 100644
--- a/src/hif/small_scale/LUP.hpp
+++ b/src/hif/small_scale/LUP.hpp
@@ -140,7 +140,7 @@ class LUP {
         "either the matrix is not set or the factorization has not yet done!");
     hif_error_if(x.size() != _mat.nrows(),
                  "unmatched sizes between system and rhs");
-    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, x, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
   }
 
@@ -166,7 +166,7 @@ class LUP {
     _mrhs.resize(x.size(), Nrhs);
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) _mrhs(i, j) = x[i][j];
-    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'T' : 'N') < 0)
+    if (lapack_kernel::getrs(_mat, _ipiv, _mrhs, tran ? 'C' : 'N') < 0)
       hif_error("GETRS returned negative info!");
     for (size_type j = 0; j < Nrhs; ++j)
       for (size_type i(0); i < x.size(); ++i) x[i][j] = _mrhs(i, j);
-- 
2.43.0


From 2cb8ea0009cc91b381f70b10bc3f970286e439d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 37/42] fix: threaded off-diagonal dropping drops everything
 for a nonpositive limit

---
 src/hif/alg/Schur.hpp | 48 ++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/hif/alg/Schur.hpp b/src/hif/alg/Schur.hpp
index b3eb43c..e4a022a 100644
--- a/src/hif/alg/Schur.hpp
+++ b/src/hif/alg/Schur.hpp
@@ -82,11 +82,13 @@ inline void drop_offsets_kernel(const IndPtrArray &ref_indptr,
     // fetch the value to the buffer
     const size_type first = indptr[i], last = indptr[i + 1];
     for (size_type j(first); j < last; ++j) buf[indices[j]] = vals[j];
-    std::nth_element(
-        indices.begin() + first, indices.begin() + first + sz_thres - 1,
-        indices.begin() + last, [&](const index_type ii, const index_type jj) {
-          return std::abs(buf[ii]) > std::abs(buf[jj]);
-        });
+    if (sz_thres)  // NOTE no pivot to select if everything is dropped
+      std::nth_element(
+          indices.begin() + first, indices.begin() + first + sz_thres - 1,
+          indices.begin() + last,
+          [&](const index_type ii, const index_type jj) {
+            return std::abs(buf[ii]) > std::abs(buf[jj]);
+          });
     // sort
     // std::sort(indices.begin() + first, indices.begin() + first + sz_thres);
     // fetch back the value
@@ -475,8 +477,9 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
     // actual loop begins
     for (size_type i(start_idx); i < poe_idx; ++i) {
       // L_E part
-      const size_type sz_thres_L =
-          std::ceil(alpha_L * (ref_indptr_L[i + 1] - ref_indptr_L[i]));
+      // NOTE a nonpositive limit drops everything
+      const size_type sz_thres_L = std::ceil(
+          std::max(alpha_L, 0.0) * (ref_indptr_L[i + 1] - ref_indptr_L[i]));
       if (sz_thres_L >= L_E.nnz_in_row(i))
         gaps_L[i] = 0;
       else {
@@ -487,20 +490,22 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
         for (size_type j(first); j < last; ++j)
           buf[L_E.col_ind()[j]] = L_E.vals()[j];
         // quickselect
-        std::nth_element(L_E.col_ind_begin(i),
-                         L_E.col_ind().begin() + first + sz_thres_L - 1,
-                         L_E.col_ind_end(i),
-                         [&](const index_type ii, const index_type jj) {
-                           return std::abs(buf[ii]) > std::abs(buf[jj]);
-                         });
+        if (sz_thres_L)
+          std::nth_element(L_E.col_ind_begin(i),
+                           L_E.col_ind().begin() + first + sz_thres_L - 1,
+                           L_E.col_ind_end(i),
+                           [&](const index_type ii, const index_type jj) {
+                             return std::abs(buf[ii]) > std::abs(buf[jj]);
+                           });
         // fetch back
         for (size_type j(first); j < first + sz_thres_L; ++j)
           L_E.vals()[j] = buf[L_E.col_ind()[j]];
       }
 
       // U_F part
-      const size_type sz_thres_U =
-          std::ceil(alpha_U * (ref_indptr_U[i + 1] - ref_indptr_U[i]));
+      // NOTE a nonpositive limit drops everything
+      const size_type sz_thres_U = std::ceil(
+          std::max(alpha_U, 0.0) * (ref_indptr_U[i + 1] - ref_indptr_U[i]));
       if (sz_thres_U >= U_F.nnz_in_col(i))
         gaps_U[i] = 0;
       else {
@@ -511,12 +516,13 @@ inline void drop_L_E_and_U_F(const typename CrsType::iparray_type &ref_indptr_L,
         for (size_type j(first); j < last; ++j)
           buf[U_F.row_ind()[j]] = U_F.vals()[j];
         // quickselect
-        std::nth_element(U_F.row_ind_begin(i),
-                         U_F.row_ind().begin() + first + sz_thres_U - 1,
-                         U_F.row_ind_end(i),
-                         [&](const index_type ii, const index_type jj) {
-                           return std::abs(buf[ii]) > std::abs(buf[jj]);
-                         });
+        if (sz_thres_U)
+          std::nth_element(U_F.row_ind_begin(i),
+                           U_F.row_ind().begin() + first + sz_thres_U - 1,
+                           U_F.row_ind_end(i),
+                           [&](const index_type ii, const index_type jj) {
+                             return std::abs(buf[ii]) > std::abs(buf[jj]);
+                           });
         // fetch back
         for (size_type j(first); j < first + sz_thres_U; ++j)
           U_F.vals()[j] = buf[U_F.row_ind()[j]];
-- 
2.43.0


From f570adaae9edae17791f25b77b8bd3fc27dbd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 38/42] fix: Array copying external data is empty if the
 allocation failed

---
 src/hif/ds/Array.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index a63dea3..593c1a2 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -162,13 +162,14 @@ class Array {
         _status      = DATA_UNDEF;
       } else {
         std::copy_n(data, n, _data);
-        _status = DATA_OWN;
+        _size = _cap = n;
+        _status      = DATA_OWN;
       }
     } else {
-      _data   = data;
-      _status = DATA_WRAP;
+      _data = data;
+      _size = _cap = n;
+      _status      = DATA_WRAP;
     }
-    _size = _cap = n;
   }
 
   /// \brief constructor for copying a foreign array, useful in type conversion
-- 
2.43.0


From 8a394cb6c27ead8ef255ab6099462ff597a35a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 39/42] fix: Array assignment takes effect for handles sharing
 the data, moved arrays can be copied

---
 src/hif/ds/Array.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 593c1a2..5b308da 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -220,8 +220,11 @@ class Array {
       _size   = other._size;
       _cap    = other._cap;
       _status = other._status;
-      // increment the counter
-      _counts->inc();
+      // increment the counter, note that a moved array has none
+      if (_counts)
+        _counts->inc();
+      else
+        _counts = new _RefCount();
     } else {
       // deep copy
       _counts = new _RefCount();
@@ -259,15 +262,10 @@ class Array {
   /// \param[in] other rhs Array
   /// \return lvalue reference of \a this
   Array& operator=(const Array& other) {
-    if (_data != other._data) {
-      // first, deallocate this
-      this->~Array();
-      _data   = other._data;
-      _size   = other._size;
-      _cap    = other._cap;
-      _status = other._status;
-      _counts = other._counts;
-      _counts->inc();
+    // NOTE the two arrays may share data but differ in sizes
+    if (this != &other) {
+      Array tmp(other);
+      swap(tmp);
     }
     return *this;
   }
@@ -276,7 +274,7 @@ class Array {
   /// \param[in] other rhs temp Array
   /// \return lvalue reference of \a this
   Array& operator=(Array&& other) {
-    if (_data != other._data) {
+    if (this != &other) {
       // call destructor
       this->~Array();
       _data   = other._data;
-- 
2.43.0


From fd1844c7f8c5a6e70aa389f8faac31387271e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 40/42] fix: DenseMatrix can be resized to its former sizes
 after being moved

---
 src/hif/ds/DenseMatrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hif/ds/DenseMatrix.hpp b/src/hif/ds/DenseMatrix.hpp
index b49884a..85d54e2 100644
--- a/src/hif/ds/DenseMatrix.hpp
+++ b/src/hif/ds/DenseMatrix.hpp
@@ -260,7 +260,8 @@ class DenseMatrix {
   /// \param[in] n2 number of columns
   /// \warning The value positions may be changed!
   inline void resize(const size_type n1, const size_type n2) {
-    if (n1 == _nrows && n2 == _ncols) return;
+    // NOTE the sizes are kept after the data has been moved away
+    if (n1 == _nrows && n2 == _ncols && _data.size() == n1 * n2) return;
     _nrows = n1;
     _ncols = n2;
     _data.resize(n1 * n2);
-- 
2.43.0


From 6077aad14c6796d073b8bbf420534e80066a3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 41/42] fix: Array is empty after a failed resize or reserve in
 optimized builds

---
 src/hif/ds/Array.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/hif/ds/Array.hpp b/src/hif/ds/Array.hpp
index 5b308da..8cbb4f1 100644
--- a/src/hif/ds/Array.hpp
+++ b/src/hif/ds/Array.hpp
@@ -358,9 +358,8 @@ class Array {
     pointer         data = new (std::nothrow) value_type[cap];
     hif_assert(data, "memory allocation failed");
     if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
+      // release the data
+      *this = Array();
       return;
     }
     if (presv) std::copy_n(_data, _size, data);
@@ -384,9 +383,8 @@ class Array {
     pointer data = new (std::nothrow) value_type[n];
     hif_assert(data, "memory allocation failed");
     if (!data) {
-      // call destructor
-      this->~Array();
-      _counts = new _RefCount();
+      // release the data
+      *this = Array();
       return;
     }
     std::copy_n(_data, _size, data);
-- 
2.43.0


From 48b776575bd87f3740e20b64d4a5c56d90037339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 42/42] fix: augmented storages can be built from the other
 layout and from temporaries

---
 src/hif/ds/AugmentedStorage.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hif/ds/AugmentedStorage.hpp b/src/hif/ds/AugmentedStorage.hpp
index 9750c0f..804ccae 100644
--- a/src/hif/ds/AugmentedStorage.hpp
+++ b/src/hif/ds/AugmentedStorage.hpp
@@ -452,7 +452,7 @@ class AugCRS : public CrsType,
     hif_error_if(nrows() + 1u != crs_type::row_start().size(),
                  "row-start array size (%zd) does not agree with nrows (%zd)",
                  crs_type::row_start().size(), nrows());
-    hif_error_if(crs_type::nnz() != col_ind.size(), "inconsistent nnz");
+    hif_error_if(crs_type::nnz() != col_ind().size(), "inconsistent nnz");
     _base::_build_aug(ncols(), crs_type::row_start(), col_ind());
   }
 
@@ -821,7 +821,7 @@ class AugCCS : public CcsType,
 
   /// \brief build augmented data structure based on mature CCS
   /// \param[in] ccs temp CCS system
-  inline void build_aug(crs_type &&ccs) {
+  inline void build_aug(ccs_type &&ccs) {
     ccs_type::operator=(ccs);
     hif_error_if(ccs.status() == DATA_UNDEF, "undefined data input");
     hif_error_if(
@@ -1080,7 +1080,7 @@ class AugCCS : public CcsType,
   inline iparray_type &      row_start() { return _base::_node_start; }
   inline const iparray_type &row_start() const { return _base::_node_start; }
   inline iparray_type &      row_end() { return _base::_node_end; }
-  inline const iparray_type *row_end() const { return _base::_node_end; }
+  inline const iparray_type &row_end() const { return _base::_node_end; }
   inline iparray_type &      row_next() { return _base::_node_next; }
   inline const iparray_type &row_next() const { return _base::_node_next; }
   inline iarray_type &       row_counts() { return _base::_node_counts; }
-- 
2.43.0

