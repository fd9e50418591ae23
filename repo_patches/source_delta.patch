From 6cf95a4149f2202d75595ceeafbdaeb2b6094c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/45] fix: SR1_update divides by zero when the step is zero
 or the secant equation already holds

---
 src/solvers/sr1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..691500b 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -28,8 +28,8 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
 
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
-    // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    // safeguard (strict inequality: never divide by zero if the step or the residual is zero)
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 037db48b51aa4ad507117482308a8588b6a1c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 02/45] fix: poly_mul overwrites instead of accumulating
 coefficients and reads uninitialised bounds for zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..96d614a 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = 0, nnz_p2 = 0;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From 6daf19a0c6fe5fc7842549fba38709ae2a4368e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 03/45] fix: corner entries of the Legendre differentiation
 matrix have the sign of the descending node order

---
 src/polynomials/legendre.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..b6161f4 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -163,7 +163,7 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     basis_t Ln    = compute_basis();
 
     /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From ea1886331426f4cfa2b8ac7cc5726dd51830a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 04/45] fix: EquidistantCubicSpline reads past its table at and
 beyond the last point

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..d582938 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 2edcc74cab8c10d7f8788310a35d633d2fbd294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 05/45] fix: Chebyshev normalisation factor of the highest
 order doubles its projection coefficient

---
 src/polynomials/ebyshev.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..fa0383b 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -175,6 +175,7 @@ Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
     w[0] *= Scalar(0.5);
+    w[PolyOrder] *= Scalar(0.5); // the discrete norm of T_N on the Gauss-Lobatto grid is PI
     return w;
 }
 
-- 
2.43.0


From c2c1bdfe536afad1f56b52d18a841171719f58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 06/45] fix: Chebyshev evaluation returns NaN if rounding moves
 an end point outside of [-1,1]

---
 src/polynomials/ebyshev.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index fa0383b..b5093af 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -90,7 +90,11 @@ private:
     q_weights_t _NormFactors;
 
     /** Evaluate Chebyshev polynomial of order n*/
-    inline scalar_t Tn(const scalar_t &arg, const int &n){return std::cos(n * std::acos(arg));}
+    inline scalar_t Tn(const scalar_t &arg, const int &n)
+    {
+        /** clip the argument: rounding may move the end points slightly outside of [-1, 1] */
+        return std::cos(n * std::acos(std::max(scalar_t(-1), std::min(scalar_t(1), arg))));
+    }
 };
 
 /** @brief constructor */
-- 
2.43.0


From 5da5a24f2b7c72faaecc88fc14d3be3078a793a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 07/45] fix: boxADMM over-relaxation uses the overwritten
 iterate and skips the relaxation of the box splitting variable

---
 src/solvers/box_admm.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..b248016 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -126,8 +126,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
@@ -135,7 +134,8 @@ public:
             m_z = m_z.cwiseMax(Alb).cwiseMin(Aub); //box projection
 
             /** update q */
-            m_q.noalias() = this->m_x + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
+            const qp_var_t q_relaxed = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q;
+            m_q = q_relaxed + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
             m_q = m_q.cwiseMax(xlb).cwiseMin(xub); // box projection
 
             /** update y (dual) */
@@ -143,8 +143,7 @@ public:
                                                                              (1 - this->m_settings.alpha) * m_z_prev - m_z);
 
             /** update y_box (dual) */
-            //m_y_box.noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev - m_q);
-            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_x - m_q);
+            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(q_relaxed - m_q);
 
             if (this->m_settings.check_termination != 0 && iter % this->m_settings.check_termination == 0)
                 check_termination = true;
-- 
2.43.0


From 6c4ff48137d6919d9d71b95058405e50b0a93182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 08/45] fix: ADMM and boxADMM divide by zero with the
 documented adaptive_rho_interval = 0 (automatic)

---
 src/solvers/admm.hpp     | 6 +++++-
 src/solvers/box_admm.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..d3518f5 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -137,6 +137,10 @@ public:
 
         this->m_info.status = UNSOLVED;
 
+        /** adaptive_rho_interval = 0 (automatic): adapt whenever the termination is checked */
+        const int rho_interval = (this->m_settings.adaptive_rho_interval != 0) ? this->m_settings.adaptive_rho_interval :
+                                                                                 this->m_settings.check_termination;
+
         /** run ADMM iterations */
         for (iter = 1; iter <= this->m_settings.max_iter; iter++)
         {
@@ -177,7 +181,7 @@ public:
                 }
             }
 
-            if (this->m_settings.adaptive_rho && iter % this->m_settings.adaptive_rho_interval == 0)
+            if (this->m_settings.adaptive_rho && rho_interval != 0 && iter % rho_interval == 0)
             {
                 // state was not yet updated
                 if (!check_termination)
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index b248016..bec32cf 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -113,6 +113,10 @@ public:
 
         //std::cout << "KKT: \n" << m_K << "\n";
 
+        /** adaptive_rho_interval = 0 (automatic): adapt whenever the termination is checked */
+        const int rho_interval = (this->m_settings.adaptive_rho_interval != 0) ? this->m_settings.adaptive_rho_interval :
+                                                                                 this->m_settings.check_termination;
+
         /** run ADMM iterations */
         for (iter = 1; iter <= this->m_settings.max_iter; iter++)
         {
@@ -163,7 +167,7 @@ public:
                 }
             }
 
-            if (this->m_settings.adaptive_rho && iter % this->m_settings.adaptive_rho_interval == 0)
+            if (this->m_settings.adaptive_rho && rho_interval != 0 && iter % rho_interval == 0)
             {
                 // state was not yet updated
                 if (!check_termination)
-- 
2.43.0


From 9ea82bd43a6754b6704991da2e9da601a7394069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 09/45] fix: ADMM and boxADMM corrupt the KKT matrix when a
 sparsity pattern without diagonal Hessian entries or with both triangles is
 reused

---
 src/solvers/admm.hpp     | 20 ++++++++++++++++----
 src/solvers/box_admm.hpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index d3518f5..f1500a6 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -329,12 +329,24 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            {
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            }
+            else
+            {
+                // the diagonal entry of this column is not stored in H: the blocks are not contiguous in the KKT matrix
+                m_K.coeffRef(k, k) = scalar_t(0);
+                for(Eigen::Index j = H.outerIndexPtr()[k]; j < H.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]; ++j)
+                    m_K.coeffRef(H.innerIndexPtr()[j], k) = H.valuePtr()[j];
+                for(Eigen::Index j = A.outerIndexPtr()[k]; j < A.outerIndexPtr()[k] + A.innerNonZeroPtr()[k]; ++j)
+                    m_K.coeffRef(N + A.innerIndexPtr()[j], k) = A.valuePtr()[j];
+            }
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -361,7 +373,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index bec32cf..4588310 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -298,12 +298,24 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            {
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            }
+            else
+            {
+                // the diagonal entry of this column is not stored in H: the blocks are not contiguous in the KKT matrix
+                m_K.coeffRef(k, k) = scalar_t(0);
+                for(Eigen::Index j = H.outerIndexPtr()[k]; j < H.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]; ++j)
+                    m_K.coeffRef(H.innerIndexPtr()[j], k) = H.valuePtr()[j];
+                for(Eigen::Index j = A.outerIndexPtr()[k]; j < A.outerIndexPtr()[k] + A.innerNonZeroPtr()[k]; ++j)
+                    m_K.coeffRef(N + A.innerIndexPtr()[j], k) = A.valuePtr()[j];
+            }
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -331,7 +343,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 357c737f7c0e759ea3ea8bb2145fb96a774e5cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 10/45] fix: sparse Ruiz equilibration with empty columns and
 zero gradient

Empty columns contributed the lowest representable number to the scaling
norms and a zero gradient with zero Hessian produced an infinite cost
scaling (NaN in the scaled problem). Guard as the dense version does.
---
 src/solvers/qp_preconditioners.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..79f3a1b 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -223,7 +223,7 @@ public:
     template<typename Derived>
     typename Derived::Scalar maxxCoeff(const Eigen::SparseMatrixBase<Derived>& mat) const noexcept
     {
-        typename Derived::Scalar max_coeff = std::numeric_limits<typename Derived::Scalar>::lowest();
+        typename Derived::Scalar max_coeff = typename Derived::Scalar(0); // entries are absolute values, an empty column has zero norm
         Eigen::internal::evaluator<Derived> mat_eval(mat.derived());
         for(Eigen::Index j = 0; j < mat.outerSize(); ++j)
             for (typename Eigen::internal::evaluator<Derived>::InnerIterator iter(mat_eval,j); iter; ++iter)
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > std::numeric_limits<scalar_t>::epsilon() ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 6ea97078665b2275fc2e37d214143c6defea9453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 11/45] fix: derivative of floor(AutoDiffScalar) is zero, not
 the derivative of its argument

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From bb772ee43c30fcf6629614b268e84bdb352b8028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 12/45] fix: misspelled equalities_linearised in
 ProblemBase::lagrangian_gradient

The overload returning only the Lagrangian gradient could not be instantiated.
---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From d7f240a02331566aee5ae6be8e58b76208be1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 13/45] fix: OCP cost gradient adds stale terminal cost
 derivatives (or uninitialised memory) if there is no running cost

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..e74a5b0 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1217,7 +1217,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
     int t = 0;
     /** not generic for other collocation schemes : redo*/
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-    m_ad_cost.value() = 0;
+    m_ad_cost = ad_scalar_t(0);
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
-- 
2.43.0


From 3da8906f3c68ba9d548b56062346025c44b307a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 14/45] fix: repeated sparse path constraint Jacobian uses a
 buffer with NX instead of NG rows

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index e74a5b0..c2398c5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1099,7 +1099,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
     /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From c7bb4b17411d071143331ebfd29b5632966df484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 15/45] fix: terminal cost Hessian reads NX instead of NU
 controls and adds its parameter block to the wrong corner

---
 src/control/continuous_ocp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c2398c5..dc44c3c 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From c1169a7f8e53dffed4d69d6aa893616a6deb6371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 16/45] fix: first sparse cost Hessian takes the
 state-parameter and parameter-control blocks from wrong columns

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index dc44c3c..d7cdcb6 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1537,7 +1537,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1572,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 019a963652e920e4ea3fb6744e0a4f4f6dd7e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 17/45] fix: first sparse cost Hessian loses the
 control-parameter contribution of joint nodes

---
 src/control/continuous_ocp.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index d7cdcb6..6287d48 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1478,14 +1478,11 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                                    hes.col(j).data() + NX, cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[(k + shift) * NX + j] + NX,
                                    std::plus<scalar_t>());
                 }
-                /** dudp */
+                /** dudp: the state rows of the parameter columns are not complete yet, search for the entry */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 8f1402e3c8f5d356d78c048eb181360488052a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 18/45] fix: misspelled equalities_linearised in the short
 Lagrangian gradient and Hessian of ContinuousOCP

---
 src/control/continuous_ocp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 6287d48..66fccdb 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1939,10 +1939,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
 {
     nlp_eq_constraints_t c;
     nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_jacobian_t jac_c(static_cast<Eigen::Index>(NUM_EQ), static_cast<Eigen::Index>(VAR_SIZE));
+    nlp_ineq_jacobian_t jac_g(static_cast<Eigen::Index>(NUM_INEQ), static_cast<Eigen::Index>(VAR_SIZE));
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2022,10 +2022,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
 {
     nlp_eq_constraints_t c;
     nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_jacobian_t jac_c(static_cast<Eigen::Index>(NUM_EQ), static_cast<Eigen::Index>(VAR_SIZE));
+    nlp_ineq_jacobian_t jac_g(static_cast<Eigen::Index>(NUM_INEQ), static_cast<Eigen::Index>(VAR_SIZE));
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2065,7 +2065,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From 1e618f8554e42571a9a8b1ad79ca8d57e89c8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 19/45] fix: evaluation of a copied sparse ContinuousOCP
 dereferences a null pointer (copies of sparse matrices are compressed)

---
 src/control/continuous_ocp.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 66fccdb..91f69e3 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1167,12 +1167,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::constraints_linearised(const Ei
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jacobian.valuePtr() + jacobian.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerVector(k).nonZeros(), jacobian.valuePtr() + jacobian.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jacobian.valuePtr() + jacobian.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerVector(k).nonZeros(),
+                            jacobian.valuePtr() + jacobian.outerIndexPtr()[k] + m_Je.innerVector(k).nonZeros());
     }
 }
 
@@ -1998,12 +1998,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const Eigen
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerVector(k).nonZeros(), jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerVector(k).nonZeros(),
+                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerVector(k).nonZeros());
     }
 
     //_lagrangian += g.dot(lam.template head<NUM_EQ>());
@@ -2197,12 +2197,12 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         // copy Je and Ji blocks to jac_g
         if(NUM_EQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerNonZeroPtr()[k], jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
+                std::copy_n(m_Je.valuePtr() + m_Je.outerIndexPtr()[k], m_Je.innerVector(k).nonZeros(), jac_g.valuePtr() + jac_g.outerIndexPtr()[k]);
 
         if(NUM_INEQ > 0)
             for(Eigen::Index k = 0; k < VAR_SIZE; ++k)
-                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerNonZeroPtr()[k],
-                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerNonZeroPtr()[k]);
+                std::copy_n(m_Ji.valuePtr() + m_Ji.outerIndexPtr()[k], m_Ji.innerVector(k).nonZeros(),
+                            jac_g.valuePtr() + jac_g.outerIndexPtr()[k] + m_Je.innerVector(k).nonZeros());
     }
 
 
-- 
2.43.0


From dcd7ca6b784eb4f9e7dbdb9cd968fcda65265c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 20/45] fix: reported cost after an exhausted line search is
 not the cost of the returned point

---
 src/solvers/sqp_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index d1b5ff9..7abb8f4 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -415,6 +415,11 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
             alpha = tau * alpha;
     }
 
+    // line search is exhausted: log cost at the step that is taken
+    x_step.noalias() = alpha * p;
+    x_step += this->m_x;
+    this->problem.cost(x_step, this->m_p, m_cost);
+
     return alpha;
 }
 
-- 
2.43.0


From 860022ac1ca1f946f42b4ce46eed776f2e6d46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 21/45] fix: zero steps no longer corrupt the Hessian in the
 sparse block BFGS update

---
 src/control/continuous_ocp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 91f69e3..c32a877 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2314,6 +2314,11 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
+    // skip the update for (almost) zero steps, same criterion as in the dense BFGS update
+    const scalar_t sr = (sy >= 0.2 * scaling) ? sy : scalar_t(0.2) * scaling;
+    if(sr < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
     // create temporaries to store
     Eigen::Matrix<scalar_t, NX, NX> hes_xx;
     Eigen::Matrix<scalar_t, NU, NU> hes_uu;
-- 
2.43.0


From 76d009d96415e12bd561c1b3be2b69c9986c5b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 22/45] fix: MPC trajectory interpolation accounts for the
 start time of the horizon

---
 src/control/mpc_wrapper.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..ad2de8c 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -47,7 +47,9 @@ public:
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
 
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        // the interpolation basis is built in the time relative to the beginning of the horizon
+        const typename OCP::nodes_t rel_nodes = (time_nodes.array() - m_solver.get_problem().t_start).matrix();
+        polympc::LagrangeSpline::compute_lagrange_basis(rel_nodes, m_basis);
         sgm_length = (m_solver.get_problem().t_stop - m_solver.get_problem().t_start) / num_segms;
         nodes_per_segm = std::floor(num_nodes / num_segms);
     }
@@ -81,7 +83,8 @@ public:
         // update time grid and Lagrange interpolator
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        const typename OCP::nodes_t rel_nodes = (time_nodes.array() - t0).matrix();
+        polympc::LagrangeSpline::compute_lagrange_basis(rel_nodes, m_basis);
         sgm_length = (tf - t0) / num_segms;
     }
 
@@ -245,10 +248,11 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t t_rel = t - m_solver.get_problem().t_start; // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( t_rel / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
+        state_t state = polympc::LagrangeSpline::eval(t_rel - idx * sgm_length, x_reshaped.template block<nx,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
@@ -271,10 +275,11 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t t_rel = t - m_solver.get_problem().t_start; // time since the beginning of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( t_rel / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
+        control_t state = polympc::LagrangeSpline::eval(t_rel - idx * sgm_length, u_reshaped.template block<nu,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
-- 
2.43.0


From 6dcf3cde46fd3e6c65c6ea0db60afa4e47238825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 23/45] fix: collocation operators constructed from functors
 store and initialise them

---
 src/control/cost_collocation.hpp       | 6 +++++-
 src/control/ode_collocation.hpp        | 2 +-
 src/control/sparse_ode_collocation.hpp | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..5e5ac9b 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,11 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M) : m_Lagrange(L), m_Mayer(M), m_weights(m_basis_f.CCQWeights())
+    {
+        initialize_derivatives();
+        initialize_second_derivatives();
+    }
     ~cost_collocation(){}
 
 private:
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..87d2579 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f) : m_f(_f) { compute_diff_matrix(); initialize_derivatives(); }
     ode_collocation();
     ~ode_collocation(){}
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..728402c 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f) : m_f(_f) { compute_diff_matrix(); compute_inner_nnz(); initialize_derivatives(); }
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
-- 
2.43.0


From 33660af78eb89a49b5e2bce286dfd3e71ea70df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 24/45] fix: sparse collocated dynamics keep zero diagonal
 entries of the differentiation matrix in the pattern

---
 src/control/sparse_ode_collocation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 728402c..0bf19c6 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -119,6 +119,9 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_mat
             DM.template block<NUM_NODES - 1, NUM_NODES>(k, k) = D.template topLeftCorner<NUM_NODES - 1, NUM_NODES>();
 
         Eigen::SparseMatrix<Scalar> SpDM = DM.sparseView();
+        /** the Jacobian always has diagonal blocks: keep diagonal entries that are numerically zero in the pattern */
+        for(int k = 0; k < SpDM.cols(); ++k)
+            SpDM.coeffRef(k, k);
         m_DiffMat = Eigen::KroneckerProductSparse<Eigen::SparseMatrix<Scalar>, Eigen::SparseMatrix<Scalar>>(SpDM,E);
 
         m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
-- 
2.43.0


From ff79efc091d4ebb4163d19cb3f3472d2b12c34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 25/45] fix: pinv handles non-square matrices and scales its
 cut-off with the matrix

---
 src/control/lqr.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..e06af33 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -10,12 +10,13 @@
 Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
-    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeFullU | Eigen::ComputeFullV);
-    const double pinvtol = 1e-6;
+    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeThinU | Eigen::ComputeThinV);
     Eigen::VectorXd singular_values = svd.singularValues();
+    /** singular values at the rounding level of the largest one count as zero */
+    const double pinvtol = 1e-12 * singular_values(0);
     /** make a copy */
     Eigen::VectorXd singular_values_inv = singular_values;
-    for ( int i = 0; i < mat.cols(); ++i)
+    for ( int i = 0; i < singular_values.size(); ++i)
     {
         if ( singular_values(i) > pinvtol )
             singular_values_inv(i) = 1.0 / singular_values(i);
-- 
2.43.0


From 0c676671e006e001d2757c5e52d5d07c0909809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 26/45] fix: Lyapunov solver handles matrices with complex
 eigenvalues

---
 src/control/lqr.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index e06af33..4924862 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -30,27 +30,26 @@ Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
 {
     const Eigen::Index m = Q.cols();
-    /** compute Schur decomposition of A */
-    Eigen::RealSchur<Eigen::MatrixXd> schur(A);
-    Eigen::MatrixXd T = schur.matrixT();
-    Eigen::MatrixXd U = schur.matrixU();
+    /** compute Schur decomposition of A: the complex form is triangular also if A has complex eigenvalues */
+    Eigen::ComplexSchur<Eigen::MatrixXd> schur(A);
+    Eigen::MatrixXcd T = schur.matrixT();
+    Eigen::MatrixXcd U = schur.matrixU();
 
-    Eigen::MatrixXd Q1;
-    Q1.noalias() = (U.transpose() * Q) * U;
-    Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
-    Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
+    Eigen::MatrixXcd Q1;
+    Q1.noalias() = (U.adjoint() * Q) * U;
+    Eigen::MatrixXcd X = Eigen::MatrixXcd::Zero(m, m);
+    Eigen::MatrixXcd E = Eigen::MatrixXcd::Identity(m,m);
 
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
-    Eigen::VectorXd v;
+    X.col(m-1).noalias() = (T + std::conj(T(m-1,m-1)) * E).partialPivLu().solve(Q1.col(m-1));
+    Eigen::VectorXcd v;
 
     for(Eigen::Index i = m-2; i >= 0; --i)
     {
-        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).adjoint();
+        X.col(i) = (T + std::conj(T(i,i)) * E).partialPivLu().solve(v);
     }
 
-    X.noalias() = (U * X) * U.transpose();
-    return X;
+    return ((U * X) * U.adjoint()).real();
 }
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
-- 
2.43.0


From dbe50639a8eafda67ebdd4133010805bc73d4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 27/45] fix: cross weights in the Riccati equation of the
 regulator

---
 src/control/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4924862..db65621 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -212,9 +212,9 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
 
     /** formulate Ricatti equations */
     Eigen::MatrixXd invR = pinv(R);
-    Eigen::MatrixXd A = F - M * invR * (G).transpose();
+    Eigen::MatrixXd A = F - G * invR * M.transpose();
     Eigen::MatrixXd B = G * invR * (G).transpose();
-    Eigen::MatrixXd C = M * invR * M.transpose() + Q;
+    Eigen::MatrixXd C = Q - M * invR * M.transpose();
 
     //std::cout << "A: \n" << A << "\n";
     //std::cout << "B: \n" << B << "\n";
-- 
2.43.0


From e553be22797d0e25c575782bb1311b3f18e3da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 28/45] fix: care() solves the Riccati equation instead of
 returning the initial guess

---
 src/control/lqr.hpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index db65621..cb7cc30 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -54,6 +54,10 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
+    /** the step does not change the quadratic term: full Newton step */
+    if(c <= std::numeric_limits<double>::epsilon() * a)
+        return 1.0;
+
     Eigen::Matrix<double, 5, 1> poly;
     Eigen::Matrix<double, 4, 1> poly_derivative;
     poly_derivative << -2*a, 2*(a-2*b), 6*b, 4*c;
@@ -97,14 +101,12 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     //Eigen::EigenSolver<Eigen::MatrixXd> eig(A - B * X0);
     //std::cout << "INIT X0: \n" << eig.eigenvalues() << "\n";
     const double tol = 1e-5;
-    const int kmax   = 2;
+    const int kmax   = 100;
     Eigen::MatrixXd X = X0;
     double err = std::numeric_limits<double>::max();
     int k = 0;
     Eigen::MatrixXd RX, H, V;
 
-    std::cout << "C: " << C << "\n";
-
     /** temporary */
     double tk = 1;
 
@@ -115,9 +117,6 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
        /** newton update */
        H = lyapunov((A - B * X).transpose(), -RX);
 
-       std::cout << "A': " << (A - B * X).transpose() << "\n";
-       std::cout << "RX: " << RX << "\n";
-       std::cout << "H: " << H << "\n";
        /** exact line search */
        V.noalias() = H * B * H;
        double a = (RX * RX).trace();
@@ -128,7 +127,6 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
        err = RX.norm();
-       std::cout << "iter: " << k << " err: " << err << " step: " << tk << "\n";
        k++;
     }
 
@@ -158,11 +156,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     double b = -eig_r.minCoeff();
     b = std::fmax(b, 0.0) + 0.5;
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(n, n);
-    Eigen::MatrixXd Z = lyapunov(TA + 100 * E, 2 * TD * TD.transpose());
-
-    std::cout << "1 arg: \n" << TA + 100 * E << "\n";
-    std::cout << "2 arg: \n" << 2 * TD * TD.transpose();
-    std::cout << "Z: \n" << Z << "\n";
+    Eigen::MatrixXd Z = lyapunov(TA + b * E, 2 * TD * TD.transpose());
 
     Eigen::MatrixXd X = (TD.transpose() * pinv(Z)) * U.transpose();
 
@@ -177,12 +171,8 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
 Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
-    std::cout << "A: \n" << A << "\n";
-    std::cout << "B: \n" << B << "\n";
-
     Eigen::MatrixXd X0 = init_newton_care(A, B);
-    return X0;
-    //return newton_ls_care(A, B, C, X0);
+    return newton_ls_care(A, B, C, X0);
 }
 
 
-- 
2.43.0


From 4ee6abcd9d9054097de45f1682052e742ea86c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 29/45] fix: RBF kernel compiles with GCC and returns the exact
 second derivative

---
 src/autodiff/rbf_kernel.hpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/autodiff/rbf_kernel.hpp b/src/autodiff/rbf_kernel.hpp
index f238f98..1df6a06 100644
--- a/src/autodiff/rbf_kernel.hpp
+++ b/src/autodiff/rbf_kernel.hpp
@@ -32,31 +32,21 @@ struct rbf_kernel
     template<typename scalar_t>
     EIGEN_STRONG_INLINE scalar_t eval(Eigen::Ref<vector_t<scalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
     {
-        return exp(-(x - y.template cast<scalar_t>()).squaredNorm());
-    }
-
-    // provide partial specialisations
-    // double
-    template<>
-    EIGEN_STRONG_INLINE double eval<double>(Eigen::Ref<vector_t<double>> x, const Eigen::Ref<const real_vector_t>& y)
-    {
-        std::cout << " double \n";
-        return exp(-(x - y).squaredNorm());
+        return eval_impl(x, y, static_cast<scalar_t*>(nullptr));
     }
 
-    // float
-    template<>
-    EIGEN_STRONG_INLINE float eval<float>(Eigen::Ref<vector_t<float>> x, const Eigen::Ref<const real_vector_t>& y)
+private:
+    template<typename scalar_t>
+    EIGEN_STRONG_INLINE scalar_t eval_impl(Eigen::Ref<vector_t<scalar_t>> x, const Eigen::Ref<const real_vector_t>& y, scalar_t*)
     {
-        std::cout << " float \n";
-        return exp(-(x - y).squaredNorm());
+        using std::exp;
+        return exp(-(x - y.template cast<scalar_t>()).squaredNorm());
     }
 
+    // provide overloads for the derivatives with respect to x
     // autodiff
-    template<>
-    adscalar_t eval<adscalar_t>(Eigen::Ref<vector_t<adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
+    adscalar_t eval_impl(Eigen::Ref<vector_t<adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y, adscalar_t*)
     {
-        std::cout << " adscalar \n";
         real_vector_t xt;
         for (Eigen::Index i  = 0; i < Size; ++i)
             xt(i) = x(i).value();
@@ -66,17 +56,15 @@ struct rbf_kernel
     }
 
     // autodiff 2
-    template<>
-    outer_adscalar_t eval<outer_adscalar_t>(Eigen::Ref<vector_t<outer_adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
+    outer_adscalar_t eval_impl(Eigen::Ref<vector_t<outer_adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y, outer_adscalar_t*)
     {
-        std::cout << " adscalar2 \n";
         real_vector_t xt;
         for (Eigen::Index i  = 0; i < Size; ++i)
             xt(i) = x(i).value().value();
 
         Scalar val = exp(-(xt - y).squaredNorm());
         Eigen::Matrix<Scalar, Size, Size> hes;
-        hes.noalias() = val * (4 * (xt - y) * (xt - y).transpose() - Eigen::Matrix<Scalar, Size, Size>::Identity());
+        hes.noalias() = val * (4 * (xt - y) * (xt - y).transpose() - 2 * Eigen::Matrix<Scalar, Size, Size>::Identity());
 
         outer_adscalar_t result;
         // value
@@ -84,7 +72,10 @@ struct rbf_kernel
         result.value().derivatives().noalias() = -2 * val * (xt - y);
 
         for (Eigen::Index i  = 0; i < Size; ++i)
+        {
+            result.derivatives()(i).value() = result.value().derivatives()(i);
             result.derivatives()(i).derivatives() = hes.col(i);
+        }
 
         return result;
     }
-- 
2.43.0


From 249dbbbe2755d5e7bf4f4287730d66b05fb3b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 30/45] fix: a problem without a cost function leaves the cost
 and its derivatives uninitialised

---
 src/solvers/nlproblem.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..389fe01 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -174,7 +174,12 @@ public:
     // default empty implementation
     template<typename T>
     EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x,
-                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept {}
+                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept
+    {
+        polympc::ignore_unused_var(x);
+        polympc::ignore_unused_var(p);
+        cost = T(scalar_t(0)); // problem without a cost: value and derivatives are zero
+    }
 
     /** @brief
      *
-- 
2.43.0


From 4ed4096926f54fe8208c850b357ed74af4750a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 31/45] fix: poly_mul treats coefficients below the machine
 epsilon as zero

---
 src/polynomials/polynomial_math.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index 96d614a..3a5576d 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -49,15 +49,14 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     static_assert(p1_size == p2_size, "poly_mul: polynomials should be of the same order!");
 
     using Scalar = typename Derived::Scalar;
-    Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
     int nnz_p1 = 0, nnz_p2 = 0;
     for(int i = 0; i < p1_size; ++i)
     {
-        if(std::fabs(p1[i]) >= eps)
+        if(p1[i] != Scalar(0))
             nnz_p1 = i;
-        if(std::fabs(p2[i]) >= eps)
+        if(p2[i] != Scalar(0))
             nnz_p2 = i;
     }
 
-- 
2.43.0


From d1cb72adb43a272f75335337e3260726054fb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 32/45] fix: cubic spline evaluates the wrong segment far
 outside of its range

---
 src/polynomials/splines.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index d582938..20ffde7 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -59,28 +59,29 @@ public:
 
     // we need two different implementation for first and second derivatives
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value());}
 
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value().value());}
 
     template<typename scalar_t>
-    EIGEN_STRONG_INLINE int floor_(const scalar_t &x) const noexcept {return std::floor(x);}
+    EIGEN_STRONG_INLINE Scalar floor_(const scalar_t &x) const noexcept {return std::floor(x);}
 
     template<typename scalar_t>
     EIGEN_STRONG_INLINE scalar_t eval(const scalar_t &x) const noexcept
     {
         // compute the segment index
-        Eigen::Index idx = (Eigen::Index)floor_( x / static_cast<scalar_t>(m_length));
+        const Scalar segm = floor_( x / static_cast<scalar_t>(m_length));
 
 // due to some weird Windows redefinitions
 #if defined _WIN32  || defined _WIN64
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
+        // clip before the conversion: the segment number may not be representable as an integer far outside of the spline
+        const Eigen::Index idx = (Eigen::Index)std::max(Scalar(0), std::min(segm, Scalar(m_coeffs.cols() - 1)));
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From adb856b9522ed8969d307a3ff138daf0b0ff2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 33/45] fix: second derivative of tanh is NaN for large
 arguments

---
 src/autodiff/AutoDiffScalar.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 2077054..c6a79e8 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -669,9 +669,13 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(acos,
   return Eigen::MakeAutoDiffScalar(acos(x.value()),x.derivatives() * (Scalar(-1)/sqrt(1-numext::abs2(x.value()))));)
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(tanh,
+  using std::abs;
   using std::cosh;
+  using std::exp;
   using std::tanh;
-  return Eigen::MakeAutoDiffScalar(tanh(x.value()),x.derivatives() * (Scalar(1)/numext::abs2(cosh(x.value()))));)
+  // 1/cosh(x)^2 is 4*exp(-2|x|) to machine precision for large |x|, where squares of cosh(x) overflow
+  const Scalar sech2 = abs(x.value()) < Scalar(20) ? Scalar(Scalar(1)/numext::abs2(cosh(x.value()))) : Scalar(Scalar(4)*exp(Scalar(-2)*abs(x.value())));
+  return Eigen::MakeAutoDiffScalar(tanh(x.value()),x.derivatives() * sech2);)
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(sinh,
   using std::sinh;
-- 
2.43.0


From 8c9f86b9ddceef0d587636189206fc57ce4837a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 34/45] fix: derivative of pow with exponent zero is NaN at a
 zero base

---
 src/autodiff/AutoDiffScalar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index c6a79e8..4e40c66 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -632,7 +632,8 @@ pow(const Eigen::AutoDiffScalar<DerType> &x, const typename internal::traits<typ
 {
   using namespace Eigen;
   using std::pow;
-  return Eigen::MakeAutoDiffScalar(pow(x.value(),y), x.derivatives() * (y * pow(x.value(),y-1)));
+  typedef typename internal::traits<typename internal::remove_all<DerType>::type>::Scalar Scalar;
+  return Eigen::MakeAutoDiffScalar(pow(x.value(),y), x.derivatives() * (y == Scalar(0) ? Scalar(0) : Scalar(y * pow(x.value(),y-1))));
 }
 
 template<typename DerTypeA,typename DerTypeB>
-- 
2.43.0


From 119dd6b2b3f34f9eeb86fb1504bb08a46b93d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 35/45] fix: Ruiz equilibration of problems without general
 constraints

The maximum of the empty vector of row scalings fails an assertion.
---
 src/solvers/qp_preconditioners.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 79f3a1b..70fbc4e 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -176,13 +176,14 @@ public:
             gradient_t x = A.colwise().template lpNorm<Eigen::Infinity>();
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = m_D.maxCoeff();
+            if (M > 0) scaling_norm = std::max(scaling_norm, m_E.maxCoeff());
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if ((M > 0) && (m_E.minCoeff() < _approx_zero))
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
@@ -263,13 +264,14 @@ public:
 
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = m_D.maxCoeff();
+            if (M > 0) scaling_norm = std::max(scaling_norm, m_E.maxCoeff());
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if ((M > 0) && (m_E.minCoeff() < _approx_zero))
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
-- 
2.43.0


From 9e382712c3691ab0daa9efe9f4a5a519fe85e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 36/45] fix: accept semidefinite weights whose zero eigenvalues
 are computed as tiny negative numbers (lqr)

---
 src/control/lqr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index cb7cc30..b063da5 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -192,7 +192,8 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         QR.noalias() -= M * pinv(R) * M.transpose();
         Eigen::EigenSolver<Eigen::MatrixXd> solver(QR);
         Eigen::VectorXd values = solver.eigenvalues().real();
-        if( (values.array() < 0).any() )
+        // zero eigenvalues of semidefinite weights are computed up to rounding errors
+        if( (values.array() < -1e-12 * Q.norm()).any() )
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
             S = Eigen::MatrixXd();
-- 
2.43.0


From e12a16293276c57d623497830f65e9ce3a28348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 37/45] fix: lqr returns undefined matrices for rejected
 weights instead of resizing references

---
 src/control/lqr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index b063da5..5afd635 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -196,8 +196,10 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         if( (values.array() < -1e-12 * Q.norm()).any() )
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
-            S = Eigen::MatrixXd();
-            K = Eigen::MatrixXd();
+            // the outputs cannot be resized: mark them as undefined
+            S.setConstant(std::numeric_limits<double>::quiet_NaN());
+            K.setConstant(std::numeric_limits<double>::quiet_NaN());
+            return;
         }
     }
 
-- 
2.43.0


From 70ab6c1f304906d5f8800b44ae5310244fafda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 38/45] fix: IpoptInterface::get_problem returns the problem
 instead of the adapter (did not compile when used)

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..b8f8aac 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -432,8 +432,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From 3563f25a6cfd262b6ee50a7d18c74c93eec7bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 39/45] fix: Ipopt adapter stores the multipliers of the bounds
 instead of reading behind the array of constraint multipliers

---
 src/solvers/ipopt_interface.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b8f8aac..da20564 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -375,7 +375,9 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        // general constraints first, then the bounds (Ipopt keeps their lower and upper multipliers apart)
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+        m_lam.template tail<num_variables>()   = Eigen::Map<const nlp_variable_t>(z_U, num_variables, 1) - Eigen::Map<const nlp_variable_t>(z_L, num_variables, 1);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From 4a3a1d11066b8d7e88050d8af01a2c43a1a4b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 40/45] fix: Ipopt adapter copies the values of the sparse
 constraint Jacobian

---
 src/solvers/ipopt_interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index da20564..1709a61 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -10,6 +10,7 @@
 #ifndef IPOPT_INTERFACE_HPP
 #define IPOPT_INTERFACE_HPP
 
+#include <algorithm>
 #include <memory>
 #include <iostream>
 
@@ -106,7 +107,7 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+            std::copy_n(mat.derived().valuePtr(), mat.nonZeros(), data);
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From b9ab0e6e572650ff1beae5f04001c6b5b89128f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 41/45] fix: Ipopt adapter does not read box multipliers behind
 the array of constraint multipliers (eval_h)

---
 src/solvers/ipopt_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 1709a61..2087be9 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -360,8 +360,10 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
-            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+            // Ipopt passes the multipliers of the general constraints only
+            nlp_dual_t lam = nlp_dual_t::Zero();
+            lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p, lam, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
-- 
2.43.0


From 8e3a6ec0b4f1708148e58d36d10a8806d602e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 42/45] fix: OSQP interface reported the dual residual as the
 primal one

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..528ff4a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From 7e30c0357dfff1b7c2c9c72849e3153868334166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 43/45] fix: OSQP interface sets up the solver when the first
 solve is warm-started

---
 src/solvers/osqp_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 528ff4a..013371a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -57,7 +57,7 @@ public:
         x_lower_bound. template head<M>() = Alb;
         x_lower_bound. template tail<N>() = xlb;
 
-        if(this->m_settings.warm_start)
+        if(this->m_settings.warm_start && osqp_solver.isInitialized())
         {
             osqp_solver.updateHessianMatrix(H);
             osqp_solver.updateGradient(h);
@@ -117,7 +117,7 @@ public:
         x_lower_bound. template tail<N>() = xlb;
 
         //Eigen::VectorXd h_ = h; // hack start an issue on github
-        if(this->m_settings.warm_start)
+        if(this->m_settings.warm_start && osqp_solver.isInitialized())
         {
             osqp_solver.updateHessianMatrix(H);
             osqp_solver.updateGradient(h);
-- 
2.43.0


From 432936f4b2fef8dff6a70c9b09960c460f2d7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 44/45] fix: OSQP interface solved the first problem again on
 every later solve that was not warm-started

---
 src/solvers/osqp_interface.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 013371a..d08c283 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -68,6 +68,7 @@ public:
         }
         else
         {
+            reset_solver();
             m_h = h;
 
             osqp_solver.data()->setHessianMatrix(H);
@@ -130,6 +131,7 @@ public:
         }
         else
         {
+            reset_solver();
             m_h = h;
 
             osqp_solver.data()->setHessianMatrix(H);
@@ -174,6 +176,17 @@ private:
     typename dense_matrix_type_selector<scalar_t, N + M, 1>::type x_lower_bound, x_upper_bound;
     typename dense_matrix_type_selector<scalar_t, N, 1>::type m_h;
 
+    /** release the previous problem: OsqpEigen refuses to set matrices or to initialise the solver twice */
+    void reset_solver() noexcept
+    {
+        if(osqp_solver.isInitialized())
+        {
+            osqp_solver.clearSolver();
+            osqp_solver.data()->clearHessianMatrix();
+            osqp_solver.data()->clearLinearConstraintsMatrix();
+        }
+    }
+
     /** construct the Jacobian matrix accepted by OSQP */
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
-- 
2.43.0


From b6c051bc417a88c7cfbc28d90aa755f6d0622c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 45/45] fix: ADMM and boxADMM reported diverged iterates (inf
 residual <= inf tolerance) as SOLVED

---
 src/solvers/admm.hpp     | 5 +++++
 src/solvers/box_admm.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index f1500a6..ce086b2 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -494,6 +494,11 @@ public:
 
     EIGEN_STRONG_INLINE bool termination_criteria() const noexcept
     {
+        // diverged iterates are no solution: when they overflow, the residuals and the tolerances are infinite alike
+        if (!this->m_x.allFinite() || !this->m_y.allFinite() ||
+            !std::isfinite(this->m_info.res_prim) || !std::isfinite(this->m_info.res_dual))
+            return false;
+
         // check residual norms to detect optimality
         return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual()) ? true : false;
     }
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 4588310..d43acd9 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -441,6 +441,11 @@ public:
 
     EIGEN_STRONG_INLINE bool termination_criteria() const noexcept
     {
+        // diverged iterates are no solution: when they overflow, the residuals and the tolerances are infinite alike
+        if (!this->m_x.allFinite() || !this->m_y.allFinite() ||
+            !std::isfinite(this->m_info.res_prim) || !std::isfinite(this->m_info.res_dual))
+            return false;
+
         // check residual norms to detect optimality
         return (this->m_info.res_prim <= eps_prim() && this->m_info.res_dual <= eps_dual()) ? true : false;
     }
-- 
2.43.0

