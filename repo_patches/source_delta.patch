From f103ecf8ebfa0beaa84ed7bb4f7b39f1f30cf9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:54 +0000
Subject: [PATCH 01/18] fix: gaussian-spline dxdelta lacks a factor x for x <=
 0

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..442a0ef 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
-- 
2.43.0


From 78ec83893048b756723d4a86ffedbf3466941011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:54 +0000
Subject: [PATCH 02/18] fix: Methfessel-Paxton dxdelta lacks a factor x

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 442a0ef..fe48dc0 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From 3a4889d760fb1a25b4714d600d3665191024379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:54 +0000
Subject: [PATCH 03/18] fix: gaussian-spline entropy ignores the maximal
 occupancy mo

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index fe48dc0..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From ea0db610f6f96c72e834e47c3d238f49f5465e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:45 +0000
Subject: [PATCH 04/18] fix: MPI datatype of std::pair ignores padding before
 the second member

---
 src/mpi/mpi_type.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..ef10db6 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <mpi.h>
+#include <cstddef>
 #include <utility>
 #include <complex>
 #include <Kokkos_Core.hpp>
@@ -82,11 +83,14 @@ struct mpi_type<int>
 template <class T1, class T2>
 struct mpi_type<std::pair<T1, T2>>
 {
+  using pair_t = std::pair<T1, T2>;
+
   static MPI_Datatype type()
   {
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    // the second member may be preceded by padding
+    MPI_Aint array_of_displacements[2] = {0, offsetof(pair_t, second)};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
-- 
2.43.0


From d9416c2458eccdd60139bd2d74f5ebb55ee6080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:47 +0000
Subject: [PATCH 05/18] fix: op_iterator reads past the last key and
 dereferences an empty key list

---
 src/operator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..80d441c 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -19,7 +19,7 @@ public:
       : keys(keys)
       , obj(obj)
   {
-    if (end) {
+    if (end || keys.empty()) {
       pos = keys.size();
     } else {
       key_t k = keys[0];
@@ -30,7 +30,9 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size())) {
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    }
     return *this;
   }
 
-- 
2.43.0


From a8c889d09cfe077dd1709c0f6a840eec4e691f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:47 +0000
Subject: [PATCH 06/18] fix: mvector assignment from a map lacks a return
 statement

---
 src/la/mvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..cedeb87 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -98,6 +98,7 @@ public :
   mvector& operator=(std::map<key_t, T>&& data)
   {
     data_ = std::forward<std::map<key_t, T>>(data);
+    return *this;
   }
 
   template<typename Z>
-- 
2.43.0


From e30da958dc756bb331a091ee3e2d1921f2cbbb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 07/18] fix: make_mmvector ignores the stride and unknown
 memory types of host vectors

---
 src/la/mvector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index cedeb87..816b5b5 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -399,12 +399,16 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
-      Kokkos::deep_copy(dst, src);
+      auto dst_host = Kokkos::create_mirror_view(dst);
+      Kokkos::deep_copy(dst_host, src);
+      Kokkos::deep_copy(dst, dst_host);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
+    } else {
+      throw std::runtime_error("expected host or device memory");
     }
   }
   return mvector;
-- 
2.43.0


From beadd634af4d77b66f504edcf16ca0cba09bce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 08/18] fix: outer product uses the dimensions of the inner
 product

---
 src/la/lapack_cpu.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..49918fb 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -155,7 +155,7 @@ inner(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
   }
 }
 
-///  Inner product: c = a^H * b, on CPU
+///  Outer product: c = a * b^H, on CPU
 template <class T0,
           class LAYOUT0,
           class... KOKKOS0,
@@ -190,9 +190,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
@@ -204,7 +204,7 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
     int ldb = B.array().stride(1);
     int ldc = C.array().stride(1);
 
-    // single rank inner product
+    // single rank outer product
     cblas::gemm<numeric_t>::call(CblasColMajor,
                                  CblasNoTrans,
                                  cblas::gemm<numeric_t>::H,
-- 
2.43.0


From 18b38ede266ef1ed3ce371312bdc507fe815044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 09/18] fix: geam reads B when it is scaled by zero

---
 src/la/cblas.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la/cblas.hpp b/src/la/cblas.hpp
index d62b714..5ff451b 100644
--- a/src/la/cblas.hpp
+++ b/src/la/cblas.hpp
@@ -382,7 +382,10 @@ struct geam<Kokkos::complex<double>> : blas_base
 #pragma omp parallel for
       for (int j = 0; j < N; ++j) {
         for (int i = 0; i < M; ++i) {
-          cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + beta_ * cB[i + ldb * j];
+          if (beta_ == 0.0)
+            cC[i + ldc * j] = alpha_ * (cA[i + lda * j]);
+          else
+            cC[i + ldc * j] = alpha_ * (cA[i + lda * j]) + beta_ * cB[i + ldb * j];
         }
       }
     } else {
-- 
2.43.0


From 2094d5946d20c5cc6e621146d084076734e700eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:52 +0000
Subject: [PATCH 10/18] fix: transform_alloc allocates a result with the shape
 of its first operand

---
 src/la/lapack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..2eed8f5 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -434,7 +434,8 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, A.map().nrows(), B.map().ncols()}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From bb81ee748eea2f7522f6d2bdfe683990eceb1e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 11/18] fix: solve_sym ignores the status of the Cholesky
 routines

---
 src/la/lapack_cpu.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index 49918fb..5c165bf 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,13 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    int info = potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (info != 0) throw std::runtime_error("cblas zpotrf failed");
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    info = potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (info != 0) throw std::runtime_error("cblas zpotrs failed");
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 0bb31e0c7c3e731609cc7f5c3aeb6682974f0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 12/18] fix: Smearing accepts negative temperatures

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index bb27099..645b516 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From cd82ff4a233975b57e6fa7406201bc812bda9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:31 +0000
Subject: [PATCH 13/18] fix: Newton search accepts a NaN charge difference

---
 src/dft/newton_minimization_smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dft/newton_minimization_smearing.hpp b/src/dft/newton_minimization_smearing.hpp
index 583cf29..1d8e538 100644
--- a/src/dft/newton_minimization_smearing.hpp
+++ b/src/dft/newton_minimization_smearing.hpp
@@ -55,7 +55,7 @@ newton_minimization_chemical_potential(
 
     if (std::abs(step) < tol || std::abs(Nf - ne) < tol) {
       double charge_diff = N(mu) - ne;
-      if (std::abs(charge_diff) > tol_ne) {
+      if (!(std::abs(charge_diff) <= tol_ne)) {
         Logger::GetInstance() << "*Warning* Newton got stuck in a flat region, iteration: " << iter
                               << ", dx: " << step << ", error: " << charge_diff << "\n";
         throw failed_to_converge();
-- 
2.43.0


From 65b30b3adcf99465a0e4b45427755ff80a17facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:26 +0000
Subject: [PATCH 14/18] fix: quadratic line search accepts a NaN free energy

---
 src/linesearch/linesearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..40c5d5b 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -139,7 +139,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From f2ef8e143ad1befa70688fb0c5c1daec72b9ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 15/18] fix: pseudo-Hamiltonian gradient evaluates delta at the
 mirrored argument

The occupations are f((mu - e)/kT), so their derivatives need delta((mu - e)/kT);
delta((e - mu)/kT) differs for cold smearing, whose delta is not even.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From ec3e98962dd9c5c2b553ac0d0adc2a05b34276a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 16/18] fix: pseudo-Hamiltonian gradient drops the coupling of
 degenerate bands

For equal energies the difference quotient of the occupations becomes their
derivative; leaving the entry at zero made the gradient (and the slope) wrong.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..6450c9f 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // degenerate pair: limit of the difference quotient, df/de
+              double II = -smearing<smearing_t>::delta((mu - ei) / kT_loc, mo) / kT_loc;
+              mgETA(i, j) += II * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From 5b9a1f5baaff34aca743a66e78e83ea65bf26cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 17/18] fix: report the slope as the residual, without the -1
 placeholder

---
 src/nlcglib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..b7a2c6d 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -311,7 +311,7 @@ nlcg_us(EnergyBase& energy_base,
                         free_energy.ks_energy(),
                         free_energy.get_entropy(),
                         slope,
-                        -1,
+                        0,
                         free_energy.get_chemical_potential(),
                         cg_iter);
       cg_write_step_json(free_energy.get_F(),
@@ -372,7 +372,7 @@ nlcg_us(EnergyBase& energy_base,
                         free_energy.ks_energy(),
                         free_energy.get_entropy(),
                         slope /* slope in X and eta, temporarily */,
-                        -1 /* need to separate the two slopes first */,
+                        0 /* need to separate the two slopes first */,
                         free_energy.get_chemical_potential(),
                         cg_iter);
       free_energy.ehandle().print_info();  // print magnetization
-- 
2.43.0


From 451b51f6541f987c7b0bd80ca97da8882be7d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:35 +0000
Subject: [PATCH 18/18] fix: keep the communicator in eval_threaded so l2norm
 and innerh_reduce run over all ranks

---
 src/la/mvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index 816b5b5..9606254 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -432,7 +432,7 @@ template <typename T>
 auto
 eval_threaded(const mvector<T>& input)
 {
-  mvector<std::remove_reference_t<decltype(eval(std::declval<T>()))>> result;
+  mvector<std::remove_reference_t<decltype(eval(std::declval<T>()))>> result(input.commk());
   for (auto& elem : input) {
     auto key = elem.first;
     result[key] = eval(elem.second);
-- 
2.43.0

