From 35cb01e1f9f89dc1dc90f64af2b76ee14c7e4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 01/24] fix: COO to CSR/CSC conversion handles empty rows and
 columns and non-square shapes

---
 .../include/sparsexx/matrix_types/conversions.hpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..c61768c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -78,11 +78,14 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
   rowptr_.at(0) = other.indexing();
   auto cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
+    while(rowind_coo[i] != (cur_row + indexing_)) {
       cur_row++;
       rowptr_.at(cur_row) = i + indexing_;
     }
-  rowptr_.at(m_) = nnz_ + indexing_;
+  while(cur_row < m_) {
+    cur_row++;
+    rowptr_.at(cur_row) = nnz_ + indexing_;
+  }
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
@@ -105,11 +108,14 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
   colptr_.at(0) = other.indexing();
   auto cur_col = 0;
   for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
+    while(colind_coo[i] != (cur_col + indexing_)) {
       cur_col++;
       colptr_.at(cur_col) = i + indexing_;
     }
-  colptr_.at(m_) = nnz_ + indexing_;
+  while(cur_col < n_) {
+    cur_col++;
+    colptr_.at(cur_col) = nnz_ + indexing_;
+  }
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From e53e9cdc8c04136d38be9b44fb73bc4d47f3f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 02/24] fix: dense expansion of a COO matrix honours its index
 base

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From 0004a26831d5550c002cc3e1374c431bdbe4e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 03/24] fix: generic COO block product honours the index base

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From bb3dc90b3d4d13b062f16168d3e3baa94f0aafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 04/24] fix: expand_from_triangle records the stored entry
 count when diagonal entries are missing

---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..ee09ba1 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,8 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t new_nnz = nnz_;
+  for(size_t i = 0; i < nnz_; ++i) new_nnz += rowind_[i] != colind_[i];
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From 89ce4a973fa3eb5cba3c4b948c9db0667a1d98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/24] fix: copying a distributed sparse matrix keeps its row
 distribution

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..33d671c 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -84,7 +84,8 @@ class dist_sparse_matrix {
   }
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
-      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+      : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_,
+                           other.dist_row_extents_) {
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 6bc2ca6aeb81277d5b38f48489a97fa03e2c6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 06/24] fix: fast_to_ulong returns the full low word of 64- and
 128-bit bitsets

---
 include/macis/bitset_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index e0f5ec2..b1a7931 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -76,8 +76,9 @@ unsigned long long fast_to_ullong(const std::bitset<N>& bits) {
 template <size_t N>
 unsigned long fast_to_ulong(const std::bitset<N>& bits) {
   // Low words
-  if constexpr(N == 32 or N == 64 or N == 128)
-    return *reinterpret_cast<const uint32_t*>(&bits);
+  if constexpr(N == 64 or N == 128)
+    return *reinterpret_cast<const uint64_t*>(&bits);
+  if constexpr(N == 32) return *reinterpret_cast<const uint32_t*>(&bits);
   return bits.to_ulong();
 }
 
-- 
2.43.0


From d4e976b334feae94f3f0a20e5e85387f122cc53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 07/24] fix: to_uint128 handles bitset widths between 65 and
 127

---
 include/macis/bitset_operations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index b1a7931..8a01173 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -89,6 +89,10 @@ uint128_t to_uint128(std::bitset<N> bits) {
   if constexpr(N == 128) {
     auto _x = reinterpret_cast<uint128_t*>(&bits);
     return *_x;
+  } else if constexpr(N > 64) {
+    const std::bitset<N> lo_mask(UINT64_MAX);
+    return (uint128_t((bits >> 64).to_ullong()) << 64) |
+           (bits & lo_mask).to_ullong();
   } else {
     return fast_to_ullong(bits);
   }
-- 
2.43.0


From ed943e0eef87ff397362fd5ef6c9bf01b51b3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 08/24] fix: four_index_transform honours the leading
 dimensions of X and Y

The input was read as if only its first index were padded and the output was
always written packed, although the interface takes LDX and LDY.
---
 src/macis/transform.cxx | 55 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..66d868d 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -60,23 +60,29 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
       std::max(norb_new * norb_old3, norb_old * norb_new3)),
       tmp2(norb_new2 * norb_old2);
 
-  // 1st Quarter
-  // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
-  // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
-
-  // 2nd Quarter
-  // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
-  // TMP2_kl(p,q)  = TMP1_kl(p,j) * C(j,q)
-  for(size_t kl = 0; kl < norb_old2; ++kl) {
-    auto TMP1_kl = tmp1.data() + kl * norb_old * norb_new;
-    auto TMP2_kl = tmp2.data() + kl * norb_new2;
-    blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-               norb_new, norb_new, norb_old, 1.0, TMP1_kl, norb_new, C, LDC,
-               0.0, TMP2_kl, norb_new);
-  }
+  const size_t LDX2 = LDX * LDX;
+  const size_t LDX3 = LDX2 * LDX;
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      const size_t kl = k + l * norb_old;
+      auto X_kl = X + k * LDX2 + l * LDX3;
+      auto TMP1_kl = tmp1.data() + kl * norb_old * norb_new;
+      auto TMP2_kl = tmp2.data() + kl * norb_new2;
+
+      // 1st Quarter
+      // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
+      // TMP1_kl(p,j)  = C(i,p) * X_kl(i,j)
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+
+      // 2nd Quarter
+      // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
+      // TMP2_kl(p,q)  = TMP1_kl(p,j) * C(j,q)
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_kl, norb_new, C, LDC,
+                 0.0, TMP2_kl, norb_new);
+    }
 
   // 3rd Quarter
   // TMP1(p,q,r,l) = C(k,r) * TMP2(p,q,k,l)
@@ -91,10 +97,17 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
 
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
-  // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  // Y_qr(p,s)  = TMP1_qr(p,l) * C(l,s)
+  const size_t LDY2 = LDY * LDY;
+  const size_t LDY3 = LDY2 * LDY;
+  for(size_t r = 0; r < norb_new; ++r)
+    for(size_t q = 0; q < norb_new; ++q) {
+      auto TMP1_qr = tmp1.data() + q * norb_new + r * norb_new2;
+      auto Y_qr = Y + q * LDY + r * LDY2;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_qr, norb_new3, C, LDC,
+                 0.0, Y_qr, LDY3);
+    }
 
 #else
 
-- 
2.43.0


From f1c295ff69088d9fe6df86728193533c3b0bf27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 09/24] fix: one_index_transformed_hamiltonian reads T with its
 own leading dimension

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From 7128fb42b5601d7fa16a687373760c57216aea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 10/24] fix: the printed MP2 energy reads V with its own
 leading dimension

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..ffcec54 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From de288cb80b4ce3b2b3c1d69a62ff354c3f7cd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 11/24] fix: double excitations leave the one-particle density
 matrix alone when no two-particle matrix is requested

---
 include/macis/util/rdms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..aa1e2e3 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,16 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
-  const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  // Double excitations only contribute to the TRDM
+  if((ex_alpha_count + ex_beta_count) == 4 and !trdm.data_handle()) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From 6dbd8361e7709f2281b274222444ab4c5b42d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 12/24] fix: bitset_to_occ_vir accepts a determinant without
 virtual orbitals

---
 include/macis/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/sd_operations.hpp b/include/macis/sd_operations.hpp
index c04267f..06631c6 100644
--- a/include/macis/sd_operations.hpp
+++ b/include/macis/sd_operations.hpp
@@ -83,7 +83,7 @@ void bitset_to_occ_vir(size_t norb, std::bitset<N> state,
                        std::vector<uint32_t>& occ, std::vector<uint32_t>& vir) {
   occ = bits_to_indices(state);
   const auto nocc = occ.size();
-  assert(nocc < norb);
+  assert(nocc <= norb);
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From def01f5e2b628b379521d108f6f4b8a33126b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 13/24] fix: build the mask below a search constraint for
 orbitals beyond the 64th (make_triplet/make_quad threw std::overflow_error)

---
 include/macis/asci/mask_constraints.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..f9a5624 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -27,9 +27,7 @@ auto make_triplet(unsigned i, unsigned j, unsigned k) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k);
-  con.B = 1;
-  con.B <<= k;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(k);
   con.C_min = k;
 
   return con;
@@ -41,9 +39,7 @@ auto make_quad(unsigned i, unsigned j, unsigned k, unsigned l) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k).flip(l);
-  con.B = 1;
-  con.B <<= l;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(l);
   con.C_min = l;
 
   return con;
-- 
2.43.0


From 95af7004f0b4d65b9304a8873624ba7c5f5b41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 14/24] fix: generate_constraint_singles left the caller's old
 list in place when a determinant has no single excitation under the
 constraint

---
 include/macis/asci/mask_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index f9a5624..ce47bc0 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -131,9 +131,9 @@ void generate_constraint_singles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
   auto [o, v] = generate_constraint_single_excitations(det, T, O_mask, B);
   const auto oc = o.count();
   const auto vc = v.count();
+  t_singles.clear();
   if(!oc or !vc) return;
 
-  t_singles.clear();
   t_singles.reserve(oc * vc);
   const auto occ = bits_to_indices(o);
   const auto vir = bits_to_indices(v);
-- 
2.43.0


From 99b9cbbda1ff074a09d793699f0d97f6702004a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:53 +0000
Subject: [PATCH 15/24] fix: do not break apart a search constraint that
 already holds every electron (its determinants were lost from the search)

---
 include/macis/asci/mask_constraints.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index ce47bc0..40ddf92 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -512,13 +512,19 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
 
   size_t local_average = (0.6 * total_work) / world_size;
 
+  // A constraint that already holds every electron has no next electron to be
+  // broken apart by
+  const size_t nelec = unique_alpha.empty() ? 0 : unique_alpha[0].count();
+
   for(size_t ilevel = 0; ilevel < nlevels; ++ilevel) {
     // Select constraints larger than average to be broken apart
     std::vector<std::pair<wfn_constraint<N>, size_t>> tps_to_next;
     {
       auto it = std::partition(
           constraint_sizes.begin(), constraint_sizes.end(),
-          [=](const auto& a) { return a.second <= local_average; });
+          [=](const auto& a) {
+            return a.second <= local_average or a.first.C.count() >= nelec;
+          });
 
       // Remove constraints from full list
       tps_to_next = decltype(tps_to_next)(it, constraint_sizes.end());
-- 
2.43.0


From e3eb5adf7d7939e954940d03b0840f84babe5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 16/24] fix: accumulate the exclusive scan in the element type
 (int overflow for 2^31 or more elements)

---
 include/macis/util/dist_quickselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/util/dist_quickselect.hpp b/include/macis/util/dist_quickselect.hpp
index 466f060..94aa629 100644
--- a/include/macis/util/dist_quickselect.hpp
+++ b/include/macis/util/dist_quickselect.hpp
@@ -40,7 +40,7 @@ Integral total_gather_and_exclusive_scan(Integral val,
   auto dtype = mpi_traits<Integral>::datatype();
   MPI_Allgather(&val, 1, dtype, gather.data(), 1, dtype, comm);
   Integral total = std::accumulate(gather.begin(), gather.end(), Integral(0));
-  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), 0);
+  std::exclusive_scan(gather.begin(), gather.end(), scan.begin(), Integral(0));
 
   return total;
 }
-- 
2.43.0


From 8ad6c72603d451255e507bd6071e4dd9922d942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:33 +0000
Subject: [PATCH 17/24] fix: accumulate message offsets of the distributed
 product in size_t

std::exclusive_scan accumulates in the type of the initial value: with an int,
offsets beyond 2^31-1 wrap when the counts to the processes add up to more.
---
 src/sparsexx/include/sparsexx/spblas/pspmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
index 811f4a6..544c04b 100644
--- a/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/pspmbv.hpp
@@ -157,9 +157,9 @@ auto generate_spmv_comm_info(const DistSpMatrixType& A) {
   // Compute offsets for send/recv indices in contiguous memory
   std::vector<size_t> recv_offsets(comm_size), send_offsets(comm_size);
   std::exclusive_scan(send_counts.begin(), send_counts.end(),
-                      send_offsets.begin(), 0);
+                      send_offsets.begin(), size_t(0));
   std::exclusive_scan(recv_counts.begin(), recv_counts.end(),
-                      recv_offsets.begin(), 0);
+                      recv_offsets.begin(), size_t(0));
 
   // Linearize the send/recv data structures
   size_t nrecv_indices =
-- 
2.43.0


From be14843a5d83899216f63966b94d02403b5f6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 18/24] fix: keep the constraint boundary valid when pruning
 search contributions

Pruning erased contributions of previous constraints while the boundary to
the current constraint stayed put, so that accumulating the current constraint
started past the end of the container (endless loop / out of bounds access) or
left duplicates of a determinant unaccumulated.
---
 include/macis/asci/determinant_search.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..27d111a 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -353,11 +353,15 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
-        auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
-              return std::abs(x.rv) > asci_settings.rv_prune_tol;
-            });
+        // Remove small contributions, those of previous constraints must remain
+        // ahead of those of the current constraint
+        auto is_small = [=](const auto& x) {
+          return !(std::abs(x.rv) > asci_settings.rv_prune_tol);
+        };
+        size_before -= std::count_if(
+            asci_pairs.begin(), asci_pairs.begin() + size_before, is_small);
+        auto it =
+            std::remove_if(asci_pairs.begin(), asci_pairs.end(), is_small);
         asci_pairs.erase(it, asci_pairs.end());
 
         auto c_indices = bits_to_indices(C);
-- 
2.43.0


From 788077a9b5d883e380e404bf5f7619766fea3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:46 +0000
Subject: [PATCH 19/24] fix: asci_grow returns the energy of the wavefunction
 it returns

After an orbital rotation the wavefunction is rediagonalised, but the energy of
that diagonalisation was dropped: E0, which is returned and which scores the
next search, was the energy before the rediagonalisation.
---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..cc5e5d7 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From c46fd82c9bd05cf860cdf22557615e46f8ef3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:46 +0000
Subject: [PATCH 20/24] fix: parallel asci_search with fewer pairs than
 requested

dist_quickselect was asked for more elements than the processes hold together
(or for none), which reads past the end of the scores.
---
 include/macis/asci/determinant_search.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 27d111a..af73d9f 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -575,10 +575,14 @@ std::vector<wfn_t<N>> asci_search(
       std::transform(asci_pairs.begin(), asci_pairs.end(), scores.begin(),
                      [](const auto& p) { return std::abs(p.rv); });
 
-      // Determine kth-ranked scores
-      auto kth_score =
-          dist_quickselect(scores.begin(), scores.end(), top_k_elements, comm,
-                           std::greater<double>{}, std::equal_to<double>{});
+      // Determine kth-ranked scores, there may be fewer pairs than requested
+      const size_t npairs = allreduce(asci_pairs.size(), MPI_SUM, comm);
+      const size_t n_keep = std::min(top_k_elements, npairs);
+      double kth_score = std::numeric_limits<double>::infinity();
+      if(n_keep)
+        kth_score =
+            dist_quickselect(scores.begin(), scores.end(), n_keep, comm,
+                             std::greater<double>{}, std::equal_to<double>{});
 
       // Partition local pairs into less / eq batches
       auto [g_begin, e_begin, l_begin, _end] = leg_partition(
-- 
2.43.0


From beb229f932eeeefcb675206991c4b7a7d6fcca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:46 +0000
Subject: [PATCH 21/24] fix: p_diagonal_guess finds the owner of the row

The last process takes the remaining rows, so min_idx / row_extent(0) is not
the owner when one of those is chosen, and row_extent(0) may be zero.
---
 include/macis/solvers/davidson.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..19b0076 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,9 +100,9 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
+  // Only the owner of the row sets the guess
+  if(min_idx >= row_starts[world_rank] and
+     min_idx < row_starts[world_rank + 1]) {
     X[min_idx - A.local_row_start()] = 1.;
   }
 }
-- 
2.43.0


From 66429fa19f88a25bf6560280221b55ca7ce1b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:46 +0000
Subject: [PATCH 22/24] fix: parallel_selected_ci_diag when a process has no
 rows

The largest coefficient was taken of an empty range. The processes also decided
independently whether to enter the collective guess; now they agree.
---
 include/macis/solvers/selected_ci_diag.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..4bf59a0 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -37,13 +37,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   // Extract Diagonal
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
-  // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // Setup guess (a process may have no rows, all processes must agree)
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.n())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From ff14dea9ac6391ec77b8410cbed7c537e748efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:37 +0000
Subject: [PATCH 23/24] fix: parallel asci_search drops only equivalent
 elements of the k-th score

With ties at the k-th score the gathered list was cut at its end, which removed
higher scoring determinants of later processes in favour of equivalent ones of
earlier processes.
---
 include/macis/asci/determinant_search.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index af73d9f..9a6f401 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -594,11 +594,19 @@ std::vector<wfn_t<N>> asci_search(
       size_t n_greater = std::distance(g_begin, e_begin);
       size_t n_equal = std::distance(e_begin, l_begin);
       size_t n_less = std::distance(l_begin, _end);
+
+      // Equivalent elements only fill up what the greater ones leave
+      std::vector<int> equal_sizes, equal_displ;
+      total_gather_and_exclusive_scan(int(n_equal), equal_sizes, equal_displ,
+                                      comm);
+      const size_t n_fill = n_keep - allreduce(n_greater, MPI_SUM, comm);
+      const size_t n_before = std::min<size_t>(n_fill, equal_displ[world_rank]);
+      n_equal = std::min(n_equal, n_fill - n_before);
       const int n_geq_local = n_greater + n_equal;
 
       // Strip bitsrings
       std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
+      std::transform(g_begin, g_begin + n_geq_local, keep_strings_local.begin(),
                      [](const auto& p) { return p.state; });
 
       // Gather global strings
@@ -612,12 +620,6 @@ std::vector<wfn_t<N>> asci_search(
                      keep_strings_global.data(), local_sizes.data(),
                      displ.data(), string_dtype, comm);
 
-      // Edge case where NGEQ > TOPK - erase equivalent elements
-      if(n_geq_global > top_k_elements) {
-        n_geq_global = top_k_elements;
-        keep_strings_global.resize(n_geq_global);
-      }
-
       // Make fake strings
       topk.resize(n_geq_global);
       std::transform(keep_strings_global.begin(), keep_strings_global.end(),
-- 
2.43.0


From 3699450c428ead73b83eabbd1dc9ea7370425911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:52 +0000
Subject: [PATCH 24/24] fix: let overloads be selected by matrix type
 (write_binary_triplet did not compile)

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0

