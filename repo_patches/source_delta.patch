From 5c773f092a413776911bd7a84eb15af5500c6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 01/69] fix: accept fully occupied strings in bitset_to_occ_vir

---
 include/macis/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/sd_operations.hpp b/include/macis/sd_operations.hpp
index c04267f..06631c6 100644
--- a/include/macis/sd_operations.hpp
+++ b/include/macis/sd_operations.hpp
@@ -83,7 +83,7 @@ void bitset_to_occ_vir(size_t norb, std::bitset<N> state,
                        std::vector<uint32_t>& occ, std::vector<uint32_t>& vir) {
   occ = bits_to_indices(state);
   const auto nocc = occ.size();
-  assert(nocc < norb);
+  assert(nocc <= norb);
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From 2fdda8174ae0d9846fdeff2256860f3224aaaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 02/69] fix: do not truncate fast_to_ulong to 32 bits for
 64/128-bit bitsets

---
 include/macis/bitset_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/macis/bitset_operations.hpp b/include/macis/bitset_operations.hpp
index e0f5ec2..b1a7931 100644
--- a/include/macis/bitset_operations.hpp
+++ b/include/macis/bitset_operations.hpp
@@ -76,8 +76,9 @@ unsigned long long fast_to_ullong(const std::bitset<N>& bits) {
 template <size_t N>
 unsigned long fast_to_ulong(const std::bitset<N>& bits) {
   // Low words
-  if constexpr(N == 32 or N == 64 or N == 128)
-    return *reinterpret_cast<const uint32_t*>(&bits);
+  if constexpr(N == 64 or N == 128)
+    return *reinterpret_cast<const uint64_t*>(&bits);
+  if constexpr(N == 32) return *reinterpret_cast<const uint32_t*>(&bits);
   return bits.to_ulong();
 }
 
-- 
2.43.0


From ccd4c86246febddc4e1a1dfa27d289ef64b7ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 03/69] fix: double excitations do not contribute to a
 1-RDM-only accumulation

---
 include/macis/util/rdms.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/macis/util/rdms.hpp b/include/macis/util/rdms.hpp
index 72b55bb..ac855b9 100644
--- a/include/macis/util/rdms.hpp
+++ b/include/macis/util/rdms.hpp
@@ -108,14 +108,16 @@ inline void rdm_contributions(wfn_t<N> bra_alpha, wfn_t<N> ket_alpha,
 
   if((ex_alpha_count + ex_beta_count) > 4) return;
 
-  const auto trdm_ptr = trdm.data_handle();
-  if(ex_alpha_count == 4 and trdm_ptr)
+  // Double excitations only contribute to the 2-RDM
+  if((ex_alpha_count + ex_beta_count) == 4 and !trdm.data_handle()) return;
+
+  if(ex_alpha_count == 4)
     rdm_contributions_4(bra_alpha, ket_alpha, ex_alpha, val, trdm);
 
-  else if(ex_beta_count == 4 and trdm_ptr)
+  else if(ex_beta_count == 4)
     rdm_contributions_4(bra_beta, ket_beta, ex_beta, val, trdm);
 
-  else if(ex_alpha_count == 2 and ex_beta_count == 2 and trdm_ptr)
+  else if(ex_alpha_count == 2 and ex_beta_count == 2)
     rdm_contributions_22(bra_alpha, ket_alpha, ex_alpha, bra_beta, ket_beta,
                          ex_beta, val, trdm);
 
-- 
2.43.0


From cc3e53a727e3fb20e237565494c7561bfde16198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/69] fix: assign the distributed diagonal guess to the rank
 owning the minimum

---
 include/macis/solvers/davidson.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 6375677..7a0d2f6 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -100,10 +100,10 @@ void p_diagonal_guess(size_t N_local, const SpMatType& A, double* X) {
   // Zero out guess
   for(size_t i = 0; i < N_local; ++i) X[i] = 0.;
 
-  // Get owner rank
-  int owner_rank = min_idx / remote_counts[0];
-  if(world_rank == owner_rank) {
-    X[min_idx - A.local_row_start()] = 1.;
+  // Set guess on the rank which owns the minimum
+  if(min_idx >= row_starts[world_rank] and
+     min_idx < row_starts[world_rank + 1]) {
+    X[min_idx - row_starts[world_rank]] = 1.;
   }
 }
 #endif
-- 
2.43.0


From 4f468a5c5c15d59cb82579eecc96a1a252c81df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 05/69] fix: decide on the initial CI guess collectively

---
 include/macis/solvers/selected_ci_diag.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/macis/solvers/selected_ci_diag.hpp b/include/macis/solvers/selected_ci_diag.hpp
index 0a1e293..4a832ab 100644
--- a/include/macis/solvers/selected_ci_diag.hpp
+++ b/include/macis/solvers/selected_ci_diag.hpp
@@ -37,13 +37,12 @@ double parallel_selected_ci_diag(const SpMatType& H, size_t davidson_max_m,
   // Extract Diagonal
   auto D_local = extract_diagonal_elements(H.diagonal_tile());
 
-  // Setup guess
-  auto max_c = *std::max_element(
-      C_local.begin(), C_local.end(),
-      [](auto a, auto b) { return std::abs(a) < std::abs(b); });
-  max_c = std::abs(max_c);
+  // Setup guess (the choice must agree on all ranks)
+  double max_c = 0.;
+  for(auto c : C_local) max_c = std::max(max_c, std::abs(c));
+  max_c = allreduce(max_c, MPI_MAX, comm);
 
-  if(max_c > (1. / C_local.size())) {
+  if(max_c > (1. / H.m())) {
     logger->info("  * Will use passed vector as guess");
   } else {
     logger->info("  * Will generate identity guess");
-- 
2.43.0


From 8a77b37624b4a78db2353f0731db3dbb61310367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 06/69] fix: accept a Davidson guess which already is an
 eigenvector

---
 include/macis/solvers/davidson.hpp | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 7a0d2f6..63acef3 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -152,6 +152,19 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
   // Compute Initial A*V
   op.operator_action(1, 1., V.data(), N, 0., AV.data(), N);
 
+  // A guess which already is an eigenvector cannot be expanded
+  {
+    const auto nrm2 = blas::dot(N, V.data(), 1, V.data(), 1);
+    LAM[0] = blas::dot(N, V.data(), 1, AV.data(), 1) / nrm2;
+    std::copy_n(AV.data(), N, V.data() + N);
+    blas::axpy(N, -LAM[0], V.data(), 1, V.data() + N, 1);
+    if(blas::nrm2(N, V.data() + N, 1) < tol * std::sqrt(nrm2)) {
+      blas::scal(N, 1. / std::sqrt(nrm2), X, 1);
+      logger->info("Davidson Converged!");
+      return std::make_pair(size_t(0), LAM[0]);
+    }
+  }
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV.data(), N, V.data() + N);
   gram_schmidt(N, 1, V.data(), N, V.data() + N);
@@ -315,6 +328,25 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
   op.operator_action(1, 1., V_local.data(), N_local, 0., AV_local.data(),
                      N_local);
 
+  // A guess which already is an eigenvector cannot be expanded
+  {
+    double nrm2 = blas::dot(N_local, V_local.data(), 1, V_local.data(), 1);
+    nrm2 = allreduce(nrm2, MPI_SUM, comm);
+    double rayl = blas::dot(N_local, V_local.data(), 1, AV_local.data(), 1);
+    LAM[0] = allreduce(rayl, MPI_SUM, comm) / nrm2;
+    std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
+    blas::axpy(N_local, -LAM[0], V_local.data(), 1, V_local.data() + N_local,
+               1);
+    double res2 = blas::dot(N_local, V_local.data() + N_local, 1,
+                            V_local.data() + N_local, 1);
+    res2 = allreduce(res2, MPI_SUM, comm);
+    if(std::sqrt(res2) < tol * std::sqrt(nrm2)) {
+      blas::scal(N_local, 1. / std::sqrt(nrm2), X_local, 1);
+      logger->info("Davidson Converged!");
+      return std::make_pair(int64_t(0), LAM[0]);
+    }
+  }
+
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data() + N_local);
   p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data() + N_local,
-- 
2.43.0


From ec88d64a48637562baf11fbece0fedc67a8acb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 07/69] fix: bound the distributed Davidson subspace by the
 problem dimension

---
 include/macis/solvers/davidson.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 63acef3..48bf519 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -312,6 +312,9 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
                         : spdlog::stdout_color_mt("davidson");
   }
 
+  // The subspace cannot be larger than the (global) problem dimension
+  max_m = std::min<int64_t>(max_m, allreduce(size_t(N_local), MPI_SUM, comm));
+
   logger->info("[Davidson Eigensolver]:");
   logger->info("  {} = {:6}, {} = {:4}, {} = {:10.5e}", "N_LOCAL", N_local,
                "MAX_M", max_m, "RES_TOL", tol);
-- 
2.43.0


From 0a02df58990214a6ebbf61df8cb3e9aab875d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 08/69] fix: gather the distributed CI vector before forming
 CASCI density matrices

---
 include/macis/util/cas.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/macis/util/cas.hpp b/include/macis/util/cas.hpp
index 63c8f4a..472b79e 100644
--- a/include/macis/util/cas.hpp
+++ b/include/macis/util/cas.hpp
@@ -55,9 +55,27 @@ double compute_casci_rdms(
                        settings.ci_max_subspace, settings.ci_res_tol, C,
                        MACIS_MPI_CODE(comm, ) true);
 
+  // The RDMs need the full CI vector on every rank
+  double* C_full = C.data();
+#ifdef MACIS_ENABLE_MPI
+  std::vector<double> C_gather;
+  const auto world_size = comm_size(comm);
+  if(world_size > 1) {
+    int local_count = C.size();
+    std::vector<int> counts(world_size), displs(world_size, 0);
+    MPI_Allgather(&local_count, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
+    for(int i = 1; i < world_size; ++i)
+      displs[i] = displs[i - 1] + counts[i - 1];
+    C_gather.resize(dets.size());
+    MPI_Allgatherv(C.data(), local_count, MPI_DOUBLE, C_gather.data(),
+                   counts.data(), displs.data(), MPI_DOUBLE, comm);
+    C_full = C_gather.data();
+  }
+#endif
+
   // Compute RDMs
   ham_gen.form_rdms(dets.begin(), dets.end(), dets.begin(), dets.end(),
-                    C.data(), matrix_span<double>(ORDM, no, no),
+                    C_full, matrix_span<double>(ORDM, no, no),
                     rank4_span<double>(TRDM, no, no, no, no));
 
   return E0;
-- 
2.43.0


From 22897e11bd08e405a17bd00c9f9421ffbe12c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 09/69] fix: account for empty rows in the COO to CSR
 conversion

---
 .../include/sparsexx/matrix_types/conversions.hpp         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 563cdea..1429f01 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -76,13 +76,9 @@ csr_matrix<T, index_t, Alloc>::csr_matrix(
 
   // Compute rowptr
   rowptr_.at(0) = other.indexing();
-  auto cur_row = 0;
   for(size_type i = 0; i < nnz_; ++i)
-    if(rowind_coo[i] != (cur_row + indexing_)) {
-      cur_row++;
-      rowptr_.at(cur_row) = i + indexing_;
-    }
-  rowptr_.at(m_) = nnz_ + indexing_;
+    rowptr_.at(rowind_coo[i] - indexing_ + 1)++;
+  for(size_type i = 0; i < m_; ++i) rowptr_[i + 1] += rowptr_[i];
 
   std::copy(colind_coo.begin(), colind_coo.end(), colind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 55e6d8cbbb1767cfede6f57d24b99888322321be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 10/69] fix: account for empty columns and rectangular matrices
 in the COO to CSC conversion

---
 .../include/sparsexx/matrix_types/conversions.hpp      | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
index 1429f01..7d12785 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/conversions.hpp
@@ -99,13 +99,9 @@ csc_matrix<T, index_t, Alloc>::csc_matrix(
 
   // Compute colptr
   colptr_.at(0) = other.indexing();
-  auto cur_col = 0;
-  for(size_t i = 0; i < nnz_; ++i)
-    if(colind_coo[i] != (cur_col + indexing_)) {
-      cur_col++;
-      colptr_.at(cur_col) = i + indexing_;
-    }
-  colptr_.at(m_) = nnz_ + indexing_;
+  for(size_type i = 0; i < nnz_; ++i)
+    colptr_.at(colind_coo[i] - indexing_ + 1)++;
+  for(size_type i = 0; i < n_; ++i) colptr_[i + 1] += colptr_[i];
 
   std::copy(rowind_coo.begin(), rowind_coo.end(), rowind_.begin());
   std::copy(nzval_coo.begin(), nzval_coo.end(), nzval_.begin());
-- 
2.43.0


From 55fba7329d79e1b256a6efc7d633b7fe49113474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 11/69] fix: respect the index base in the COO to dense
 conversion

---
 .../include/sparsexx/matrix_types/dense_conversions.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
index 376bfa3..eb633cf 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dense_conversions.hpp
@@ -59,7 +59,7 @@ void convert_to_dense(const coo_matrix<Args...>& A,
 
 #pragma omp parallel for
   for(int64_t i = 0; i < nnz; ++i) {
-    A_dense[Ari[i] + Aci[i] * LDAD] = Anz[i];
+    A_dense[(Ari[i] - indexing) + (Aci[i] - indexing) * LDAD] = Anz[i];
   }
 }
 
-- 
2.43.0


From 1f0291949425315cce77677d79a878982b504979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 12/69] fix: respect the index base in the COO matrix - block
 vector product

---
 src/sparsexx/include/sparsexx/spblas/spmbv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
index 419c42c..a77eb99 100644
--- a/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
+++ b/src/sparsexx/include/sparsexx/spblas/spmbv.hpp
@@ -121,8 +121,8 @@ gespmbv(int64_t K, ALPHAT ALPHA, const SpMatType& A,
 
   for(index_type k = 0; k < K; ++k)
     for(index_type inz = 0; inz < nnz; ++inz) {
-      const auto i = Ari[inz];
-      const auto j = Aci[inz];
+      const auto i = Ari[inz] - indexing;
+      const auto j = Aci[inz] - indexing;
       AV[i + k * LDAV] += alpha * Anz[inz] * V[j + k * LDV];
     }
 }
-- 
2.43.0


From b76df13b0e20cb650f8f64eaa224e0ee155ee324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 13/69] fix: count the stored diagonal when expanding a
 triangle

---
 src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
index c6a2c7f..f10ee19 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/coo_matrix_ops.hpp
@@ -111,7 +111,9 @@ void coo_matrix<T, index_t, Alloc>::expand_from_triangle() {
   if(diagonal or full_matrix) return;
 
   std::cout << "Performing Expansion..." << std::endl;
-  size_t new_nnz = 2 * nnz_ - n_;
+  size_t new_nnz = 2 * nnz_;
+  for(size_t i = 0; i < nnz_; ++i)
+    if(rowind_[i] == colind_[i]) --new_nnz;
   rowind_.reserve(new_nnz);
   colind_.reserve(new_nnz);
   nzval_.reserve(new_nnz);
-- 
2.43.0


From d7b856fe97b9bc63b3610873bf6233bd3e5bca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 14/69] fix: write Matrix Market rows and columns with the same
 index base

---
 src/sparsexx/include/sparsexx/io/write_mm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/write_mm.hpp b/src/sparsexx/include/sparsexx/io/write_mm.hpp
index c29e7a2..30bf831 100644
--- a/src/sparsexx/include/sparsexx/io/write_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/write_mm.hpp
@@ -72,7 +72,7 @@ void write_mm(std::string fname, const csr_matrix<Args...>& A, bool symm,
   write_mm_header(file, m, n, nnz, symm);
 
   int col_offset = 0;
-  int row_offset = 0;
+  int row_offset = A.indexing();
   if(forced_index >= 0) {
     col_offset = forced_index - A.indexing();
     row_offset = forced_index;
-- 
2.43.0


From 1eb9606f4a279017d3448fc90e713120f1860ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 15/69] fix: report missing or malformed Matrix Market files
 instead of reading past the tokens

---
 src/sparsexx/include/sparsexx/io/read_mm.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sparsexx/include/sparsexx/io/read_mm.hpp b/src/sparsexx/include/sparsexx/io/read_mm.hpp
index 378411e..abcb3d8 100644
--- a/src/sparsexx/include/sparsexx/io/read_mm.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_mm.hpp
@@ -258,7 +258,7 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
 
     // Check if this is actually a MM file...
 
-    if(tokens[0].compare("%%MatrixMarket") or tokens.size() != 5)
+    if(tokens.size() != 5 or tokens[0].compare("%%MatrixMarket"))
       throw std::runtime_error(fname + " is not a MM file");
 
     is_sym = !tokens[4].compare("symmetric");
@@ -321,6 +321,9 @@ coo_matrix<T, index_t, Alloc> read_mm_as_coo(
   size_t nnz_true = 0;
   while(std::getline(f_in, line)) {
     auto tokens = tokenize(line);
+    if(tokens.empty()) continue;
+    if(tokens.size() < 2)
+      throw std::runtime_error(fname + " contains an invalid entry");
     int64_t i = std::stoll(tokens[0]);
     int64_t j = std::stoll(tokens[1]);
     T v = (tokens.size() == 3) ? std::stod(tokens[2]) : 1.;
-- 
2.43.0


From a74169297b5c5f7efd322a4c84528c078668c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 16/69] fix: report binary triplet and Rutherford-Boeing files
 which cannot be opened

---
 src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp | 1 +
 src/sparsexx/include/sparsexx/io/read_rb.hpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
index 298e1e0..fbf2671 100644
--- a/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_binary_triplets.hpp
@@ -25,6 +25,7 @@ detail::enable_if_coo_matrix_t<SpMatType, SpMatType> read_binary_triplet_as_coo(
   using value_t = detail::value_type_t<SpMatType>;
 
   std::ifstream f_in(fname, std::ios::binary);
+  if(!f_in) throw std::runtime_error(fname + " could not be opened");
   size_t nnz;
   index_t m, n;
   f_in.read((char*)&m, sizeof(index_t));
diff --git a/src/sparsexx/include/sparsexx/io/read_rb.hpp b/src/sparsexx/include/sparsexx/io/read_rb.hpp
index 2eac213..127782a 100644
--- a/src/sparsexx/include/sparsexx/io/read_rb.hpp
+++ b/src/sparsexx/include/sparsexx/io/read_rb.hpp
@@ -19,6 +19,7 @@ namespace sparsexx {
 template <typename T, typename index_t, typename Alloc>
 csc_matrix<T, index_t, Alloc> read_rb_as_csc(std::string fname) {
   std::ifstream f_in(fname);
+  if(!f_in) throw std::runtime_error(fname + " could not be opened");
 
   std::string line;
 
-- 
2.43.0


From 10e1623eb975869e7cc80337c74fb006a86ef9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 17/69] fix: copy the row tiling of a distributed sparse matrix

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index a2f8893..d15c423 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -85,6 +85,7 @@ class dist_sparse_matrix {
 
   dist_sparse_matrix(const dist_sparse_matrix& other)
       : dist_sparse_matrix(other.comm_, other.global_m_, other.global_n_) {
+    dist_row_extents_ = other.dist_row_extents_;
     if(other.diagonal_tile_) set_diagonal_tile(other.diagonal_tile());
     if(other.off_diagonal_tile_)
       set_off_diagonal_tile(other.off_diagonal_tile());
-- 
2.43.0


From 8354d12349632219f5b84eb5f12d92713786d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 18/69] fix: make the sparse matrix type constraints usable in
 overload resolution

---
 .../include/sparsexx/matrix_types/type_traits.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
index 14549d0..20ba626 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/type_traits.hpp
@@ -53,17 +53,14 @@ template <typename SpMatType>
 inline constexpr bool is_coo_matrix_v = is_coo_matrix<SpMatType>::value;
 
 template <typename SpMatType, typename U = void>
-struct enable_if_csr_matrix {
-  using type = std::enable_if_t<is_csr_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csr_matrix
+    : public std::enable_if<is_csr_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_csc_matrix {
-  using type = std::enable_if_t<is_csc_matrix_v<SpMatType>, U>;
-};
+struct enable_if_csc_matrix
+    : public std::enable_if<is_csc_matrix_v<SpMatType>, U> {};
 template <typename SpMatType, typename U = void>
-struct enable_if_coo_matrix {
-  using type = std::enable_if_t<is_coo_matrix_v<SpMatType>, U>;
-};
+struct enable_if_coo_matrix
+    : public std::enable_if<is_coo_matrix_v<SpMatType>, U> {};
 
 template <typename SpMatType, typename U = void>
 using enable_if_csr_matrix_t =
-- 
2.43.0


From eacdf48380ed9344b5a346c53d8373f26666b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 19/69] fix: allow 64-bit indices in distributed sparse
 matrices

---
 .../include/sparsexx/matrix_types/dist_sparse_matrix.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
index d15c423..26f4b5f 100644
--- a/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
+++ b/src/sparsexx/include/sparsexx/matrix_types/dist_sparse_matrix.hpp
@@ -95,9 +95,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n()) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
@@ -111,9 +111,9 @@ class dist_sparse_matrix {
       : dist_sparse_matrix(c, A.m(), A.n(), row_tiles) {
     auto [local_row_st, local_row_en] = dist_row_extents_[comm_rank_];
     auto local_lo =
-        std::make_pair<int64_t, int64_t>(local_row_st, local_row_st);
+        std::pair<int64_t, int64_t>(local_row_st, local_row_st);
     auto local_up =
-        std::make_pair<int64_t, int64_t>(local_row_en, local_row_en);
+        std::pair<int64_t, int64_t>(local_row_en, local_row_en);
     diagonal_tile_ =
         std::make_shared<tile_type>(extract_submatrix(A, local_lo, local_up));
     off_diagonal_tile_ = std::make_shared<tile_type>(
-- 
2.43.0


From 3cfbdb013ea7dbcdc6581c6f7cd038a6de829de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 20/69] fix: do not dereference an empty local range in
 dist_quickselect

---
 include/macis/util/dist_quickselect.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/macis/util/dist_quickselect.hpp b/include/macis/util/dist_quickselect.hpp
index 466f060..e5e5fcf 100644
--- a/include/macis/util/dist_quickselect.hpp
+++ b/include/macis/util/dist_quickselect.hpp
@@ -131,7 +131,8 @@ typename RandomIt::value_type dist_quickselect(RandomIt begin, RandomIt end,
     total_n = total_gather_and_exclusive_scan(local_n, recv_size, displ, comm);
 
     std::vector<value_type> gathered_data(total_n);
-    MPI_Allgatherv(&(*local_begin), local_n, dtype, gathered_data.data(),
+    std::vector<value_type> local_data(local_begin, local_end);
+    MPI_Allgatherv(local_data.data(), local_n, dtype, gathered_data.data(),
                    recv_size.data(), displ.data(), dtype, comm);
 
     // Obtain remaining kth-element
-- 
2.43.0


From 385cfb930dbe1a11154497a0c51aec7522c3df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 21/69] fix: write FCIDUMP files any number of times in one
 process

---
 src/macis/fcidump.cxx | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bf1d776..bb13fe3 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -6,8 +6,7 @@
  * See LICENSE.txt for details
  */
 
-#include <spdlog/sinks/basic_file_sink.h>
-#include <spdlog/spdlog.h>
+#include <spdlog/fmt/fmt.h>
 
 #include <fstream>
 #include <iomanip>
@@ -183,27 +182,32 @@ void read_fcidump_2body(std::string fname, double* V, size_t LDV) {
 
 void write_fcidump(std::string fname, size_t norb, const double* T, size_t LDT,
                    const double* V, size_t LDV, double E_core) {
-  auto logger = spdlog::basic_logger_mt("fcidump", fname);
-  logger->set_pattern("%v");
-  const std::string fmt_string = "{:8} {:8} {:8} {:8} {:25.16e}";
+  std::ofstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
+  auto write_line = [&](size_t i, size_t j, size_t k, size_t l, double val) {
+    file << fmt::format("{:8} {:8} {:8} {:8} {:25.16e}\n", i, j, k, l, val);
+  };
 
   // Write two body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
         for(size_t l = 0; l < norb; ++l) {
-          logger->info(fmt_string, i + 1, j + 1, k + 1, l + 1,
-                       V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
+          write_line(i + 1, j + 1, k + 1, l + 1,
+                     V[i + j * LDV + k * LDV * LDV + l * LDV * LDV * LDV]);
         }
 
   // Write one body
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j) {
-      logger->info(fmt_string, i + 1, j + 1, 0, 0, T[i + j * LDT]);
+      write_line(i + 1, j + 1, 0, 0, T[i + j * LDT]);
     }
 
   // Write core
-  logger->info(fmt_string, 0, 0, 0, 0, E_core);
+  write_line(0, 0, 0, 0, E_core);
+
+  file.flush();
+  if(!file) throw std::runtime_error("Failed to write " + fname);
 }
 
 void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
-- 
2.43.0


From 80fbad7147153d932845c5dc50a5e0359d2013fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 22/69] fix: report FCIDUMP files which cannot be opened

---
 src/macis/fcidump.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index bb13fe3..98a8aba 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -76,6 +76,7 @@ namespace macis {
 
 uint32_t read_fcidump_norb(std::string fname) {
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
@@ -92,6 +93,7 @@ uint32_t read_fcidump_norb(std::string fname) {
 
 double read_fcidump_core(std::string fname) {
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
@@ -114,6 +116,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
     throw std::runtime_error("T is of improper dimension");
 
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
@@ -147,6 +150,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
     throw std::runtime_error("V is of improper dimension");
 
   std::ifstream file(fname);
+  if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-- 
2.43.0


From 6ba83a9c7384beaa80e53a00ee74b7bee71c634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 23/69] fix: do not parse FCIDUMP header lines as integrals

---
 src/macis/fcidump.cxx | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 98a8aba..a7676cc 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -32,6 +32,17 @@ bool is_float(const std::string& str) {
                      [](auto c) { return std::isalpha(c) or c == '.'; });
 }
 
+// Is this line made of four orbital indices and a value (in either order), as
+// opposed to e.g. part of the namelist header
+bool is_fcidump_line(const std::vector<std::string>& tokens) {
+  if(tokens.size() != 5) return false;
+  auto is_index = [](const std::string& str) {
+    return str.find_first_not_of("+-0123456789") == std::string::npos;
+  };
+  return std::all_of(tokens.begin() + 1, tokens.end() - 1, is_index) and
+         (is_index(tokens.front()) or is_index(tokens.back()));
+}
+
 auto fcidump_line(const std::vector<std::string>& tokens) {
   auto idx_first = is_float(tokens.back());
   auto int_first = is_float(tokens.front());
@@ -81,7 +92,7 @@ uint32_t read_fcidump_norb(std::string fname) {
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
 
@@ -97,7 +108,7 @@ double read_fcidump_core(std::string fname) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -120,7 +131,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
@@ -154,7 +165,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   std::string line;
   while(std::getline(file, line)) {
     auto tokens = split(line, " ");
-    if(tokens.size() != 5) continue;  // not a valid FCIDUMP line
+    if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
     auto lc = line_classification(p, q, r, s);
-- 
2.43.0


From 04c77af0d8c09a757cc891ce2c0c2c199973213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 24/69] fix: do not take FCIDUMP orbital energies for one-body
 integrals

---
 src/macis/fcidump.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index a7676cc..51c6c94 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -72,13 +72,15 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
   return std::make_tuple(p, q, r, s, integral);
 }
 
-enum LineClassification { Core, OneBody, TwoBody };
+enum LineClassification { Core, OrbitalEnergy, OneBody, TwoBody };
 
 LineClassification line_classification(int p, int q, int r, int s) {
   if(!(p or q or r or s))
     return LineClassification::Core;
   else if(p and q and r and s)
     return LineClassification::TwoBody;
+  else if(p and !(q or r or s))
+    return LineClassification::OrbitalEnergy;
   else
     return LineClassification::OneBody;
 }
-- 
2.43.0


From 56bea56db4c6e0f0fd95146bc993528d3e4cfb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 25/69] fix: report truncated binary RDM files

---
 src/macis/fcidump.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 51c6c94..db9f53c 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -263,6 +263,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
 
   // Read 2RDM
   in_file.read((char*)raw.data(), norb * norb * norb * norb * sizeof(double));
+  if(!in_file) throw std::runtime_error(fname + " is truncated");
   for(size_t i = 0; i < norb; ++i)
     for(size_t j = 0; j < norb; ++j)
       for(size_t k = 0; k < norb; ++k)
-- 
2.43.0


From 06a022430463568ec279fa31365ca6e197f40080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 26/69] fix: use the leading dimension of V in the MP2 energy

---
 src/macis/moller_plesset.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index 5e00d85..ffcec54 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -68,8 +68,8 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
         for(auto b = 0ul; b < nvir; ++b) {
           const auto a_off = a + nocc;
           const auto b_off = b + nocc;
-          const double V_abij = V[a_off + i * norb + b_off * LDV2 + j * LDV3];
-          const double V_abji = V[a_off + j * norb + b_off * LDV2 + i * LDV3];
+          const double V_abij = V[a_off + i * LDV + b_off * LDV2 + j * LDV3];
+          const double V_abji = V[a_off + j * LDV + b_off * LDV2 + i * LDV3];
 
           const double t2_ijab = T2[i + j * nocc + a * nocc2 + b * nocc2v];
           EMP2 += t2_ijab * (2 * V_abij - V_abji);
-- 
2.43.0


From 8bf2e874643d650fa053183853a49dba39327a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 27/69] fix: set the occupied-virtual blocks of the MP2 density

---
 src/macis/moller_plesset.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macis/moller_plesset.cxx b/src/macis/moller_plesset.cxx
index ffcec54..763dfea 100644
--- a/src/macis/moller_plesset.cxx
+++ b/src/macis/moller_plesset.cxx
@@ -93,6 +93,13 @@ void mp2_1rdm(NumOrbital _norb, NumCanonicalOccupied _nocc,
       if(i == j) ORDM[i + j * LDD] += 2.0;  // HF contribution
     }
 
+  // P(MP2) OV/VO-blocks vanish for the unrelaxed density
+  for(auto i = 0ul; i < nocc; ++i)
+    for(auto a = 0ul; a < nvir; ++a) {
+      ORDM[i + (a + nocc) * LDD] = 0.0;
+      ORDM[a + nocc + i * LDD] = 0.0;
+    }
+
   // P(MP2) VV-block
   // D(a,b) -= T2(i,j,c,a) * (2*T2(i,j,c,b) - T2(i,j,b,c))
   for(auto a = 0ul; a < nvir; ++a)
-- 
2.43.0


From c19374f38e36262ea4cbb7dcfb61893222aab95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 28/69] fix: use the leading dimension of T in the one-index
 transformation

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index fcddd40..de2d6be 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -77,7 +77,7 @@ void one_index_transformed_hamiltonian(NumOrbital norb, const double* T,
       double tmp = 0.0;
       for(size_t o = 0; o < no; ++o) {
         tmp +=
-            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDX];
+            X[p + o * LDX] * T[o + q * LDT] + X[q + o * LDX] * T[p + o * LDT];
       }
       Tx[p + q * LDTx] = tmp;
     }
-- 
2.43.0


From 00b871ee91d0284220185c9adbce4d8810b326f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 29/69] fix: run over all rotation pairs in the numerical
 orbital Hessian

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 918bfba..36e1292 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -182,7 +182,7 @@ void numerical_orbital_hessian(NumOrbital _norb, NumInactive ninact,
   for(size_t i = 0; i < norb; ++i)
     for(size_t a = i + 1; a < norb; ++a)
       for(size_t j = 0; j < norb; ++j)
-        for(size_t b = i + 1; b < norb; ++b) {
+        for(size_t b = j + 1; b < norb; ++b) {
           std::fill(Kx.begin(), Kx.end(), 0);
           std::fill(Ky.begin(), Ky.end(), 0);
           Kx[a + i * norb] = dk;
-- 
2.43.0


From c59570d8117141527797e304a01301f9ba0afcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 30/69] fix: respect padded leading dimensions in
 four_index_transform

---
 src/macis/transform.cxx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/macis/transform.cxx b/src/macis/transform.cxx
index 0403307..a10f864 100644
--- a/src/macis/transform.cxx
+++ b/src/macis/transform.cxx
@@ -63,9 +63,15 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 1st Quarter
   // TMP1(p,j,k,l) = C(i,p) * X(i,j,k,l)
   // TMP1(p, jkl)  = C(i,p) * X(i,jkl)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
-             norb_new, norb_old3, norb_old, 1.0, C, LDC, X, LDX, 0.0,
-             tmp1.data(), norb_new);
+  // (done for each kl, as X(i,jkl) has no single leading dimension if padded)
+  for(size_t l = 0; l < norb_old; ++l)
+    for(size_t k = 0; k < norb_old; ++k) {
+      auto X_kl = X + k * LDX * LDX + l * LDX * LDX * LDX;
+      auto TMP1_kl = tmp1.data() + (k + l * norb_old) * norb_old * norb_new;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::Trans, blas::Op::NoTrans,
+                 norb_new, norb_old, norb_old, 1.0, C, LDC, X_kl, LDX, 0.0,
+                 TMP1_kl, norb_new);
+    }
 
   // 2nd Quarter
   // TMP2(p,q,k,l) = C(j,q) * TMP1(p,j,k,l)
@@ -92,9 +98,16 @@ void four_index_transform(size_t norb_old, size_t norb_new, const double* X,
   // 4th Quarter
   // Y(p,q,r,s) = C(l,s) * TMP1(p,q,r,l)
   // Y(pqr,s) = V(pqr,l) * C(l,s)
-  blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
-             norb_new3, norb_new, norb_old, 1.0, tmp1.data(), norb_new3, C, LDC,
-             0.0, Y, norb_new3);
+  // Y_qr(p,s)  = V_qr(p,l) * C(l,s)
+  const size_t LDY3 = LDY * LDY * LDY;
+  for(size_t r = 0; r < norb_new; ++r)
+    for(size_t q = 0; q < norb_new; ++q) {
+      auto TMP1_qr = tmp1.data() + (q + r * norb_new) * norb_new;
+      auto Y_qr = Y + q * LDY + r * LDY * LDY;
+      blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans,
+                 norb_new, norb_new, norb_old, 1.0, TMP1_qr, norb_new3, C, LDC,
+                 0.0, Y_qr, LDY3);
+    }
 
 #else
 
-- 
2.43.0


From 872395e4f598f2f8432c868e68a8e06ee75077af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 31/69] fix: halve the commutator in the orbital Hessian
 contraction

---
 src/macis/orbital_hessian.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_hessian.cxx b/src/macis/orbital_hessian.cxx
index de2d6be..f8905ab 100644
--- a/src/macis/orbital_hessian.cxx
+++ b/src/macis/orbital_hessian.cxx
@@ -143,7 +143,7 @@ void orb_orb_hessian_contract(NumOrbital norb, NumInactive ninact,
   // Replace Tk with [G,K]
   for(size_t p = 0; p < no; ++p)
     for(size_t q = 0; q < no; ++q) {
-      Tk[p + q * no] = Fk[p + q * no] - Fk[q + p * no];
+      Tk[p + q * no] = 0.5 * (Fk[p + q * no] - Fk[q + p * no]);
     }
 
   // Take out orbital rotation piece into a temporary buffer
-- 
2.43.0


From 05aaf1d70db9fa2413172046858ae476cbc59bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 32/69] fix: keep strings with few electrons in the ASCI search
 constraints

---
 include/macis/asci/mask_constraints.hpp | 58 +++++++++++++++----------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index c9907e0..51f5050 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -57,8 +57,8 @@ bool satisfies_constraint(wfn_t<N> det, wfn_t<N> C, unsigned C_min) {
 template <size_t N>
 auto generate_constraint_single_excitations(wfn_t<N> det, wfn_t<N> C,
                                             wfn_t<N> O_mask, wfn_t<N> B) {
-  if((det & C).count() <
-     (C.count() - 1))  // need to have at most one different from the constraint
+  if((det & C).count() + 1 <
+     C.count())  // need to have at most one different from the constraint
     return std::make_pair(wfn_t<N>(0), wfn_t<N>(0));
 
   auto o = det ^ C;
@@ -83,8 +83,6 @@ auto generate_constraint_double_excitations(wfn_t<N> det, wfn_t<N> C,
   // Occ/Vir pairs to generate excitations
   std::vector<wfn_t<N>> O, V;
 
-  if((det & C) == 0) return std::make_tuple(O, V);
-
   auto o = det ^ C;
   auto v = (~det) & O_mask & B;
 
@@ -178,8 +176,6 @@ void generate_constraint_doubles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
 template <size_t N>
 unsigned count_constraint_doubles(wfn_t<N> det, wfn_t<N> C, wfn_t<N> O,
                                   wfn_t<N> B) {
-  if((det & C) == 0) return 0;
-
   auto o = det ^ C;
   auto v = (~det) & O & B;
 
@@ -496,23 +492,39 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
   // Global workloads
   std::vector<size_t> workloads(world_size, 0);
 
-  // Generate triplets + heuristic
+  // Strings with fewer electrons than the constraint fixes satisfy none
+  size_t n_elec = norb;
+  for(const auto& alpha : unique_alpha) n_elec = std::min(n_elec, alpha.count());
+
+  // Generate triplets (or the largest possible constraints)
+  std::vector<wfn_constraint<N>> triplets = {{wfn_t<N>(0), O, unsigned(norb)}};
+  for(size_t i = 0; i < std::min(n_elec, size_t(3)); ++i) {
+    std::vector<wfn_constraint<N>> next;
+    next.reserve(triplets.size() * norb);
+    for(const auto& c : triplets)
+      for(unsigned q = 0; q < c.C_min; ++q) {
+        next.push_back(c);
+        next.back().C.flip(q);
+        next.back().B >>= (c.C_min - q);
+        next.back().C_min = q;
+      }
+    triplets = std::move(next);
+  }
+
+  // Triplet heuristic
   std::vector<std::pair<wfn_constraint<N>, size_t>> constraint_sizes;
   constraint_sizes.reserve(norb * norb * norb);
   size_t total_work = 0;
-  for(int t_i = 0; t_i < norb; ++t_i)
-    for(int t_j = 0; t_j < t_i; ++t_j)
-      for(int t_k = 0; t_k < t_j; ++t_k) {
-        auto constraint = make_triplet<N>(t_i, t_j, t_k);
-        const auto& [T, B, _] = constraint;
+  for(const auto& constraint : triplets) {
+    const auto& [T, B, _] = constraint;
 
-        size_t nw = 0;
-        for(const auto& alpha : unique_alpha) {
-          nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
-        }
-        if(nw) constraint_sizes.emplace_back(constraint, nw);
-        total_work += nw;
-      }
+    size_t nw = 0;
+    for(const auto& alpha : unique_alpha) {
+      nw += constraint_histogram(alpha, ns_othr, nd_othr, T, O, B);
+    }
+    if(nw) constraint_sizes.emplace_back(constraint, nw);
+    total_work += nw;
+  }
 
   size_t local_average = (0.6 * total_work) / world_size;
 
@@ -520,9 +532,11 @@ auto dist_constraint_general(size_t nlevels, size_t norb, size_t ns_othr,
     // Select constraints larger than average to be broken apart
     std::vector<std::pair<wfn_constraint<N>, size_t>> tps_to_next;
     {
-      auto it = std::partition(
-          constraint_sizes.begin(), constraint_sizes.end(),
-          [=](const auto& a) { return a.second <= local_average; });
+      auto it = std::partition(constraint_sizes.begin(), constraint_sizes.end(),
+                               [=](const auto& a) {
+                                 return a.second <= local_average or
+                                        a.first.C.count() >= n_elec;
+                               });
 
       // Remove constraints from full list
       tps_to_next = decltype(tps_to_next)(it, constraint_sizes.end());
-- 
2.43.0


From c6b0cb9133d928e0e863a25e0cb562e4fbc78863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 33/69] fix: clear the output of generate_constraint_singles
 when there are none

---
 include/macis/asci/mask_constraints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index 51f5050..840bc2c 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -133,9 +133,9 @@ void generate_constraint_singles(wfn_t<N> det, wfn_t<N> T, wfn_t<N> O_mask,
   auto [o, v] = generate_constraint_single_excitations(det, T, O_mask, B);
   const auto oc = o.count();
   const auto vc = v.count();
+  t_singles.clear();
   if(!oc or !vc) return;
 
-  t_singles.clear();
   t_singles.reserve(oc * vc);
   const auto occ = bits_to_indices(o);
   const auto vir = bits_to_indices(v);
-- 
2.43.0


From 5cd3ac8718f62d241e1a26ee33f54c3d00ca94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 34/69] fix: form constraint masks above orbital 63

---
 include/macis/asci/mask_constraints.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/macis/asci/mask_constraints.hpp b/include/macis/asci/mask_constraints.hpp
index 840bc2c..8aa5bef 100644
--- a/include/macis/asci/mask_constraints.hpp
+++ b/include/macis/asci/mask_constraints.hpp
@@ -27,9 +27,7 @@ auto make_triplet(unsigned i, unsigned j, unsigned k) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k);
-  con.B = 1;
-  con.B <<= k;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(k);
   con.C_min = k;
 
   return con;
@@ -41,9 +39,7 @@ auto make_quad(unsigned i, unsigned j, unsigned k, unsigned l) {
 
   con.C = 0;
   con.C.flip(i).flip(j).flip(k).flip(l);
-  con.B = 1;
-  con.B <<= l;
-  con.B = con.B.to_ullong() - 1;
+  con.B = full_mask<N>(l);
   con.C_min = l;
 
   return con;
-- 
2.43.0


From b0feae34f6a31f80c813720661c0980f3f400819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 35/69] fix: prune only the contributions of the current ASCI
 constraint

---
 include/macis/asci/determinant_search.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 7d66813..25c4d00 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -353,9 +353,10 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // Prune Down Contributions
       if(asci_pairs.size() > asci_settings.pair_size_max) {
-        // Remove small contributions
+        // Remove small contributions (of this constraint)
         auto it = std::partition(
-            asci_pairs.begin(), asci_pairs.end(), [=](const auto& x) {
+            asci_pairs.begin() + size_before, asci_pairs.end(),
+            [=](const auto& x) {
               return std::abs(x.rv) > asci_settings.rv_prune_tol;
             });
         asci_pairs.erase(it, asci_pairs.end());
-- 
2.43.0


From 5d2a43c26a9ce5dcf6dc4ba8a5795cb86425aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 36/69] fix: respect just_singles in the constrained ASCI
 search

---
 include/macis/asci/determinant_search.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index 25c4d00..ecf9bc5 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -297,6 +297,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AAAA excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -310,6 +311,7 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
 
       // AABB excitations
       for(const auto& bcd : uad[i_alpha].bcd) {
+        if(asci_settings.just_singles) break;
         const auto& beta = bcd.beta_string;
         const auto& coeff = bcd.coeff;
         const auto& h_diag = bcd.h_diag;
@@ -342,6 +344,8 @@ asci_contrib_container<wfn_t<N>> asci_contributions_constraint(
               eps_beta.data(), T_pq, norb, G_red, norb, V_red, norb, h_el_tol,
               h_diag, E_ASCI, ham_gen, asci_pairs);
 
+          if(asci_settings.just_singles) continue;
+
           // BBBB Excitations
           append_ss_doubles_asci_contributions<N / 2, N / 2>(
               coeff, state, state_beta, occ_beta, vir_beta, occ_alpha,
-- 
2.43.0


From 5340ea642484bcbd82ffc82828fe567146f30200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 37/69] fix: bound the number of determinants selected by the
 distributed ASCI search

---
 include/macis/asci/determinant_search.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index ecf9bc5..e5e2a2f 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -549,7 +549,13 @@ std::vector<wfn_t<N>> asci_search(
                    asci_pairs.end());
 
   // Only do top-K on (ndets_max - ncdets) b/c CDETS will be added later
-  const size_t top_k_elements = ndets_max - ncdets;
+  size_t top_k_elements = ndets_max > ncdets ? ndets_max - ncdets : 0;
+#ifdef MACIS_ENABLE_MPI
+  // Can't select more than there are
+  if(world_size > 1)
+    top_k_elements = std::min(top_k_elements,
+                              allreduce(asci_pairs.size(), MPI_SUM, comm));
+#endif
 
   auto keep_large_en = clock_type::now();
   duration_type keep_large_dur = keep_large_en - keep_large_st;
@@ -569,7 +575,9 @@ std::vector<wfn_t<N>> asci_search(
   auto asci_sort_st = clock_type::now();
   if(world_size > 1 or asci_pairs.size() > top_k_elements) {
     std::vector<asci_contrib<wfn_t<N>>> topk(top_k_elements);
-    if(world_size > 1) {
+    if(!top_k_elements) {
+      // Nothing to select
+    } else if(world_size > 1) {
 #ifdef MACIS_ENABLE_MPI
       // Strip scores
       std::vector<double> scores(asci_pairs.size());
-- 
2.43.0


From 1c751bb792a0d10fff102b2d61b15510ae9a5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 38/69] fix: erase tied determinants before better ones in the
 distributed ASCI search

---
 include/macis/asci/determinant_search.hpp | 44 ++++++++++++-----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/macis/asci/determinant_search.hpp b/include/macis/asci/determinant_search.hpp
index e5e2a2f..6aaae49 100644
--- a/include/macis/asci/determinant_search.hpp
+++ b/include/macis/asci/determinant_search.hpp
@@ -595,27 +595,31 @@ std::vector<wfn_t<N>> asci_search(
           [=](const auto& p, const auto& s) { return std::abs(p.rv) > s; },
           [=](const auto& p, const auto& s) { return std::abs(p.rv) == s; });
 
-      // Determine local counts
-      size_t n_greater = std::distance(g_begin, e_begin);
-      size_t n_equal = std::distance(e_begin, l_begin);
-      size_t n_less = std::distance(l_begin, _end);
-      const int n_geq_local = n_greater + n_equal;
-
-      // Strip bitsrings
-      std::vector<wfn_t<N>> keep_strings_local(n_geq_local);
-      std::transform(g_begin, l_begin, keep_strings_local.begin(),
-                     [](const auto& p) { return p.state; });
-
       // Gather global strings
-      std::vector<int> local_sizes, displ;
-      auto n_geq_global = total_gather_and_exclusive_scan(
-          n_geq_local, local_sizes, displ, comm);
-
-      std::vector<wfn_t<N>> keep_strings_global(n_geq_global);
-      auto string_dtype = mpi_traits<wfn_t<N>>::datatype();
-      MPI_Allgatherv(keep_strings_local.data(), n_geq_local, string_dtype,
-                     keep_strings_global.data(), local_sizes.data(),
-                     displ.data(), string_dtype, comm);
+      std::vector<wfn_t<N>> keep_strings_global;
+      auto gather_strings = [&](auto begin, auto end) {
+        // Strip bitsrings
+        const int n_local = std::distance(begin, end);
+        std::vector<wfn_t<N>> strings_local(n_local);
+        std::transform(begin, end, strings_local.begin(),
+                       [](const auto& p) { return p.state; });
+
+        std::vector<int> local_sizes, displ;
+        const auto n_global =
+            total_gather_and_exclusive_scan(n_local, local_sizes, displ, comm);
+
+        const auto n_before = keep_strings_global.size();
+        keep_strings_global.resize(n_before + n_global);
+        auto string_dtype = mpi_traits<wfn_t<N>>::datatype();
+        MPI_Allgatherv(strings_local.data(), n_local, string_dtype,
+                       keep_strings_global.data() + n_before,
+                       local_sizes.data(), displ.data(), string_dtype, comm);
+      };
+
+      // The equivalent elements go last, such that they're erased first
+      gather_strings(g_begin, e_begin);
+      gather_strings(e_begin, l_begin);
+      size_t n_geq_global = keep_strings_global.size();
 
       // Edge case where NGEQ > TOPK - erase equivalent elements
       if(n_geq_global > top_k_elements) {
-- 
2.43.0


From be4ca3301998e37d5b69fdf16b83fdc20de08fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 39/69] fix: return the energy after the natural orbital
 rotation in asci_grow

---
 include/macis/asci/grow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/macis/asci/grow.hpp b/include/macis/asci/grow.hpp
index f3f4260..cc5e5d7 100644
--- a/include/macis/asci/grow.hpp
+++ b/include/macis/asci/grow.hpp
@@ -124,7 +124,7 @@ auto asci_grow(ASCISettings asci_settings, MCSCFSettings mcscf_settings,
       logger->trace("  * Rediagonalizing");
       auto rdg_st = hrt_t::now();
       std::vector<double> X_local;
-      selected_ci_diag(
+      E = selected_ci_diag(
           wfn.begin(), wfn.end(), ham_gen, mcscf_settings.ci_matel_tol,
           mcscf_settings.ci_max_subspace, mcscf_settings.ci_res_tol,
           X_local MACIS_MPI_CODE(, comm));
-- 
2.43.0


From a54fce6afc716d006f376216438ee805dad8b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 40/69] fix: same-spin double excitations in the attic density
 matrices

---
 attic/src/cmz_ed/rdms.c++ | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/attic/src/cmz_ed/rdms.c++ b/attic/src/cmz_ed/rdms.c++
index e4e3149..049499a 100644
--- a/attic/src/cmz_ed/rdms.c++
+++ b/attic/src/cmz_ed/rdms.c++
@@ -35,8 +35,7 @@ namespace cmz
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcUp( o1, v1 );
-            sign = ket.SingleExcUp( v1, o1 );
+            double sign = ket.SingleExcUp( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcUp( v2, o2 );
@@ -46,12 +45,11 @@ namespace cmz
             rdm2[ indexer(v2,v1,o1,o2) ] -= sign * contrib * 0.5;
           }
           // Double Do-Do
-          else if( exc_do == 4 && exc_do == 0 )
+          else if( exc_do == 4 && exc_up == 0 )
           {
             uint64_t o1 = ket.GetFlippedOccIndx( bra );
             uint64_t v1 = bra.GetFlippedOccIndx( ket );
-            double sign = bra.SingleExcDo( o1, v1 );
-            sign = ket.SingleExcDo( v1, o1 );
+            double sign = ket.SingleExcDo( v1, o1 );
             uint64_t o2 = ket.GetFlippedOccIndx( bra );
             uint64_t v2 = bra.GetFlippedOccIndx( ket );
             sign *= ket.SingleExcDo( v2, o2 );
-- 
2.43.0


From 9cabff2a89560177701c62d968ced23029b35433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 41/69] fix: count differing orbitals in the attic double loop
 over determinant pairs

---
 attic/src/cmz_ed/hamil.c++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/src/cmz_ed/hamil.c++ b/attic/src/cmz_ed/hamil.c++
index 162b03e..732aa86 100644
--- a/attic/src/cmz_ed/hamil.c++
+++ b/attic/src/cmz_ed/hamil.c++
@@ -151,7 +151,7 @@ namespace cmz
       for( size_t i = 0; i < ndets; ++i ) {
       //std::cout << i << std::endl;
       for( size_t j = 0; j < i;     ++j ) 
-      if( stts_vec[i].GetState() ^ stts_vec[j].GetState() <= 4 ) {
+      if( std::popcount(stts_vec[i].GetState() ^ stts_vec[j].GetState()) <= 4 ) {
         pairs.push_back( {i,j} );
         pairs.push_back( {j,i} );
       }
-- 
2.43.0


From afcedeec1b310ba5fa0f4d4ee88da90ea41b309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 42/69] fix: 64-bit masks in the attic determinants and
 combinations

---
 attic/inc/cmz_ed/slaterdet.h++ | 6 +++---
 attic/src/cmz_ed/combins.c++   | 2 +-
 attic/src/cmz_ed/slaterdet.c++ | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/attic/inc/cmz_ed/slaterdet.h++ b/attic/inc/cmz_ed/slaterdet.h++
index d496ff9..4116282 100644
--- a/attic/inc/cmz_ed/slaterdet.h++
+++ b/attic/inc/cmz_ed/slaterdet.h++
@@ -220,7 +220,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndx( const slater_det &st ) const 
         {
-          return (ffs( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -237,7 +237,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxUp( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & ((1LL << Norbs) - 1LL) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Give position of first different bit/orbital between *this 
@@ -254,7 +254,7 @@ namespace cmz
          */
         uint64_t GetFlippedOccIndxDo( const slater_det &st ) const 
         { 
-          return (ffs( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
+          return (ffsll( state & (state ^ st.GetState() ) & (~((1LL << Norbs) - 1LL)) ) - 1LL) % Norbs; 
         }
         /**
          * @brief Defines order among Slater determinants, for use in std::set. 
diff --git a/attic/src/cmz_ed/combins.c++ b/attic/src/cmz_ed/combins.c++
index 06e0dbf..adb7fa3 100644
--- a/attic/src/cmz_ed/combins.c++
+++ b/attic/src/cmz_ed/combins.c++
@@ -18,7 +18,7 @@ namespace cmz
        uint64_t temp = 0;
        for (int i = 0; i < Nbits; ++i) {
          if (v[i]) {
-             temp = temp + (1 << i);
+             temp = temp + (uint64_t(1) << i);
          }
        }
      //End: From vvector bool to uint
diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 7b35d4f..2d934fb 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -10,7 +10,7 @@ namespace cmz
       uint64_t omax = std::max(i,a);
       uint64_t omin = std::min(i,a);
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(2)<<omin) - 1);
       mask = state & mask;
       Flip(i); Flip(a);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
@@ -21,7 +21,7 @@ namespace cmz
       uint64_t omax = std::max(i,a) + Norbs;
       uint64_t omin = std::min(i,a) + Norbs;
       // Bitmask to check for Fermionic sign change.
-      uint64_t mask = ((1<<omax) - 1) ^ ((1<<omin+1) - 1);
+      uint64_t mask = ((uint64_t(1)<<omax) - 1) ^ ((uint64_t(2)<<omin) - 1);
       mask = state & mask;
       Flip(i+Norbs); Flip(a+Norbs);
       return (std::popcount(mask) % 2) == 1 ? -1. : 1.; 
-- 
2.43.0


From 80eb1e4ed170434ff66a1800238bc24ae7b25a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 43/69] fix: screen attic excitations by the integrals that
 couple them

---
 attic/src/cmz_ed/slaterdet.c++ | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/attic/src/cmz_ed/slaterdet.c++ b/attic/src/cmz_ed/slaterdet.c++
index 2d934fb..7439623 100644
--- a/attic/src/cmz_ed/slaterdet.c++
+++ b/attic/src/cmz_ed/slaterdet.c++
@@ -213,17 +213,29 @@ namespace cmz
   
       double thres = 1.E-9; //Threshold to keep excitation.
 
+      // Matrix element of a single excitation o->v, up to its sign: 
+      // one-body integral plus the mean field of the occupied orbitals.
+      auto single = [pint]( uint64_t v, uint64_t o, const std::vector<uint64_t> &same, const std::vector<uint64_t> &other )
+      {
+        double res = pint->get(v, o);
+        for( auto b : same )
+          res += pint->getChem(v, o, b, b) - pint->getChem(v, b, b, o);
+        for( auto b : other )
+          res += pint->getChem(v, o, b, b);
+        return std::abs(res);
+      };
+
       double sign = 1.; // For function calling purposes
       // Build single excitation.
       // Single - Up
       for( auto ou : occs_up )
         for( auto vu : virts_up )
-          if( std::abs(pint->get(vu, ou)) >= thres )
+          if( single( vu, ou, occs_up, occs_do ) >= thres )
             excs.push_back( GetSingExUpSt( vu, ou, sign ) );
       // Single - Down
       for( auto od : occs_do )
         for( auto vd : virts_do )
-          if( std::abs(pint->get(vd , od)) >= thres )
+          if( single( vd, od, occs_do, occs_up ) >= thres )
             excs.push_back( GetSingExDoSt( vd, od, sign ) );
  
       // Build double excitations.
@@ -234,8 +246,8 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_up.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
-               || std::abs(pint->getChem(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io1], occs_up[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_up[iv1], virts_up[iv2], occs_up[io2], occs_up[io1])) >= thres )
                 excs.push_back( tmp.GetSingExUpSt( virts_up[iv2], occs_up[io2], sign ) );
          }
       // Double - Do/Do
@@ -245,8 +257,8 @@ namespace cmz
           slater_det tmp = GetSingExDoSt( virts_do[iv1], occs_do[io1], sign );
           for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
-               || std::abs(pint->getChem(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
+              if( std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io1], occs_do[io2])) >= thres 
+               || std::abs(pint->getPhys(virts_do[iv1], virts_do[iv2], occs_do[io2], occs_do[io1])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
       // Double - Up/Do
@@ -256,7 +268,7 @@ namespace cmz
           slater_det tmp = GetSingExUpSt( virts_up[iv1], occs_up[io1], sign );
           for( size_t io2 = 0; io2 < occs_do.size(); io2++ )
             for( size_t iv2 = 0; iv2 < virts_do.size(); iv2++ )
-              if( std::abs(pint->getChem(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
+              if( std::abs(pint->getPhys(virts_up[iv1], virts_do[iv2], occs_up[io1], occs_do[io2])) >= thres )
                 excs.push_back( tmp.GetSingExDoSt( virts_do[iv2], occs_do[io2], sign ) );
          }
 
-- 
2.43.0


From 9526f8c11c8301c6d720781ae0390aa4d12b8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 44/69] fix: eight-fold symmetry of the two-body integrals in
 attic FCIDUMP files

---
 attic/inc/cmz_ed/integrals.h++ | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 1cc0f9a..7dfd68d 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -64,8 +64,8 @@ namespace cmz
           }
       
           /**
-           * @brief Orders each pair of virt/occ orbital indices by magnitude.
-           *        Assumes real orbitals.
+           * @brief Orders each pair of virt/occ orbital indices by magnitude,
+           *        and then both pairs. Assumes real orbitals.
            *
            * @author Stephen J. Cotton
            * @date 05/04/2021
@@ -74,6 +74,7 @@ namespace cmz
           {
             if(i < a) std::swap(i,a);
             if(j < b) std::swap(j,b);
+            if(i < j || (i == j && a < b)) { std::swap(i,j); std::swap(a,b); }
           }
       
           /**
-- 
2.43.0


From 3e97819a3c98c8115f94733b34154ba372ea633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 45/69] fix: report malformed entries of attic FCIDUMP files

---
 attic/inc/cmz_ed/integrals.h++ | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/attic/inc/cmz_ed/integrals.h++ b/attic/inc/cmz_ed/integrals.h++
index 7dfd68d..6ae2f1d 100644
--- a/attic/inc/cmz_ed/integrals.h++
+++ b/attic/inc/cmz_ed/integrals.h++
@@ -860,13 +860,12 @@ namespace cmz
               std::stringstream ss(line);
               count++;
       
-              ss >> i >> a >> j >> b >> matel;
+              bool bad = false; //Flag to check for errors
+              if( !(ss >> i >> a >> j >> b >> matel) )
+                throw ( "Bad integral read of " + file);
              
               if(abs(matel) < 1.E-16) continue;
       
-              bool bad = false; //Flag to check for errors
-              if(!ss) bad = true;
-      
               //Classify read data
               if( i == 0 && j == 0 && a == 0 && b == 0 )
                 core_energy = matel;
-- 
2.43.0


From 1c1aeb6f541865ebadbe2afaaae1680a87ea923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 46/69] fix: read the whole orbital count of attic
 density-matrix files

---
 attic/inc/cmz_ed/rdms.h++ | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index b0a7549..6a5d9b5 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -487,7 +487,7 @@ namespace cmz
             if(!ifile)
               throw ("Could not open " + file);
     
-            int64_t norbs;
+            int norbs = 0;
        
             ifile.read((char*) &norbs, sizeof(int));
     
-- 
2.43.0


From b475f9767fd33903f53ea9eb33a673c4817b4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 47/69] fix: inactive diagonal of the embedded attic two-body
 density matrix

---
 attic/inc/cmz_ed/rdms.h++ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/cmz_ed/rdms.h++ b/attic/inc/cmz_ed/rdms.h++
index 6a5d9b5..a51adc0 100644
--- a/attic/inc/cmz_ed/rdms.h++
+++ b/attic/inc/cmz_ed/rdms.h++
@@ -603,8 +603,8 @@ namespace cmz
             {
               for( auto const &j: ints.iorbs )
               {
-                rdm2[ indexer(i,j,i,j) ] =  4.;
-                rdm2[ indexer(i,j,j,i) ] = -2.;
+                rdm2[ indexer(i,j,i,j) ] += 4.;
+                rdm2[ indexer(i,j,j,i) ] -= 2.;
               }
               for( int64_t ac1 = 0; ac1 < as_size; ac1++ )
               {
-- 
2.43.0


From e5afb43625a44fc3ceaef53b5078135ea087e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:56 +0000
Subject: [PATCH 48/69] fix: do not compare an unread orbital count in binary
 RDM files

---
 src/macis/fcidump.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index db9f53c..28d9980 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -245,7 +245,7 @@ void read_rdms_binary(std::string fname, size_t norb, double* ORDM, size_t LDD1,
   std::ifstream in_file(fname, std::ios::binary);
   if(!in_file) throw std::runtime_error(fname + " not available");
 
-  int _norb_read;
+  int _norb_read = -1;
   in_file.read((char*)&_norb_read, sizeof(int));
   if(_norb_read != (int)norb)
     throw std::runtime_error("NORB in RDM file doesn't match " +
-- 
2.43.0


From da610bd6e79305bf722767afbe703f6e90ffb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:28 +0000
Subject: [PATCH 49/69] fix: respect the leading dimension of the numerical
 orbital gradient

---
 src/macis/orbital_gradient.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macis/orbital_gradient.cxx b/src/macis/orbital_gradient.cxx
index 36e1292..0fee681 100644
--- a/src/macis/orbital_gradient.cxx
+++ b/src/macis/orbital_gradient.cxx
@@ -156,7 +156,7 @@ void numerical_orbital_gradient(NumOrbital _norb, NumInactive ninact,
       compute_orbital_rotation(_norb, -2.0, K.data(), norb, U.data(), norb);
       auto E_m2 = energy();
 
-      OG[a + i * norb] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
+      OG[a + i * LDOG] = (E_m2 - E_p2 + 8 * (E_p1 - E_m1)) / (12 * dk);
     }
 }
 
-- 
2.43.0


From e0128656b52fae793b66b373bedc0e569c54d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 50/69] fix: respect the leading dimensions of the active
 density matrices in CASSCF

---
 include/macis/util/mcscf_impl.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/macis/util/mcscf_impl.hpp b/include/macis/util/mcscf_impl.hpp
index 48d1f85..04b7ad2 100644
--- a/include/macis/util/mcscf_impl.hpp
+++ b/include/macis/util/mcscf_impl.hpp
@@ -130,6 +130,19 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
    *      input RDMs will be taken as an initial guess.         *
    **************************************************************/
 
+  // The RDM functor produces contiguous RDMs: work on contiguous copies
+  std::vector<double> A1RDM_work(na2), A2RDM_work(na4);
+  lapack::lacpy(lapack::MatrixType::General, na, na, A1RDM, LDD1,
+                A1RDM_work.data(), na);
+  active_subtensor_2body(nact, NumInactive(0), A2RDM, LDD2, A2RDM_work.data(),
+                         na);
+  double* const A1RDM_out = A1RDM;
+  double* const A2RDM_out = A2RDM;
+  const size_t LDD1_out = LDD1, LDD2_out = LDD2;
+  A1RDM = A1RDM_work.data();
+  A2RDM = A2RDM_work.data();
+  LDD1 = LDD2 = na;
+
   // Compute the trace of the input A1RDM
   double iAtr = 0.0;
   for(size_t i = 0; i < na; ++i) iAtr += A1RDM[i * (LDD1 + 1)];
@@ -320,6 +333,16 @@ double mcscf_impl(const Functor& rdm_op, MCSCFSettings settings,
     converged = grad_nrm / rms_factor < settings.orb_grad_tol_mcscf;
   }
 
+  // Return RDMs to the caller
+  lapack::lacpy(lapack::MatrixType::General, na, na, A1RDM, LDD1, A1RDM_out,
+                LDD1_out);
+  for(size_t l = 0; l < na; ++l)
+    for(size_t k = 0; k < na; ++k)
+      lapack::lacpy(lapack::MatrixType::General, na, na,
+                    A2RDM + (k + l * na) * na2, na,
+                    A2RDM_out + (k + l * LDD2_out) * LDD2_out * LDD2_out,
+                    LDD2_out);
+
   if(converged) logger->info("MCSCF Converged");
   return E0;
 }
-- 
2.43.0


From e4d0ecb69815ccf8f106b870ccd6a256a42d313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 51/69] fix: accept any whitespace between the fields of an
 FCIDUMP line

Lines whose fields are separated by tabs were silently ignored, as were those
of files with CRLF line endings: their last field carries the carriage return.
---
 src/macis/fcidump.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 28d9980..458d60c 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -93,7 +93,7 @@ uint32_t read_fcidump_norb(std::string fname) {
   std::string line;
   int32_t max_idx = 0;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s+");
     if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -109,7 +109,7 @@ double read_fcidump_core(std::string fname) {
   if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s+");
     if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -132,7 +132,7 @@ void read_fcidump_1body(std::string fname, col_major_span<double, 2> T) {
   if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s+");
     if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
@@ -166,7 +166,7 @@ void read_fcidump_2body(std::string fname, col_major_span<double, 4> V) {
   if(!file) throw std::runtime_error(fname + " not available");
   std::string line;
   while(std::getline(file, line)) {
-    auto tokens = split(line, " ");
+    auto tokens = split(line, "\\s+");
     if(!is_fcidump_line(tokens)) continue;  // not a valid FCIDUMP line
 
     auto [p, q, r, s, integral] = fcidump_line(tokens);
-- 
2.43.0


From 75175f15ff70faf4e2c48322d8981c52fefaf368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 52/69] fix: read Fortran double precision exponents in FCIDUMP
 files

std::stod stops at the D of 1.0D-03, which was silently read as 1.0.
---
 src/macis/fcidump.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/macis/fcidump.cxx b/src/macis/fcidump.cxx
index 458d60c..03f75f0 100644
--- a/src/macis/fcidump.cxx
+++ b/src/macis/fcidump.cxx
@@ -8,6 +8,7 @@
 
 #include <spdlog/fmt/fmt.h>
 
+#include <algorithm>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -43,6 +44,13 @@ bool is_fcidump_line(const std::vector<std::string>& tokens) {
          (is_index(tokens.front()) or is_index(tokens.back()));
 }
 
+// Read an integral, including in the Fortran double precision notation (1.0D-3)
+double read_integral(std::string str) {
+  std::replace_if(
+      str.begin(), str.end(), [](auto c) { return c == 'D' or c == 'd'; }, 'E');
+  return std::stod(str);
+}
+
 auto fcidump_line(const std::vector<std::string>& tokens) {
   auto idx_first = is_float(tokens.back());
   auto int_first = is_float(tokens.front());
@@ -57,13 +65,13 @@ auto fcidump_line(const std::vector<std::string>& tokens) {
     q = std::stoi(tokens[1]);
     r = std::stoi(tokens[2]);
     s = std::stoi(tokens[3]);
-    integral = std::stod(tokens[4]);
+    integral = read_integral(tokens[4]);
   } else {
     p = std::stoi(tokens[1]);
     q = std::stoi(tokens[2]);
     r = std::stoi(tokens[3]);
     s = std::stoi(tokens[4]);
-    integral = std::stod(tokens[0]);
+    integral = read_integral(tokens[0]);
   }
 
   if(p < 0 or q < 0 or r < 0 or s < 0)
-- 
2.43.0


From d0c2b3b9875eea7a260c3b7ac782e598ba32e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:01 +0000
Subject: [PATCH 53/69] fix: duplicate definition of generate_singles_spin in
 the attic made dbwy/sd_operations.hpp impossible to include

---
 attic/inc/dbwy/sd_operations.hpp | 35 --------------------------------
 1 file changed, 35 deletions(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index d4805eb..f63d1de 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -295,41 +295,6 @@ void generate_singles_doubles_spin_as( size_t norb, std::bitset<N> state,
 
 }
 
-template <size_t N>
-void generate_singles_spin( size_t norb, std::bitset<N> state, 
-  std::vector<std::bitset<N>>& singles ) {
-
-  auto state_alpha = truncate_bitset<N/2>(state);
-  auto state_beta  = truncate_bitset<N/2>(state >> (N/2));
-
-  std::vector<std::bitset<N/2>> singles_alpha, singles_beta;
-
-  // Generate Spin-Specific singles / doubles
-  generate_singles( norb, state_alpha, singles_alpha );
-  generate_singles( norb, state_beta,  singles_beta  );
-
-  auto state_alpha_expand = expand_bitset<N>(state_alpha);
-  auto state_beta_expand  = expand_bitset<N>(state_beta) << (N/2);
-
-  // Generate Singles in full space
-  singles.clear();
-
-  // Single Alpha + No Beta
-  for( auto s_alpha : singles_alpha ) {
-    auto s_state = expand_bitset<N>(s_alpha);
-    s_state = s_state | state_beta_expand;
-    singles.emplace_back(s_state);
-  }
-
-  // No Alpha + Single Beta
-  for( auto s_beta : singles_beta ) {
-    auto s_state = expand_bitset<N>(s_beta) << (N/2);
-    s_state = s_state | state_alpha_expand;
-    singles.emplace_back(s_state);
-  }
-
-}
-
 template <size_t N>
 void generate_singles_doubles_spin( size_t norb, std::bitset<N> state, 
   std::vector<std::bitset<N>>& singles, std::vector<std::bitset<N>>& doubles ) {
-- 
2.43.0


From 667c9fe6125cc5d06738233f79e64a689a013031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 54/69] fix: ffs of the attic's bitsets counted from zero at
 128 bits and overflowed between 65 and 127

---
 attic/inc/dbwy/bitset_operations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/bitset_operations.hpp b/attic/inc/dbwy/bitset_operations.hpp
index bf04b59..833e336 100644
--- a/attic/inc/dbwy/bitset_operations.hpp
+++ b/attic/inc/dbwy/bitset_operations.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <bit>
 #include <bitset>
 #include <cassert>
 
@@ -37,7 +38,10 @@ uint32_t ffs( std::bitset<N> bits ) {
 
   if constexpr (N <= 32)      return ffsl( bits.to_ulong() );
   else if constexpr (N <= 64) return ffsll( bits.to_ullong() );
-  else if constexpr (N <= 128) return std::countr_zero( to_uint128(bits) );
+  else if constexpr (N == 128) {
+    const auto x = to_uint128(bits);
+    return x ? std::countr_zero( x ) + 1 : 0;
+  }
   else {
     uint32_t ind = 0;
     for( ind = 0; ind < N; ++ind )
-- 
2.43.0


From 666ff7279eeb55bab22a40ca4e66173a9f7b1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 55/69] fix: bitset_to_occ_vir of the attic aborted on fully
 occupied determinants

---
 attic/inc/dbwy/sd_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/sd_operations.hpp b/attic/inc/dbwy/sd_operations.hpp
index f63d1de..d3a38f2 100644
--- a/attic/inc/dbwy/sd_operations.hpp
+++ b/attic/inc/dbwy/sd_operations.hpp
@@ -38,7 +38,7 @@ void bitset_to_occ_vir( size_t norb, std::bitset<N> state,
 
   occ = bits_to_indices( state );
   const auto nocc = occ.size();
-  assert( nocc < norb );
+  assert( nocc <= norb );
 
   const auto nvir = norb - nocc;
   vir.resize(nvir);
-- 
2.43.0


From f94fe5a846d83ad508334c5ecd47f92e64e4d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 56/69] fix: merging an empty list of ASCI pairs in the attic
 read past its end

---
 attic/inc/dbwy/asci_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 731a708..a9319e4 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -381,6 +381,8 @@ void sort_and_accumulate_asci_pairs(
   #endif
   #endif
 
+  if( asci_pairs.empty() ) return;
+
   // Accumulate the ASCI scores into first instance of unique bitstrings
   auto cur_it = asci_pairs.begin();
   for( auto it = cur_it + 1; it != asci_pairs.end(); ++it ) {
@@ -422,6 +424,8 @@ void keep_only_largest_copy_asci_pairs(
   #endif
   #endif
 
+  if( asci_pairs.empty() ) return;
+
   // Keep the largest ASCI score in the unique instance of each bit string
   auto cur_it = asci_pairs.begin();
   for( auto it = cur_it + 1; it != asci_pairs.end(); ++it ) {
-- 
2.43.0


From 9bd695e034a38d1dd45c5bdf2c948e891ff8726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 57/69] fix: keep_only_largest_copy_asci_pairs of the attic
 sorted with a comparison that is not a strict weak ordering

---
 attic/inc/dbwy/asci_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index a9319e4..9158568 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -420,7 +420,7 @@ void keep_only_largest_copy_asci_pairs(
   });
   #else
   ips4o::parallel::sort( asci_pairs.begin(), asci_pairs.end(), 
-    []( auto x, auto y ) { return !bitset_less(x.state, y.state); });
+    []( auto x, auto y ) { return bitset_less(y.state, x.state); });
   #endif
   #endif
 
-- 
2.43.0


From b96be1c51dd814633e8180ba22f5fdc3d78a4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 58/69] fix: asci_search of the attic selected past the end
 when fewer determinants than requested were found

---
 attic/inc/dbwy/asci_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attic/inc/dbwy/asci_util.hpp b/attic/inc/dbwy/asci_util.hpp
index 9158568..097c882 100644
--- a/attic/inc/dbwy/asci_util.hpp
+++ b/attic/inc/dbwy/asci_util.hpp
@@ -633,7 +633,7 @@ std::vector<std::bitset<N>> asci_search(
   // Sort pairs by ASCI score
   auto asci_sort_st = clock_type::now();
   #if 1
-  std::nth_element( asci_pairs.begin(), asci_pairs.begin() + ndets_max,
+  std::nth_element( asci_pairs.begin(), asci_pairs.begin() + std::min( ndets_max, asci_pairs.size() ),
     asci_pairs.end(), 
   #else
   std::sort( asci_pairs.begin(), asci_pairs.end(),
-- 
2.43.0


From acedc253569d64d736485035ca9d746054c18677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 59/69] fix: SDBuildHamiltonianGenerator of the attic put the
 diagonal in every block, at the column of the row's number

---
 attic/inc/dbwy/sd_build.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/sd_build.hpp b/attic/inc/dbwy/sd_build.hpp
index 95e01dd..ebe511d 100644
--- a/attic/inc/dbwy/sd_build.hpp
+++ b/attic/inc/dbwy/sd_build.hpp
@@ -93,9 +93,11 @@ protected:
         // Compute Matrix Element
         const auto h_eld = this->matrix_element_diag( bra_occ_alpha, bra_occ_beta );
 
-        if( std::abs(h_eld) > H_thresh ) {
+        det_pos<N> pos_bra; pos_bra.det = bra; pos_bra.id = 0;
+        auto bra_it = kets.find( pos_bra );
+        if( bra_it != kets.end() and std::abs(h_eld) > H_thresh ) {
           nrow++;
-          colind.emplace_back(i);
+          colind.emplace_back(bra_it->id);
           nzval.emplace_back(h_eld);
         }
 
-- 
2.43.0


From 3849ba41c82ec6c09f4e0f397dd301bc888a4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 60/69] fix: GF_Diag of the attic returned NaN for a vanishing
 state

---
 attic/inc/dbwy/gf.h++ | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/attic/inc/dbwy/gf.h++ b/attic/inc/dbwy/gf.h++
index adab04d..a1f5bc2 100644
--- a/attic/inc/dbwy/gf.h++
+++ b/attic/inc/dbwy/gf.h++
@@ -79,6 +79,13 @@ namespace cmz
       int nLanIts = 1000,
       bool saveABtofile = false){
       
+      // A vanishing state has no Krylov space, and a vanishing resolvent
+      if(state_0.norm() == 0.)
+      {
+        gf.assign(freqs.size(), CompD(0.,0.));
+        return;
+      }
+
       //FIRST, WE HAVE TO COMPUTE THE LANCZOS alphas AND betas
       double tol = 1.E-6;
       VecD alphas, betas;
-- 
2.43.0


From f7326f0f08ca2e0697cf115604b176ab393adfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 61/69] fix: the attic's Davidson solvers returned NaN when the
 guess was an eigenvector

---
 attic/inc/dbwy/davidson.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 7a6dec4..ac89a1e 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -43,6 +43,13 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
 
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV.data(), N, V.data()+N);
+
+  // Nothing to expand with if the guess is an eigenvector already
+  {
+    const double lam = blas::dot(N, V.data(), 1, AV.data(), 1);
+    blas::axpy(N, -lam, V.data(), 1, V.data()+N, 1);
+    if( blas::nrm2(N, V.data()+N, 1) < tol ) return lam;
+  }
   gram_schmidt(N, 1, V.data(), N, V.data()+N);
 
 
@@ -260,6 +267,19 @@ double p_davidson( int64_t max_m,
 
   // Copy AV(:,0) -> V(:,1) and orthogonalize wrt V(:,0)
   std::copy_n(AV_local.data(), N_local, V_local.data()+N_local);
+
+  // Nothing to expand with if the guess is an eigenvector already
+  {
+    double lam = blas::dot( N_local, V_local.data(), 1, AV_local.data(), 1 );
+    MPI_Allreduce( MPI_IN_PLACE, &lam, 1, MPI_DOUBLE, MPI_SUM, comm );
+    blas::axpy( N_local, -lam, V_local.data(), 1, V_local.data()+N_local, 1 );
+    double res = blas::dot( N_local, V_local.data()+N_local, 1, V_local.data()+N_local, 1 );
+    MPI_Allreduce( MPI_IN_PLACE, &res, 1, MPI_DOUBLE, MPI_SUM, comm );
+    if( std::sqrt(res) < tol ) {
+      if( X_local ) std::copy_n( V_local.data(), N_local, X_local );
+      return lam;
+    }
+  }
   p_gram_schmidt(N_local, 1, V_local.data(), N_local, V_local.data()+N_local, comm);
 
   for( size_t i = 1; i < max_m; ++i ) {
-- 
2.43.0


From 5c5e485adb65ddf9ddc816521a025fb959ac1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:55 +0000
Subject: [PATCH 62/69] fix: wavefunctions written by the attic's selected-CI
 runs had no separator between coefficient and determinant

---
 attic/inc/dbwy/asci_body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index 1938091..bf69e92 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -338,7 +338,7 @@ auto run_asci_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << X_local[idet] << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
+       ofile << X_local[idet] << " " << w << dbwy::to_canonical_string( dets[idet] ) << std::endl; 
 
     ofile.close();
   }
@@ -492,7 +492,7 @@ auto run_ed_w_1rdm(
     auto w = std::setw(25);
 
     for( int idet = 0; idet < dets.size(); idet++ )
-       ofile << pairs[idet].coeff << w << pairs[idet].s << std::endl; 
+       ofile << pairs[idet].coeff << " " << w << pairs[idet].s << std::endl; 
 
     ofile.close();
   }
-- 
2.43.0


From 78018951e16651de813693e687396aaf30864bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:41 +0000
Subject: [PATCH 63/69] fix: the attic coupled determinants of different spin
 sectors with a diagonal matrix element

---
 attic/inc/dbwy/hamiltonian_generator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attic/inc/dbwy/hamiltonian_generator.hpp b/attic/inc/dbwy/hamiltonian_generator.hpp
index 93aa073..787b8c9 100644
--- a/attic/inc/dbwy/hamiltonian_generator.hpp
+++ b/attic/inc/dbwy/hamiltonian_generator.hpp
@@ -635,6 +635,9 @@ double HamiltonianGenerator<N>::matrix_element(
     return matrix_element_2( bra_beta, ket_beta, ex_beta, bra_occ_beta,
       bra_occ_alpha );
 
+  // Strings differing by an odd number of orbitals have other electron numbers
+  else if( ex_alpha_count or ex_beta_count ) return 0.;
+
   else return matrix_element_diag( bra_occ_alpha, bra_occ_beta );
 
 }
-- 
2.43.0


From 6bc753caa009acdf42f6b5bcb66a90a1ff5e1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:15 +0000
Subject: [PATCH 64/69] fix: Davidson broke down when the Ritz value met a
 diagonal element exactly

---
 include/macis/solvers/davidson.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 48bf519..635fd0c 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -223,7 +223,8 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
     for(auto j = 0; j < N; ++j) {
-      R[j] = -R[j] / (D[j] - LAM[0]);
+      const auto denom = D[j] - LAM[0];
+      if(denom) R[j] = -R[j] / denom;
     }
 
     // Project new vector out form old vectors
@@ -414,7 +415,8 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
     for(auto j = 0; j < N_local; ++j) {
-      R_local[j] = -R_local[j] / (D_local[j] - LAM[0]);
+      const auto denom = D_local[j] - LAM[0];
+      if(denom) R_local[j] = -R_local[j] / denom;
     }
 
     // Project new vector out form old vectors
-- 
2.43.0


From e1ce2958f0f50ab78de8726fe698b20eb62fd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:15 +0000
Subject: [PATCH 65/69] fix: the attic's Davidson solvers returned NaN when the
 Ritz value met a diagonal element exactly

---
 attic/inc/dbwy/davidson.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index ac89a1e..f397077 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -81,7 +81,8 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
     for( auto j = 0; j < N; ++j ) {
-      R[j] = - R[j] / (D[j] - LAM[0]);
+      const auto denom = D[j] - LAM[0];
+      if( denom ) R[j] = - R[j] / denom;
     }
 
     // Project new vector out form old vectors
@@ -338,7 +339,8 @@ double p_davidson( int64_t max_m,
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
     for( auto j = 0; j < N_local; ++j ) {
-      R_local[j] = - R_local[j] / (D_local[j] - LAM[0]);
+      const auto denom = D_local[j] - LAM[0];
+      if( denom ) R_local[j] = - R_local[j] / denom;
     }
 
     // Project new vector out form old vectors
-- 
2.43.0


From 8750f3b3138ee5a0ac3e7f5257a1fceec81a5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 66/69] fix: Davidson converged to a vanishing vector when the
 correction stayed inside the subspace

---
 include/macis/solvers/davidson.hpp | 33 ++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/macis/solvers/davidson.hpp b/include/macis/solvers/davidson.hpp
index 635fd0c..37c8908 100644
--- a/include/macis/solvers/davidson.hpp
+++ b/include/macis/solvers/davidson.hpp
@@ -125,6 +125,16 @@ inline void gram_schmidt(int64_t N, int64_t K, const double* V_old, int64_t LDV,
   blas::scal(N, 1. / nrm, V_new, 1);
 }
 
+// Check whether a vector has a component outside of an orthonormal basis
+inline bool expands_subspace(int64_t N, int64_t K, const double* V_old,
+                             int64_t LDV, const double* V_new) {
+  std::vector<double> inner(K);
+  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
+             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
+  const double dot = blas::dot(N, V_new, 1, V_new, 1);
+  return dot - blas::dot(K, inner.data(), 1, inner.data(), 1) > 1e-12 * dot;
+}
+
 template <typename Functor>
 auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
               double tol, double* X) {
@@ -222,11 +232,16 @@ auto davidson(int64_t N, int64_t max_m, const Functor& op, const double* D,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> residual(R, R + N);
     for(auto j = 0; j < N; ++j) {
       const auto denom = D[j] - LAM[0];
       if(denom) R[j] = -R[j] / denom;
     }
 
+    // Fall back to the residual if the correction adds nothing to the subspace
+    if(!expands_subspace(N, k, V.data(), N, R))
+      std::copy(residual.begin(), residual.end(), R);
+
     // Project new vector out form old vectors
     gram_schmidt(N, k, V.data(), N, R);
 
@@ -269,6 +284,19 @@ inline void p_gram_schmidt(int64_t N_local, int64_t K, const double* V_old,
   blas::scal(N_local, 1. / nrm, V_new, 1);
 }
 
+// Check whether a vector has a component outside of an orthonormal basis
+inline bool p_expands_subspace(int64_t N_local, int64_t K, const double* V_old,
+                               int64_t LDV, const double* V_new,
+                               MPI_Comm comm) {
+  std::vector<double> inner(K + 1);
+  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
+             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+  inner[K] = blas::dot(N_local, V_new, 1, V_new, 1);
+  allreduce(inner.data(), K + 1, MPI_SUM, comm);
+  const double dot = inner[K];
+  return dot - blas::dot(K, inner.data(), 1, inner.data(), 1) > 1e-12 * dot;
+}
+
 inline void p_rayleigh_ritz(int64_t N_local, int64_t K, const double* X,
                             int64_t LDX, const double* AX, int64_t LDAX,
                             double* W, double* C, int64_t LDC, MPI_Comm comm) {
@@ -414,11 +442,16 @@ auto p_davidson(int64_t N_local, int64_t max_m, const Functor& op,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> residual(R_local, R_local + N_local);
     for(auto j = 0; j < N_local; ++j) {
       const auto denom = D_local[j] - LAM[0];
       if(denom) R_local[j] = -R_local[j] / denom;
     }
 
+    // Fall back to the residual if the correction adds nothing to the subspace
+    if(!p_expands_subspace(N_local, k, V_local.data(), N_local, R_local, comm))
+      std::copy(residual.begin(), residual.end(), R_local);
+
     // Project new vector out form old vectors
     p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
 
-- 
2.43.0


From 2ea0caece757bb429b8425bf9b097a933f8224ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 67/69] fix: the attic's Davidson solvers converged to a
 vanishing vector when the correction stayed inside the subspace

---
 attic/inc/dbwy/davidson.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index f397077..78e2768 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -25,6 +25,16 @@ void gram_schmidt( int64_t N, int64_t K, const double* V_old, int64_t LDV,
 }  
 
 
+// Check whether a vector has a component outside of an orthonormal basis
+inline bool expands_subspace(int64_t N, int64_t K, const double* V_old,
+                             int64_t LDV, const double* V_new) {
+  std::vector<double> inner(K);
+  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
+             1, N, 1., V_old, LDV, V_new, N, 0., inner.data(), K);
+  const double dot = blas::dot(N, V_new, 1, V_new, 1);
+  return dot - blas::dot(K, inner.data(), 1, inner.data(), 1) > 1e-12 * dot;
+}
+
 double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, double tol ) {
 
   int64_t N = A.n();
@@ -80,11 +90,16 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> residual( R, R + N );
     for( auto j = 0; j < N; ++j ) {
       const auto denom = D[j] - LAM[0];
       if( denom ) R[j] = - R[j] / denom;
     }
 
+    // Fall back to the residual if the correction adds nothing to the subspace
+    if( !expands_subspace(N, k, V.data(), N, R) )
+      std::copy( residual.begin(), residual.end(), R );
+
     // Project new vector out form old vectors
     gram_schmidt(N, k, V.data(), N, R);
 
@@ -135,6 +150,19 @@ void p_gram_schmidt( int64_t N_local, int64_t K, const double* V_old, int64_t LD
 
 }  
 
+// Check whether a vector has a component outside of an orthonormal basis
+inline bool p_expands_subspace(int64_t N_local, int64_t K, const double* V_old,
+                               int64_t LDV, const double* V_new,
+                               MPI_Comm comm) {
+  std::vector<double> inner(K + 1);
+  blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans, K,
+             1, N_local, 1., V_old, LDV, V_new, N_local, 0., inner.data(), K);
+  inner[K] = blas::dot(N_local, V_new, 1, V_new, 1);
+  MPI_Allreduce( MPI_IN_PLACE, inner.data(), K + 1, MPI_DOUBLE, MPI_SUM, comm );
+  const double dot = inner[K];
+  return dot - blas::dot(K, inner.data(), 1, inner.data(), 1) > 1e-12 * dot;
+}
+
 void p_rayleigh_ritz( int64_t N_local, int64_t K, const double* X, int64_t LDX,
   const double* AX, int64_t LDAX, double* W, double* C, int64_t LDC, 
   MPI_Comm comm ) {
@@ -338,11 +366,16 @@ double p_davidson( int64_t max_m,
 
     // Compute new vector
     // (D - LAM(0)*I) * W = -R ==> W = -(D - LAM(0)*I)**-1 * R
+    const std::vector<double> residual( R_local, R_local + N_local );
     for( auto j = 0; j < N_local; ++j ) {
       const auto denom = D_local[j] - LAM[0];
       if( denom ) R_local[j] = - R_local[j] / denom;
     }
 
+    // Fall back to the residual if the correction adds nothing to the subspace
+    if( !p_expands_subspace(N_local, k, V_local.data(), N_local, R_local, comm) )
+      std::copy( residual.begin(), residual.end(), R_local );
+
     // Project new vector out form old vectors
     p_gram_schmidt(N_local, k, V_local.data(), N_local, R_local, comm);
 
-- 
2.43.0


From 4b2462727f02a537f18f7c6a3a64e1866511f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:06 +0000
Subject: [PATCH 68/69] fix: legacy runs from a wavefunction file return its
 energy and density matrix

---
 attic/inc/dbwy/asci_body.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/attic/inc/dbwy/asci_body.hpp b/attic/inc/dbwy/asci_body.hpp
index bf69e92..e3c67ac 100644
--- a/attic/inc/dbwy/asci_body.hpp
+++ b/attic/inc/dbwy/asci_body.hpp
@@ -286,9 +286,10 @@ auto run_asci_w_1rdm(
     auto E = dbwy::selected_ci_diag( dets.begin(), dets.end(), ham_gen,
       1e-12, 100, 1e-8, X_local, MPI_COMM_WORLD, quiet );
     print_asci( E );
-    if(!quiet)
-      std::cout << "**** MY PRINT ***" << std::endl;
-    ham_gen.matrix_element(dets[0], dets[1]);
+    Eret = E + ints.core_energy;
+    ordm.resize( norb*norb, 0. );
+    ham_gen.form_rdms( dets.begin(), dets.end(), dets.begin(), dets.end(),
+      X_local.data(), ordm.data() );
   } else {
   
   //  Run ASCI
@@ -450,9 +451,10 @@ auto run_ed_w_1rdm(
     auto E = dbwy::selected_ci_diag( dets.begin(), dets.end(), ham_gen,
       1e-12, 100, 1e-8, X_local, MPI_COMM_WORLD, quiet );
     print_ed( E );
-    if(!quiet)
-      std::cout << "**** MY PRINT ***" << std::endl;
-    ham_gen.matrix_element(dets[0], dets[1]);
+    Eret = E + ints.core_energy;
+    ordm.resize( norb*norb, 0. );
+    ham_gen.form_rdms( dets.begin(), dets.end(), dets.begin(), dets.end(),
+      X_local.data(), ordm.data() );
   } else {
   
   //  Run ED
-- 
2.43.0


From 81fd6fb193c49e6e25ad5a256817d6ee40193b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:06 +0000
Subject: [PATCH 69/69] fix: legacy Davidson returns the guess's energy when it
 has no subspace to expand

---
 attic/inc/dbwy/davidson.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attic/inc/dbwy/davidson.hpp b/attic/inc/dbwy/davidson.hpp
index 78e2768..9b491da 100644
--- a/attic/inc/dbwy/davidson.hpp
+++ b/attic/inc/dbwy/davidson.hpp
@@ -57,6 +57,7 @@ double davidson( int64_t max_m, const sparsexx::csr_matrix<double,int32_t>& A, d
   // Nothing to expand with if the guess is an eigenvector already
   {
     const double lam = blas::dot(N, V.data(), 1, AV.data(), 1);
+    LAM[0] = lam;
     blas::axpy(N, -lam, V.data(), 1, V.data()+N, 1);
     if( blas::nrm2(N, V.data()+N, 1) < tol ) return lam;
   }
@@ -301,6 +302,7 @@ double p_davidson( int64_t max_m,
   {
     double lam = blas::dot( N_local, V_local.data(), 1, AV_local.data(), 1 );
     MPI_Allreduce( MPI_IN_PLACE, &lam, 1, MPI_DOUBLE, MPI_SUM, comm );
+    LAM[0] = lam;
     blas::axpy( N_local, -lam, V_local.data(), 1, V_local.data()+N_local, 1 );
     double res = blas::dot( N_local, V_local.data()+N_local, 1, V_local.data()+N_local, 1 );
     MPI_Allreduce( MPI_IN_PLACE, &res, 1, MPI_DOUBLE, MPI_SUM, comm );
-- 
2.43.0

