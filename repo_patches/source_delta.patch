From 949810cc8f10e2d978506bd606895374e7e5a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:37 +0000
Subject: [PATCH 01/40] fix: copy self-assignment of DuoMatrix keeps its
 elements

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..82a301d 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -65,7 +65,9 @@ class DuoMatrix {
    * @param rhs A DuoMatrix instance.
    */
   DuoMatrix<ElemT> &operator=(const DuoMatrix<ElemT> &rhs) {
-    assert(this != &rhs);
+    if (this == &rhs) {
+      return *this;
+    }
     for (auto &row : raw_data_) {
       for (auto &elem : row) {
         if (elem != nullptr) {
-- 
2.43.0


From ff3de68b65570da142d979d7699ed1ce1eff9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:37 +0000
Subject: [PATCH 02/40] fix: DuoMatrix::has_alloc returns its answer (was void,
 could not be instantiated)

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 82a301d..4080b4f 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -240,7 +240,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) const {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From 62ff2389fcb36a28617143628a545bd593621bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 03/40] fix: CreatePath/EnsureDirectoryExists succeed exactly
 when the directory exists afterwards

---
 include/qlpeps/utility/filesystem_utils.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..2664c27 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -40,10 +40,12 @@ inline bool CreatePath(const std::string& path) {
   if (path.empty()) return false;
   
   try {
-    if (std::filesystem::exists(path)) return true;
+    if (std::filesystem::is_directory(path)) return true;
     
     std::cout << "Creating directory: " << path << std::endl;
-    return std::filesystem::create_directories(path);
+    // create_directories() also returns false when the last component already exists (e.g. "dir/")
+    std::filesystem::create_directories(path);
+    return std::filesystem::is_directory(path);
   } catch (const std::exception& e) {
     std::cerr << "Error creating directory " << path << ": " << e.what() << std::endl;
     return false;
@@ -55,11 +57,11 @@ inline bool CreatePath(const std::string& path) {
  * @param path The directory path
  * @return true if directory exists or was created successfully
  * 
- * This function combines IsPathExist and CreatePath into one operation,
+ * This function combines the directory check and CreatePath into one operation,
  * eliminating the common pattern: if(!IsPathExist(path)) CreatePath(path);
  */
 inline bool EnsureDirectoryExists(const std::string& path) {
-  return IsPathExist(path) || CreatePath(path);
+  return CreatePath(path);
 }
 
 } // namespace qlpeps
-- 
2.43.0


From cf306431e2038573c2becc85121896dedaf72dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:11 +0000
Subject: [PATCH 04/40] fix: SetPlateauPatience as first builder call keeps the
 common gradient tolerance default

---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From c5b5cfcca9fa2bc27298ace2c37ede656cc6bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:32 +0000
Subject: [PATCH 05/40] fix: GatherStatisticSingleData never returns a NaN
 standard error for (nearly) equal data

---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..cc0fdb8 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -262,11 +262,12 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     mean = sum / static_cast<RealT>(comm_size);
     
     if (comm_size > 1) {
+      // Sum the squared deviations: <|x|^2> - |<x>|^2 cancels and can turn negative, giving a NaN error.
       RealT sum_square = 0.0;
       for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
+        sum_square += static_cast<RealT>(std::norm(gather_data[i] - mean));
       }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
+      RealT variance = sum_square / static_cast<RealT>(comm_size);
       standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
 
       // Check if standard error is infinite and output warning with data
-- 
2.43.0


From 1ffdd6c32710f34aebe8ffadcd552120a4a38deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:56 +0000
Subject: [PATCH 06/40] fix: SplitIndexTPS arithmetic keeps the boundary
 condition of its operand

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 441f560..a9c3565 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -50,7 +50,7 @@ void SplitIndexTPS<TenElemT, QNT>::ForEachValidTensor_(Func&& func) {
 template<typename TenElemT, typename QNT>
 template<typename Func>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const SplitIndexTPS &right, Func&& func) const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
@@ -65,7 +65,7 @@ SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const
 
 template<typename TenElemT, typename QNT>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::CreateInitializedResult_() const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
-- 
2.43.0


From 8b9a7ad3f3e7b436c9379948e9c930579ec3277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:45 +0000
Subject: [PATCH 07/40] fix: SplitIndexTPS::GetAllInnerBondDimensions works on
 single-row and single-column lattices

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index a9c3565..24d0146 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -104,7 +104,7 @@ std::pair<size_t, size_t> SplitIndexTPS<TenElemT, QNT>::GetMinMaxBondDimension()
 template<typename TenElemT, typename QNT>
 std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() const {
   std::vector<size_t> bond_dims;
-  bond_dims.reserve(this->rows() * this->cols() - this->rows() - this->cols());
+  bond_dims.reserve(2 * this->rows() * this->cols());
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const Tensor &tensor = (*this)({row, col})[0];
-- 
2.43.0


From 367eeaa79759fc31b0aa581658bd1e8adf454223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:32 +0000
Subject: [PATCH 08/40] fix: bond-dimension uniformity ignores the dummy legs
 of single-row open lattices (SplitIndexTPS and TPS)

---
 .../two_dim_tn/tps/split_index_tps_impl.h     | 19 ++++---------------
 include/qlpeps/two_dim_tn/tps/tps_impl.h      |  4 +++-
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 24d0146..abd894d 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -8,6 +8,7 @@
 #ifndef QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 #define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 
+#include <algorithm>  // all_of
 #include <complex>    // real
 #include <cstring>    // memcpy
 #include <cstdint>    // uint64_t
@@ -123,21 +124,9 @@ std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() co
 
 template<typename TenElemT, typename QNT>
 bool SplitIndexTPS<TenElemT, QNT>::IsBondDimensionEven(void) const {
-  size_t d = (*this)({0, 0})[0].GetShape()[1];
-  for (size_t row = 0; row < this->rows(); ++row) {
-    for (size_t col = 0; col < this->cols(); ++col) {
-      const Tensor &tensor = (*this)({row, col})[0];
-      bool has_south = (row < this->rows() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_south && d != tensor.GetShape()[1]) {
-        return false;
-      }
-      bool has_east = (col < this->cols() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_east && d != tensor.GetShape()[2]) {
-        return false;
-      }
-    }
-  }
-  return true;
+  const std::vector<size_t> bond_dims = GetAllInnerBondDimensions();
+  return std::all_of(bond_dims.cbegin(), bond_dims.cend(),
+                     [&bond_dims](const size_t d) { return d == bond_dims.front(); });
 }
 
 /**
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 758a94c..cd9ff72 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -82,7 +82,9 @@ size_t TPS<TenElemT, QNT>::GetMaxBondDimension(void) const {
 ///< OBC
 template<typename TenElemT, typename QNT>
 bool TPS<TenElemT, QNT>::IsBondDimensionUniform(void) const {
-  size_t d = (*this)(0, 0)->GetShape()[1];
+  // A single-row lattice with open boundaries has only horizontal bonds; its vertical legs are dummies.
+  const bool no_vertical_bond = this->rows() == 1 && boundary_condition_ == BoundaryCondition::Open;
+  const size_t d = (*this)(0, 0)->GetShape()[no_vertical_bond ? 2 : 1];
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const TenT *tensor = (*this)(row, col);
-- 
2.43.0


From 42aa56c78d809bcd77ba3575e36836891ed7ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:38 +0000
Subject: [PATCH 09/40] fix: WaveFunctionSum keeps the sign or phase of its
 coefficients on every lattice

---
 include/qlpeps/two_dim_tn/tps/tps.h      |  3 +-
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 39 +++++++++++++-----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps.h b/include/qlpeps/two_dim_tn/tps/tps.h
index 2821c1b..060041c 100644
--- a/include/qlpeps/two_dim_tn/tps/tps.h
+++ b/include/qlpeps/two_dim_tn/tps/tps.h
@@ -180,7 +180,8 @@ TPS<TenElemT, QNT> WaveFunctionSum(
  * @return TPS representing \f$\alpha|\psi_1\rangle + \beta|\psi_2\rangle\f$
  *
  * @note The scaling is distributed across all sites to maintain numerical stability.
- *       Each site tensor is scaled by \f$\alpha^{1/N}\f$ or \f$\beta^{1/N}\f$ respectively.
+ *       Each site tensor is scaled by \f$|\alpha|^{1/N}\f$ or \f$|\beta|^{1/N}\f$ respectively;
+ *       the sign or complex phase is carried by the first site.
  */
 template<typename TenElemT, typename QNT>
 TPS<TenElemT, QNT> WaveFunctionSum(
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index cd9ff72..0d649a1 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -199,6 +199,23 @@ inline std::vector<size_t> GetExpandIndices_(
   }
   return expand_idx_nums;
 }
+
+/**
+ * @brief Scaling factor of one site tensor that distributes `coefficient` over N sites.
+ *
+ * Every site carries |coefficient|^(1/N); the sign (or complex phase), which has no
+ * N-th root for every N, is carried by the first site only. The product over all
+ * sites is exactly `coefficient`.
+ */
+template<typename TenElemT>
+inline TenElemT SiteScaleFactor_(const TenElemT coefficient, const size_t N, const bool is_first_site) {
+  const double abs_coefficient = std::abs(coefficient);
+  const TenElemT scale = TenElemT(std::pow(abs_coefficient, 1.0 / N));
+  if (is_first_site && abs_coefficient > 0.0) {
+    return scale * (coefficient / abs_coefficient);
+  }
+  return scale;
+}
 } // namespace detail
 
 template<typename TenElemT, typename QNT>
@@ -264,26 +281,13 @@ TPS<TenElemT, QNT> WaveFunctionSum(
   const size_t N = rows * cols;
   const BoundaryCondition bc = tps1.GetBoundaryCondition();
   
-  // Compute per-site scaling factors: alpha^(1/N), beta^(1/N)
-  // For complex numbers, use principal root
-  double alpha_scale, beta_scale;
-  if constexpr (std::is_same_v<TenElemT, double>) {
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-    if (alpha < 0 && N % 2 == 1) alpha_scale = -alpha_scale;
-    if (beta < 0 && N % 2 == 1) beta_scale = -beta_scale;
-  } else {
-    // Complex case: use magnitude
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-  }
-  
   TPS<TenElemT, QNT> result(rows, cols, bc);
   
   for (size_t row = 0; row < rows; ++row) {
     for (size_t col = 0; col < cols; ++col) {
-      TenT ten1_scaled = *tps1(row, col) * TenElemT(alpha_scale);
-      TenT ten2_scaled = *tps2(row, col) * TenElemT(beta_scale);
+      const bool is_first_site = (row == 0 && col == 0);
+      TenT ten1_scaled = *tps1(row, col) * detail::SiteScaleFactor_(alpha, N, is_first_site);
+      TenT ten2_scaled = *tps2(row, col) * detail::SiteScaleFactor_(beta, N, is_first_site);
       
       std::vector<size_t> expand_idx_nums = 
           detail::GetExpandIndices_(row, col, rows, cols, bc);
@@ -317,10 +321,9 @@ TPS<TenElemT, QNT> WaveFunctionSum(
       // Scale by coefficient (distributed across sites)
       TPS<TenElemT, QNT> result = tps_list[0];
       const size_t N = result.rows() * result.cols();
-      double scale = std::pow(std::abs(coefficients[0]), 1.0 / N);
       for (size_t row = 0; row < result.rows(); ++row) {
         for (size_t col = 0; col < result.cols(); ++col) {
-          result({row, col}) *= TenElemT(scale);
+          result({row, col}) *= detail::SiteScaleFactor_(coefficients[0], N, row == 0 && col == 0);
         }
       }
       return result;
-- 
2.43.0


From 48fdd9a5e07bdb546b3d671e144937d611ea49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:38 +0000
Subject: [PATCH 10/40] fix: TenMatrix::DumpTen reports a failed flush/close
 and then keeps the tensor in memory

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..f2a74f4 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -103,7 +103,10 @@ class TenMatrix : public DuoMatrix<TenT> {
     if (!ofs) {
       return false; // Failed to write the tensor to the file
     }
-    ofs.close();
+    ofs.close(); // flushes the buffered data
+    if (!ofs) {
+      return false; // Failed to write the buffered data to the file
+    }
     return true; // Successfully dumped the tensor
   }
 
@@ -124,7 +127,10 @@ class TenMatrix : public DuoMatrix<TenT> {
     if (!ofs) {
       return false; // Failed to write the tensor to the file
     }
-    ofs.close();
+    ofs.close(); // flushes the buffered data
+    if (!ofs) {
+      return false; // Failed to write the buffered data to the file
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
-- 
2.43.0


From d0866a61b455ecdebab1d54c25745dea82f13a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 11/40] fix: SplitIndexTPS::Dump reports a tensor that could
 not be written and does not release it

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index abd894d..c34e21d 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -265,7 +265,10 @@ bool SplitIndexTPS<TenElemT, QNT>::DumpTen(const size_t row,
   if (!ofs) {
     return false; // Failed to write the tensor to the file
   }
-  ofs.close();
+  ofs.close(); // flushes the buffered data
+  if (!ofs) {
+    return false; // Failed to write the buffered data to the file
+  }
   return true; // Successfully dumped the tensor
 }
 
@@ -295,7 +298,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
         file = GenSplitIndexTPSTenName(tps_path, row, col, compt);
-        this->DumpTen(row, col, compt, file);
+        if (!this->DumpTen(row, col, compt, file)) {
+          throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+        }
       }
       if (release_mem) {
         this->dealloc(row, col);
-- 
2.43.0


From 8f54a1f1865f9fb4498dbfe0d63c7476d159846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 12/40] fix: SplitIndexTPS::Load rejects metadata that does not
 parse or names no boundary condition

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index c34e21d..0d591c4 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -339,12 +339,14 @@ bool SplitIndexTPS<TenElemT, QNT>::Load(const std::string &tps_path) {
     size_t rows = 0, cols = 0;
     int bc_int = 0;
     ifs >> rows >> cols >> phy_dim;
-    if (ifs >> bc_int) {
-        // has bc info
-    } else {
-        ifs.clear(); // Reset error state if EOF reached
+    if (!ifs.fail() && !(ifs >> bc_int) && ifs.eof()) {
+        ifs.clear(); // legacy metadata without boundary condition
         bc_int = static_cast<int>(BoundaryCondition::Open);
     }
+    if (bc_int != static_cast<int>(BoundaryCondition::Open) &&
+        bc_int != static_cast<int>(BoundaryCondition::Periodic)) {
+        ifs.setstate(std::ios_base::failbit); // not a boundary condition
+    }
 
     if (ifs.fail()) {
 #ifndef NDEBUG
-- 
2.43.0


From cd1152525057389d0cf790eb835b2b64357be2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 13/40] fix: TPS::Dump reports metadata or tensors that could
 not be written

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 0d649a1..91a3359 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -108,15 +108,19 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
   {
     std::string meta_file = tps_path + "/tps_meta.txt";
     std::ofstream ofs(meta_file);
-    if (ofs) {
-      ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs << this->rows() << " " << this->cols() << " " << static_cast<int>(boundary_condition_) << std::endl;
+    ofs.close();
+    if (!ofs) {
+      throw std::ios_base::failure("Failed to write metadata file: " + meta_file);
     }
   }
   std::string file;
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       file = GenTPSTenName(tps_path, row, col);
-      this->DumpTen(row, col, file, release_mem);
+      if (!this->DumpTen(row, col, file, release_mem)) {
+        throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+      }
     }
   }
 }
-- 
2.43.0


From 4df4edb74c5d1c5bf39b414ac1c5e0d14b236d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 14/40] fix: TPS::Load fails on truncated or corrupt metadata
 instead of guessing the shape

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 91a3359..a9d3509 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -133,12 +133,14 @@ bool TPS<TenElemT, QNT>::Load(const std::string &tps_path) {
     size_t r, c;
     int bc_int;
     ifs >> r >> c >> bc_int;
-    if (ifs) {
-      if (r != this->rows() || c != this->cols()) {
-         *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
-      } else {
-         boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
-      }
+    if (!ifs || (bc_int != static_cast<int>(BoundaryCondition::Open) &&
+                 bc_int != static_cast<int>(BoundaryCondition::Periodic))) {
+      return false; // corrupted metadata
+    }
+    if (r != this->rows() || c != this->cols()) {
+      *this = TPS<TenElemT, QNT>(r, c, static_cast<BoundaryCondition>(bc_int));
+    } else {
+      boundary_condition_ = static_cast<BoundaryCondition>(bc_int);
     }
   }
 
-- 
2.43.0


From c53e7242ef87dd9bea01778cad28c3ca24eb815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 15/40] fix: SquareLatticePEPS::Dump on a const object writes
 into the directory Load reads from

---
 .../qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index debc724..538c85c 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -400,7 +400,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   EnsureDirectoryExists(path);
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-      std::string filename = path + "gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!Gamma.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump Gamma tensor
@@ -410,7 +410,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_vert.rows(); ++row) {
     for (size_t col = 0; col < lambda_vert.cols(); ++col) {
-      std::string filename = path + "lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_vert.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_vert tensor
@@ -420,7 +420,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_horiz.rows(); ++row) {
     for (size_t col = 0; col < lambda_horiz.cols(); ++col) {
-      std::string filename = path + "lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_horiz.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_horiz tensor
-- 
2.43.0


From df72341445107a5e015ceaf7c86fe90d26972978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 16/40] fix: Configuration::Dump removes a shape sidecar it
 could not write, so the saved data still loads

---
 include/qlpeps/vmc_basic/configuration.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index ada76dd..a377083 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -9,6 +9,7 @@
 
 #include <random>
 #include <algorithm>
+#include <cstdio>
 #include <fstream>
 #include <iostream>
 #include <map>
@@ -306,6 +307,10 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
       sofs << this->rows() << " " << this->cols() << "\n";
       sofs.close();
     }
+    if (sofs.fail()) {
+      // An incomplete or outdated sidecar would make Load() reject the valid data file.
+      std::remove(shape_file.c_str());
+    }
   }
 
   /// @brief Save configuration to a specific file name (no label involved)
-- 
2.43.0


From 77ed77e6878e3e794c1780d480ed3c5b0c1276b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:57 +0000
Subject: [PATCH 17/40] fix: Configuration::Load rejects a file that holds more
 sites than the lattice

---
 include/qlpeps/vmc_basic/configuration.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index a377083..58604b7 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -392,6 +392,12 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
       ifs.close();
       return false;
     }
+    // Without a shape sidecar, left-over data is the only sign of a differently shaped configuration.
+    ifs >> std::ws;
+    if (!ifs.eof()) {
+      ifs.close();
+      return false;
+    }
     ifs.close();
     return true;
   }
-- 
2.43.0


From 67c255af0a4834694d29ec030dcbbcd362085708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:33 +0000
Subject: [PATCH 18/40] fix: CG on large-scale complex systems does not mistake
 round-off for an indefinite matrix

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..9bab842 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -144,7 +144,8 @@ inline bool pap_is_valid(double pap) {
 }
 
 inline bool pap_is_valid(std::complex<double> pap) {
-  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10;
+  // The imaginary part is round-off; its size follows the scale of pap.
+  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10 * std::max(1.0, pap.real());
 }
 
 inline double real_part(double x) { return x; }
-- 
2.43.0


From 64e42e8ff4553eb27320b48e5ded25d7f1953e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:33 +0000
Subject: [PATCH 19/40] fix: CG reports a NaN operator product as numerical
 breakdown, not as an indefinite matrix

---
 include/qlpeps/utility/conjugate_gradient_solver.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 9bab842..78957d3 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -214,6 +214,9 @@ CGResult<VectorType> ConjugateGradientSolver(
     double rk_2norm = rkp1_2norm;
     VectorType ap = matrix_a * p;
     auto pap = p * ap;
+    if (std::isnan(detail::abs_sq(pap))) {
+      return {best_x, std::sqrt(best_residual_norm_sq), k, CGTerminationReason::kNumericalBreakdown};
+    }
     if (!detail::pap_is_valid(pap)) {
       return {best_x, std::sqrt(best_residual_norm_sq), k, CGTerminationReason::kIndefiniteMatrix};
     }
@@ -451,6 +454,10 @@ CGResult<VectorType> ConjugateGradientSolverMaster(
     MasterBroadcastInstruction(multiplication, comm);
     VectorType ap = MatrixMultiplyVectorMaster(matrix_a, p, comm);
     auto pap = (p * ap);
+    if (std::isnan(detail::abs_sq(pap))) {
+      MasterBroadcastInstruction(finish, comm);
+      return {best_x, std::sqrt(best_residual_norm_sq), k, CGTerminationReason::kNumericalBreakdown};
+    }
     if (!detail::pap_is_valid(pap)) {
       MasterBroadcastInstruction(finish, comm);
       return {best_x, std::sqrt(best_residual_norm_sq), k, CGTerminationReason::kIndefiniteMatrix};
-- 
2.43.0


From be19c1c11c7c9fadfe539629d9d1eb823d9ae6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:47 +0000
Subject: [PATCH 20/40] fix: an energy spike with no state left to roll back to
 no longer retries forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..a695eff 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,10 +736,17 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without a previous state there is nothing to roll back to; retrying
+            // the same state could repeat forever, so accept with a warning.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
         if (action == SpikeAction::kRollback) {
           if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
             LogSpikeEvent_(iter, attempts, signal, action,
-- 
2.43.0


From 3c095a6effe0cdbc733dfe59aeb125f99a565b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:47 +0000
Subject: [PATCH 21/40] fix: a step-size selection is kept only when its step
 is accepted

---
 include/qlpeps/optimizer/optimizer_impl.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index a695eff..948f403 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -531,12 +531,13 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
                       << selector_base_lr << " -> " << selected_eta << std::endl;
           }
         }
+        // The selection is written back to selector_base_lr only when the step is
+        // accepted, so that a resampled or rolled-back step is not halved twice.
         if (initial_selector_triggered) {
-          selector_base_lr = selected_eta;
+          learning_rate = selected_eta;
         } else {
-          selector_base_lr = std::min(selector_base_lr, selected_eta);
+          learning_rate = std::min(selector_base_lr, selected_eta);
         }
-        learning_rate = selector_base_lr;
         effective_learning_rate = learning_rate;
         selector_time = selector_timer.Elapsed();
       }
@@ -770,6 +771,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
       }
 
       // === E: ACCEPT — update EMA trackers (only on accepted steps) ===
+      if (selector_triggered) {
+        selector_base_lr = learning_rate;
+      }
       if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
         ema_energy_.Update(std::real(current_energy));
         ema_error_.Update(current_error);
-- 
2.43.0


From 865270585feb2505ac652efc0e4b64e336633b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:47 +0000
Subject: [PATCH 22/40] fix: a retried step does not advance the learning-rate
 scheduler

---
 include/qlpeps/optimizer/optimizer_impl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 948f403..0334565 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -38,6 +38,7 @@
 #include <cstdlib>
 #include <filesystem>
 #include <fstream>
+#include <optional>
 #include <stdexcept>
 #include <string>
 #include "qlpeps/optimizer/optimizer.h"
@@ -206,6 +207,8 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
   for (size_t iter = 0; iter < params_.base_params.max_iterations && !done; ++iter) {
     bool step_accepted = false;
     size_t attempts = 0;
+    // Queried once per iteration: a retried step must not advance a stateful scheduler.
+    std::optional<double> scheduled_learning_rate;
     bool lbfgs_history_updated_this_iter = false;
     std::deque<LBFGSHistoryPair> lbfgs_iter_start_history;
     WaveFunctionT lbfgs_iter_start_anchor_state;
@@ -297,9 +300,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
       }
 
       // === C: Compute learning rate and optimization update ===
-      double learning_rate = any_selector_enabled
-          ? selector_base_lr
-          : GetCurrentLearningRate(iter, (iter == 0) ? std::real(current_energy) : previous_energy);
+      if (!any_selector_enabled && !scheduled_learning_rate) {
+        scheduled_learning_rate =
+            GetCurrentLearningRate(iter, (iter == 0) ? std::real(current_energy) : previous_energy);
+      }
+      double learning_rate = any_selector_enabled ? selector_base_lr : *scheduled_learning_rate;
       double effective_learning_rate = learning_rate;
 
       Timer update_timer("optimization_update");
-- 
2.43.0


From 6b36c820e5ba44a815651ab91fb2d5dc4e11a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:47 +0000
Subject: [PATCH 23/40] fix: the iteration that converges is reported to
 on_iteration as well

---
 include/qlpeps/optimizer/optimizer_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 0334565..8aea09d 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -842,6 +842,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
             }
             result.converged = true;
           }
+          if (callback.on_iteration) {
+            callback.on_iteration(iter, current_energy_real, current_error, grad_norm);
+          }
           step_accepted = true;
           done = true;
           break;
-- 
2.43.0


From 5a95ae914f1f0db06f9b322d3ab0fda5154aa852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:47 +0000
Subject: [PATCH 24/40] fix: a checkpoint whose metadata cannot be written is
 not reported as saved

---
 include/qlpeps/optimizer/optimizer_impl.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 8aea09d..1c3f89c 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -2014,14 +2014,16 @@ void Optimizer<TenElemT, QNT>::SaveCheckpoint_(
       // Write metadata
       std::string meta_path = dir + "/checkpoint_meta.txt";
       std::ofstream meta(meta_path);
-      if (meta) {
-        meta << "step " << step << "\n";
-        if (!energy_traj.empty()) {
-          meta << "energy " << std::setprecision(17) << std::real(energy_traj.back()) << "\n";
-        }
-        if (!error_traj.empty()) {
-          meta << "error " << std::setprecision(17) << error_traj.back() << "\n";
-        }
+      meta << "step " << step << "\n";
+      if (!energy_traj.empty()) {
+        meta << "energy " << std::setprecision(17) << std::real(energy_traj.back()) << "\n";
+      }
+      if (!error_traj.empty()) {
+        meta << "error " << std::setprecision(17) << error_traj.back() << "\n";
+      }
+      meta.close();
+      if (!meta) {
+        throw std::runtime_error("Failed to write checkpoint metadata file '" + meta_path + "'");
       }
 
       WriteTrajectoryCsv_(dir + "/trajectory_snapshot.csv", energy_traj, error_traj);
-- 
2.43.0


From 3dc23feb442c1b55fc54b9fbaf268d5e7a5d047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:07 +0000
Subject: [PATCH 25/40] fix: JSONL log lines stay valid JSON when a value is
 NaN or infinite

---
 include/qlpeps/optimizer/optimizer_impl.h | 32 ++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 1c3f89c..c5b90f3 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -1744,26 +1744,40 @@ template<typename TenElemT, typename QNT>
 void Optimizer<TenElemT, QNT>::WriteJsonlRecord_(std::ofstream &ofs, const IterationRecord &rec) {
   if (!ofs.is_open()) return;
 
+  // JSON has no representation for NaN/Inf; such values are written as null.
+  auto put = [&ofs](double value) {
+    if (std::isfinite(value)) {
+      ofs << value;
+    } else {
+      ofs << "null";
+    }
+  };
+
   // Manual JSON formatting — no external library dependency.
   // Use full double precision for energy/error, reasonable precision elsewhere.
-  ofs << "{\"iter\":" << rec.iteration
-      << ",\"energy\":" << std::setprecision(17) << rec.energy
-      << ",\"energy_error\":" << std::setprecision(6) << rec.energy_error
-      << ",\"grad_norm\":" << std::setprecision(6) << rec.gradient_norm
-      << ",\"lr\":" << std::setprecision(6) << rec.learning_rate;
+  ofs << "{\"iter\":" << rec.iteration << ",\"energy\":" << std::setprecision(17);
+  put(rec.energy);
+  ofs << ",\"energy_error\":" << std::setprecision(6);
+  put(rec.energy_error);
+  ofs << ",\"grad_norm\":";
+  put(rec.gradient_norm);
+  ofs << ",\"lr\":";
+  put(rec.learning_rate);
 
   // Accept rates array
   ofs << ",\"accept_rates\":[";
   for (size_t i = 0; i < rec.accept_rates.size(); ++i) {
     if (i > 0) ofs << ",";
-    ofs << std::setprecision(4) << rec.accept_rates[i];
+    ofs << std::setprecision(4);
+    put(rec.accept_rates[i]);
   }
   ofs << "]";
 
   // SR fields
-  ofs << ",\"sr_iters\":" << rec.sr_iterations
-      << ",\"sr_ngrad_norm\":" << std::setprecision(6) << rec.sr_natural_grad_norm
-      << ",\"sr_residual\":" << std::setprecision(6) << rec.sr_residual_norm;
+  ofs << ",\"sr_iters\":" << rec.sr_iterations << ",\"sr_ngrad_norm\":" << std::setprecision(6);
+  put(rec.sr_natural_grad_norm);
+  ofs << ",\"sr_residual\":";
+  put(rec.sr_residual_norm);
 
   // Timing
   ofs << ",\"eval_t\":" << std::setprecision(2) << std::fixed << rec.eval_time
-- 
2.43.0


From bd0d8754960e41ed6da19feb29f6e1474199145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:22 +0000
Subject: [PATCH 26/40] fix: TRGContractor::Trace after ClearCache() no longer
 indexes an empty scale list

---
 .../two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
index c2b1b34..a79d2a1 100644
--- a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
+++ b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
@@ -574,6 +574,12 @@ TenElemT TRGContractor<TenElemT, QNT>::Trace(const TensorNetwork2D<TenElemT, QNT
     return ComputeFinalAmplitude_();
   }
 
+  // ClearCache() drops the scales as a whole; rebuild the (tensor-free) topology before loading.
+  if (scales_.empty()) {
+    BuildScale0GraphPBCSquare_();
+    BuildTopology_();
+  }
+
   // Full initialization
   const size_t N = rows_ * cols_;
   for (uint32_t i = 0; i < N; ++i) {
-- 
2.43.0


From 5bb78920d242dd3582bff56c1ee3145415bca630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:30 +0000
Subject: [PATCH 27/40] fix: SpSm_cross regrows the lower boundaries the bond
 traversal consumed

---
 .../model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h  | 4 ++++
 .../vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
index 7f2fa8a..8f2ab82 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
@@ -117,6 +117,10 @@ class SpinOneHalfTriHeisenbergSqrPEPS :
     
     // Expensive S+S- Structure Factor (controlled by flag)
     tps_sample->contractor.SetTruncateParams(tps_sample->trun_para);
+    if (this->IsStructureFactorEnabled()) {
+      // The bond traversal consumed the DOWN boundaries; the structure factor needs all of them.
+      tps_sample->contractor.GrowFullBMPS(tps_sample->tn, DOWN);
+    }
     this->MeasureStructureFactor(tps_sample->tn, split_index_tps, tps_sample->contractor, tps_sample->config, out);
 
     // Keep legacy public API: this model historically exposed only the interacting diagonal as bond_energy_ur.
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
index 2028328..e4ecb82 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/square_spin_onehalf_xxz_obc.h
@@ -239,6 +239,8 @@ class SquareSpinOneHalfXXZModelOBC
     if (this->IsStructureFactorEnabled()) {
       const auto& trunc_para = tps_sample->trun_para;
       tps_sample->contractor.SetTruncateParams(trunc_para);
+      // The bond traversal consumed the DOWN boundaries; the structure factor needs all of them.
+      tps_sample->contractor.GrowFullBMPS(tps_sample->tn, DOWN);
       this->MeasureStructureFactor(
           tps_sample->tn,
           split_index_tps,
-- 
2.43.0


From a8dd3c03c749447aaa66d79b03180df7678a9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:30 +0000
Subject: [PATCH 28/40] fix: triangular J1-J2 measurement counts every J2 bond
 with the environment of that bond

---
 ..._onehalf_triangle_heisenbergJ1J2_sqrpeps.h | 43 ++++++++++++-------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 79da7cf..3d86195 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -169,8 +169,6 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
         // Triangular J1 diagonal (↘)
         contractor.InitBTen2(tn, LEFT, row);
         contractor.GrowFullBTen2(tn, RIGHT, row, 2, true);
-        auto psi2 = contractor.Trace(tn, {row, 0}, HORIZONTAL);
-        auto inv_psi2 = TenElemT(1.0) / psi2;
         for (size_t col = 0; col + 1 < lx; ++col) {
           const SiteIdx ld{row + 1, col};
           const SiteIdx ru{row, col + 1};
@@ -181,26 +179,39 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
                                                      (*split_index_tps)(ld)[config(ru)],
                                                      (*split_index_tps)(ru)[config(ld)]);
-            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
           }
           if (e_ur.size() != 0) {
             e_ur(row, col) = eb;
           }
           energy_total += eb;
-          if (col + 2 < lx) contractor.ShiftBTen2Window(tn, RIGHT, row);
-        }
 
-        // J2 contribution on the same row window (left-up to right-down)
-        for (size_t col = 0; col + 1 < lx; ++col) {
-          SiteIdx s1{row, col};
-          SiteIdx s2{row + 1, col + 1};
-          if (config(s1) == config(s2)) {
-            energy_j2_total += TenElemT(0.25);
-          } else {
-            TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
-                                                     (*split_index_tps)(s1)[config(s2)],
-                                                     (*split_index_tps)(s2)[config(s1)]);
-            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+          // J2 contribution on the same window (left-up to right-down)
+          {
+            const SiteIdx s1{row, col};
+            const SiteIdx s2{row + 1, col + 1};
+            if (config(s1) == config(s2)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
+                                                       (*split_index_tps)(s1)[config(s2)],
+                                                       (*split_index_tps)(s2)[config(s1)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
+          }
+          // J2 horizontal window (sqrt(5) separation)
+          if (col + 2 < lx) {
+            const SiteIdx s1{row + 1, col};
+            const SiteIdx s2{row, col + 2};
+            if (config(s1) == config(s2)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceSqrt5DistTwoSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
+                                                                (*split_index_tps)(s1)[config(s2)],
+                                                                (*split_index_tps)(s2)[config(s1)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
+            contractor.ShiftBTen2Window(tn, RIGHT, row);
           }
         }
         contractor.ShiftBMPSWindow(tn, DOWN);
-- 
2.43.0


From da4c45018cc5a22a9b201a5262f3ec17c9e7f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:30 +0000
Subject: [PATCH 29/40] fix: triangular J1-J2 model works on lattices with two
 rows

---
 .../spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 3d86195..681338b 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -246,7 +246,7 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       // J2 vertical window (sqrt(5) separation)
-      if (col + 1 < lx) {
+      if (col + 1 < lx && ly > 2) {
         contractor.InitBTen2(tn, UP, col);
         contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
         for (size_t row = 0; row + 2 < ly; ++row) {
@@ -431,7 +431,7 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
         contractor.ShiftBTenWindow(tn, DOWN);
       }
     }
-    if (col < tn.cols() - 1) {
+    if (col < tn.cols() - 1 && tn.rows() > 2) {
       contractor.InitBTen2(tn, UP, col);
       contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
       //Calculate J2 energy contribution
@@ -452,6 +452,8 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
           contractor.ShiftBTen2Window(tn, DOWN, col);
         }
       }
+    }
+    if (col < tn.cols() - 1) {
       contractor.ShiftBMPSWindow(tn, RIGHT);
     }
   }
-- 
2.43.0


From daf0594c3ca27c091d07f5846367b781cdae6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:16 +0000
Subject: [PATCH 30/40] fix: MonteCarloEngine and MCEnergyGradEvaluator keep
 the communicator handle, not a reference to the caller's

---
 include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h | 2 +-
 include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
index d8ee007..cca332d 100644
--- a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
+++ b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
@@ -421,7 +421,7 @@ class MCEnergyGradEvaluator {
 
   MonteCarloEngine<TenElemT, QNT, MonteCarloSweepUpdater, ContractorT> &engine_;
   EnergySolver &solver_;
-  const MPI_Comm &comm_;
+  const MPI_Comm comm_;
   bool collect_sr_buffers_;
   size_t reserved_samples_ = 0;
   PsiConsistencyWarningParams psi_warning_params_{};
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
index 91ada8c..bdf22b0 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
@@ -561,7 +561,7 @@ class MonteCarloEngine {
   size_t lx_;
   size_t ly_;
   WaveFunctionComponentT tps_sample_;
-  const MPI_Comm &comm_;
+  const MPI_Comm comm_;
   int rank_;
   int mpi_size_;
   MonteCarloSweepUpdater mc_sweep_updater_;
-- 
2.43.0


From 6053aea35be655d43ecbbb7672f1a38a8f996ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:16 +0000
Subject: [PATCH 31/40] fix: measurement gathers observables in the same order
 on every rank

---
 .../vmc_update/monte_carlo_peps_measurer_impl.h      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 97fb9db..e52bb4f 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -8,6 +8,7 @@
 #ifndef QLPEPS_ALGORITHM_VMC_UPDATE_MONTE_CARLO_MEASUREMENT_IMPL_H
 #define QLPEPS_ALGORITHM_VMC_UPDATE_MONTE_CARLO_MEASUREMENT_IMPL_H
 
+#include <algorithm>
 #include <complex>
 #include <fstream>
 #include <iomanip>
@@ -245,10 +246,15 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
   // Aggregate registry-based observables
   auto local_registry = sample_data_.StatisticRegistry();
+  // The iteration order of an unordered_map depends on the insertion history, which may differ
+  // between ranks. Gather the keys in sorted order so that every rank contributes the same observable.
+  std::vector<std::string> keys;
+  keys.reserve(local_registry.size());
+  for (const auto &kv : local_registry) { keys.push_back(kv.first); }
+  std::sort(keys.begin(), keys.end());
   // Then gather all keys into registry_stats_
-  for (const auto &kv : local_registry) {
-    const std::string &key = kv.first;
-    const std::vector<TenElemT> &local_mean = kv.second.first;
+  for (const std::string &key : keys) {
+    const std::vector<TenElemT> &local_mean = local_registry.at(key).first;
     std::vector<TenElemT> global_mean;
     std::vector<double> global_stderr;
     GatherStatisticListOfData(local_mean, engine_.Comm(), global_mean, global_stderr);
-- 
2.43.0


From 2e7e72c6f6fadcaa998d9f7955130646c2ebb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:16 +0000
Subject: [PATCH 32/40] fix: ReplicaTest works with fewer than ten samples per
 rank

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index e52bb4f..e0e7ded 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -115,6 +115,9 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   overlaps.reserve(engine_.SamplesPerRank());
   //  std::cout << "Random number from worker " << rank_ << " : " << u_double_(random_engine) << std::endl;
   std::vector<double> accept_rates_accum;
+  const size_t print_bar_length = (engine_.SamplesPerRank() / 10) > 0
+                                    ? (engine_.SamplesPerRank() / 10)
+                                    : 1;
   for (size_t sweep = 0; sweep < engine_.SamplesPerRank(); sweep++) {
     std::vector<double> accept_rates = engine_.StepSweep();
     if (sweep == 0) {
@@ -140,8 +143,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     // calculate overlap
     overlaps.push_back(overlap_func(engine_.WavefuncComp().config, config2));
-    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % (engine_.SamplesPerRank() /
-      10) == 0) {
+    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_bar_length == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
 
       auto accept_rates_avg = accept_rates_accum;
-- 
2.43.0


From fa88621f001549de5b72b65d132a871f87accb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:16 +0000
Subject: [PATCH 33/40] fix: triangular Heisenberg SpSm_cross is described as a
 flat list, so it can be dumped

---
 .../model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
index 8f2ab82..575949e 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenberg_sqrpeps.h
@@ -178,7 +178,7 @@ class SpinOneHalfTriHeisenbergSqrPEPS :
     desc.push_back({"SpSm_row", "Row Sp(i)Sm(j) along middle row (flat)", {row_corr_len}, {"segment"}});
     desc.push_back({"SzSz_all2all", "All-to-all SzSz correlations (upper-tri packed)", {site_num * (site_num + 1) / 2},
                     {"pair_packed_upper_tri"}});
-    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {0}, {"y1", "x1", "y2", "x2", "val"}});
+    desc.push_back({"SpSm_cross", "All-to-all SpSm structure factor correlations (sparse format)", {}, {"y1", "x1", "y2", "x2", "val"}});
     return desc;
   }
 
-- 
2.43.0


From 15b404606071a60acf85a4fff9458368acae91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:33 +0000
Subject: [PATCH 34/40] fix: weight on-site terms by the true coordination
 number on single-row and single-column lattices

---
 .../simple_update/square_lattice_nn_simple_update.h  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index b805a2f..3b3da2f 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -223,7 +223,11 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
       size_t coord_num1 = 4;
       size_t coord_num2 = 4;
       if (!is_pbc) {
-        if (row == 0 || row == this->ly_ - 1) {
+        if (row == 0) {
+          coord_num1 -= 1;
+          coord_num2 -= 1;
+        }
+        if (row == this->ly_ - 1) { // not exclusive: both edges when there is a single row
           coord_num1 -= 1;
           coord_num2 -= 1;
         }
@@ -254,7 +258,11 @@ void SquareLatticeNNSimpleUpdateExecutor<TenElemT, QNT>::SetEvolveGate_() {
       size_t coord_num1 = 4;
       size_t coord_num2 = 4;
       if (!is_pbc) {
-        if (col == 0 || col == this->lx_ - 1) {
+        if (col == 0) {
+          coord_num1 -= 1;
+          coord_num2 -= 1;
+        }
+        if (col == this->lx_ - 1) { // not exclusive: both edges when there is a single column
           coord_num1 -= 1;
           coord_num2 -= 1;
         }
-- 
2.43.0


From 43861143af3363b378b43f3301a5588e09f22c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:33 +0000
Subject: [PATCH 35/40] fix: accept the empty vertical bond grid of a
 single-row lattice in the per-bond simple update

---
 .../algorithm/simple_update/square_lattice_nn_simple_update.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
index 3b3da2f..ba8e831 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nn_simple_update.h
@@ -95,7 +95,9 @@ class SquareLatticeNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElemT
           + "), got (" + std::to_string(horizontal_nn_hams.rows()) + ", "
           + std::to_string(horizontal_nn_hams.cols()) + ")");
     }
-    if (vertical_nn_hams.rows() != expected_ver_rows || vertical_nn_hams.cols() != this->lx_) {
+    // a grid without rows (single-row open lattice) reports no columns either
+    if (vertical_nn_hams.rows() != expected_ver_rows
+        || (expected_ver_rows > 0 && vertical_nn_hams.cols() != this->lx_)) {
       throw std::invalid_argument("vertical_nn_hams dimension mismatch: expected ("
           + std::to_string(expected_ver_rows) + ", " + std::to_string(this->lx_)
           + "), got (" + std::to_string(vertical_nn_hams.rows()) + ", "
-- 
2.43.0


From f8d938850b672e2d0b6f08ed9103cca95b2b9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:33 +0000
Subject: [PATCH 36/40] fix: iterating a DuoMatrix that has rows but no columns
 visits nothing

---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 4080b4f..001330c 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -380,7 +380,7 @@ class DuoMatrix {
 
   // Begin iterator for DuoMatrix
   Iterator begin() {
-    return Iterator(*this);
+    return cols() == 0 ? end() : Iterator(*this); // rows without columns hold nothing
   }
 
   // End iterator for DuoMatrix
@@ -449,7 +449,7 @@ class DuoMatrix {
 
   // Begin const iterator for DuoMatrix
   ConstIterator cbegin() const {
-    return ConstIterator(*this);
+    return cols() == 0 ? cend() : ConstIterator(*this);
   }
 
   // End const iterator for DuoMatrix
-- 
2.43.0


From 79665e0d66cb67514b55dacea7430a4df917eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:33 +0000
Subject: [PATCH 37/40] fix: third site of the lower-left triangle in the
 next-nearest-neighbour simple update

---
 .../algorithm/simple_update/square_lattice_nnn_simple_update.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index 39278ec..1c43194 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -150,8 +150,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
       }
       case LowerLeft: {
         tri_site[0] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), site_b[1]};
-        tri_site[2] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), 
-                       (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
+        tri_site[2] = {site_b[0], (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
         break;
       }
       case LowerRight: {
-- 
2.43.0


From 9432390d8f1b7eb5af5471bdef66436d660bcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:33 +0000
Subject: [PATCH 38/40] fix: call the user's optimization callbacks instead of
 overwriting them

---
 .../vmc_update/vmc_peps_optimizer_impl.h        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
index 5ad6c44..bf8a5b8 100644
--- a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
@@ -107,8 +107,9 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   this->SetStatus(ExecutorStatus::EXEING);
   monte_carlo_engine_.WarmUp();
 
-  // Set up optimization callback to track progress
-  optimization_callback_.on_iteration =
+  // Set up optimization callback to track progress, keeping the user's own callbacks
+  typename OptimizerT::OptimizationCallback tracking_callback = optimization_callback_;
+  tracking_callback.on_iteration =
       [this](size_t iteration, double energy, double energy_error, double gradient_norm) {
         if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
           energy_trajectory_.push_back(energy);
@@ -125,13 +126,19 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
             WriteEnergyTrajectoryCsv_("./energy/energy_trajectory.csv");
           }
         }
+        if (optimization_callback_.on_iteration) {
+          optimization_callback_.on_iteration(iteration, energy, energy_error, gradient_norm);
+        }
       };
 
-  optimization_callback_.on_lowest_state_found = [this](const SITPST &state, double energy) {
+  tracking_callback.on_lowest_state_found = [this](const SITPST &state, double energy) {
     if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
       tps_lowest_ = state;
       en_min_ = energy;
     }
+    if (optimization_callback_.on_lowest_state_found) {
+      optimization_callback_.on_lowest_state_found(state, energy);
+    }
   };
 
   // Create energy evaluator function that provides gradient samples for stochastic reconfiguration
@@ -175,11 +182,11 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   // Use iterative optimization for all algorithms in the current implementation
   // Line search support can be added as enhancement later
   if (needs_sr_buffers_) {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, tracking_callback,
                                           &Ostar_samples_, &Ostar_mean_, &energy_samples_,
                                           energy_only_evaluator);
   } else {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, tracking_callback,
                                           nullptr, nullptr, nullptr,
                                           energy_only_evaluator);
   }
-- 
2.43.0


From 95a885f0634ac7bae45b7e13baf7abf18133c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:33 +0000
Subject: [PATCH 39/40] fix: keep the lowest state of an earlier run when a
 later run stays above it

---
 include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
index bf8a5b8..86bcf39 100644
--- a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
@@ -132,7 +132,8 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
       };
 
   tracking_callback.on_lowest_state_found = [this](const SITPST &state, double energy) {
-    if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
+    // The optimizer's record starts afresh with every run; en_min_ spans all runs of this executor.
+    if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && energy < en_min_) {
       tps_lowest_ = state;
       en_min_ = energy;
     }
-- 
2.43.0


From a6e6030bee36ab7381ee350e6eb77b55f61c0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 40/40] fix: L-BFGS does not compute with the placeholder
 gradient of non-master ranks

---
 include/qlpeps/optimizer/optimizer_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index c5b90f3..c85150a 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -1508,10 +1508,10 @@ template<typename TenElemT, typename QNT>
 typename Optimizer<TenElemT, QNT>::WaveFunctionT
 Optimizer<TenElemT, QNT>::ComputeLBFGSSearchDirection_(const WaveFunctionT& gradient,
                                                        const LBFGSParams& params) {
-  WaveFunctionT search_direction = (-1.0) * gradient;
   if (rank_ != qlten::hp_numeric::kMPIMasterRank) {
-    return search_direction;
+    return gradient;  // the gradient is valid only on the master rank: pass the placeholder on
   }
+  WaveFunctionT search_direction = (-1.0) * gradient;
   if (params.history_size == 0) {
     throw std::invalid_argument("LBFGS history_size must be > 0");
   }
-- 
2.43.0

