From 7b3361b8b95ae77b8502ec98c8eb0d8a21226940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 01/17] fix: DuoVector releases every element exactly once

Assigning a DuoVector to itself deleted the elements and then copied from
the deleted ones; alloc() and operator= left dangling pointers behind when
an element constructor threw, which the destructor deleted a second time;
a throwing copy constructor leaked the elements copied so far.
---
 include/qlmps/one_dim_tn/framework/duovector.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..26ce85b 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -50,7 +50,8 @@ public:
 
   @param duovec A DuoVector instance.
   */
-  DuoVector(const DuoVector<ElemT> &duovec) : raw_data_(duovec.size(), nullptr) {
+  DuoVector(const DuoVector<ElemT> &duovec) : DuoVector(duovec.size()) {
+    // Delegating: the destructor releases the copied elements if a copy throws.
     for (size_t i = 0; i < duovec.size(); ++i) {
       if (duovec(i) != nullptr) {
         raw_data_[i] = new ElemT(duovec[i]);
@@ -66,11 +67,8 @@ public:
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
-    for (auto &rpelem : raw_data_) {
-      if (rpelem != nullptr) {
-        delete rpelem;
-      }
-    }
+    if (this == &rhs) { return *this; }
+    clear();
     const size_t N = rhs.size();
     raw_data_ = std::vector<ElemT *>(N, nullptr);
     for (size_t i = 0; i < N; ++i) {
@@ -191,9 +189,7 @@ public:
   @param idx The index of the element.
   */
   void alloc(const size_t idx) {
-    if (raw_data_[idx] != nullptr) {
-      delete raw_data_[idx];
-    }
+    dealloc(idx);
     raw_data_[idx] = new ElemT;
   }
 
-- 
2.43.0


From d0dd2f03b8a04f32311a5d4b24fb47cf7a0a0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 02/17] fix: TwoSiteFiniteVMPSWithNoise without noises returns
 the plain run's result

With an empty noise schedule the serial and MPI entry points ran
TwoSiteFiniteVMPS, dropped its result and then went on with a second,
noised run using an uninitialised noise on environments of the wrong length.
---
 .../algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h | 2 +-
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..f382b03 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -67,7 +67,7 @@ inline QLTEN_Double TwoSiteFiniteVMPSWithNoise_(
       std::cerr << "noise parameters setting conflict" << std::endl;
       exit(-1);
     }
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
   }
   int rank;
   MPI_Comm_rank(comm, &rank);
diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From 1641f2a607b1471b3a7b9cccf8fdd64255ad6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:58 +0000
Subject: [PATCH 03/17] fix: report failed tensor file writes

---
 include/qlmps/one_dim_tn/framework/ten_vec.h | 7 +++++++
 include/qlmps/utilities.h                    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/ten_vec.h b/include/qlmps/one_dim_tn/framework/ten_vec.h
index bf54d12..3dbb7aa 100644
--- a/include/qlmps/one_dim_tn/framework/ten_vec.h
+++ b/include/qlmps/one_dim_tn/framework/ten_vec.h
@@ -19,6 +19,7 @@
 
 #include <string>     // string
 #include <fstream>    // ifstream
+#include <stdexcept>  // runtime_error
 
 namespace qlmps {
 using namespace qlten;
@@ -84,6 +85,9 @@ class TenVec : public DuoVector<TenT> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   /**
@@ -101,6 +105,9 @@ class TenVec : public DuoVector<TenT> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
     if (release_mem) { this->dealloc(idx); }
   }
 };
diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index 9a07b9d..eb524f6 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -14,6 +14,7 @@
 
 #include <iostream>
 #include <fstream>          // ifstream, ofstream
+#include <stdexcept>        // runtime_error
 
 #include <sys/stat.h>       // stat, mkdir, S_IRWXU, S_IRWXG, S_IROTH, S_IXOTH
 
@@ -65,6 +66,9 @@ inline void WriteQLTensorTOFile(const TenT &t, const std::string &file) {
   std::ofstream ofs(file, std::ofstream::binary);
   ofs << t;
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 
 
-- 
2.43.0


From 141927e889c0bb892f1236793e7ed7b7a87dfe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 04/17] fix: report unreadable environment and operator files

---
 .../qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h   | 12 ++++++------
 include/qlmps/algorithm/dmrg/dmrg_impl.h         |  8 ++++----
 include/qlmps/algorithm/dmrg/operator_io.h       | 13 +++++++++++--
 .../tdvp/two_site_update_finite_tdvp_impl.h      |  4 +++-
 .../mpo/finite_mpo/finite_mpo_utility.h          | 16 ++++++++++++----
 include/qlmps/utilities.h                        |  3 ++-
 6 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
index 07904d8..f76118d 100644
--- a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
@@ -348,11 +348,11 @@ void DMRGMPIMasterExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
         auto lblock_len = l_site_;
         size_t lopg_size = mat_repr_mpo_[l_site_].rows;
         lopg_vec_[lblock_len] = LeftBlockOperatorGroup<Tensor>(lopg_size);
-        ReadOperatorGroup("l", lblock_len, lopg_vec_[lblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadOperatorGroup("l", lblock_len, lopg_vec_[lblock_len], sweep_params.temp_path));
         auto rblock_len = N_ - 1 - r_site_;
         size_t ropg_size = mat_repr_mpo_[r_site_].cols;
         ropg_vec_[rblock_len] = RightBlockOperatorGroup<QLTensor<TenElemT, QNT>>(ropg_size);
-        ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path));
       } else {
         mps_.LoadTen(r_site_,
                      GenMPSTenName(sweep_params.mps_path, r_site_)
@@ -360,7 +360,7 @@ void DMRGMPIMasterExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
         auto rblock_len = (N_ - 1) - r_site_;
         size_t ropg_size = mat_repr_mpo_[r_site_].cols;
         ropg_vec_[rblock_len] = RightBlockOperatorGroup<QLTensor<TenElemT, QNT>>(ropg_size);
-        ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path));
       }
       break;
     case 'l':
@@ -371,11 +371,11 @@ void DMRGMPIMasterExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
         auto rblock_len = (N_ - 1) - r_site_;
         size_t ropg_size = mat_repr_mpo_[r_site_].cols;
         ropg_vec_[rblock_len] = RightBlockOperatorGroup<QLTensor<TenElemT, QNT>>(ropg_size);
-        ReadOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path));
         auto lblock_len = l_site_;
         size_t lopg_size = mat_repr_mpo_[l_site_].rows;
         lopg_vec_[l_site_] = LeftBlockOperatorGroup<QLTensor<TenElemT, QNT>>(lopg_size);
-        ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path));
       } else {
         mps_.LoadTen(l_site_,
                      GenMPSTenName(sweep_params.mps_path, l_site_)
@@ -383,7 +383,7 @@ void DMRGMPIMasterExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
         auto lblock_len = l_site_;
         size_t lopg_size = mat_repr_mpo_[l_site_].rows;
         lopg_vec_[l_site_] = LeftBlockOperatorGroup<QLTensor<TenElemT, QNT>>(lopg_size);
-        ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path));
       }
       break;
     default:assert(false);
diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 9e6395c..17cd2a1 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -410,14 +410,14 @@ double DMRGExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
                      GenMPSTenName(sweep_params.mps_path, l_site_)
         );
         lopg_vec_[lblock_len] = LeftBlockOperatorGroup<Tensor>(lopg_size);
-        ReadOperatorGroup("l", lblock_len, lopg_vec_[lblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadOperatorGroup("l", lblock_len, lopg_vec_[lblock_len], sweep_params.temp_path));
       } else {
         mps_.LoadTen(r_site_,
                      GenMPSTenName(sweep_params.mps_path, r_site_)
         );
       }
       ropg_vec_[rblock_len] = RightBlockOperatorGroup<QLTensor<TenElemT, QNT>>(ropg_size);
-      ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path);
+      CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path));
 //    mem += mps_[r_site_].GetRawDataMemUsage();
       op_mem_ += EvaluateOpMem(lopg_vec_[lblock_len]);
       op_mem_ += EvaluateOpMem(ropg_vec_[rblock_len]);
@@ -431,7 +431,7 @@ double DMRGExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
                      GenMPSTenName(sweep_params.mps_path, r_site_)
         );
         ropg_vec_[rblock_len] = RightBlockOperatorGroup<QLTensor<TenElemT, QNT>>(ropg_size);
-        ReadOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path);
+        CheckOperatorGroupRead(ReadOperatorGroup("r", rblock_len, ropg_vec_[rblock_len], sweep_params.temp_path));
       } else {
         mps_.LoadTen(l_site_,
                      GenMPSTenName(sweep_params.mps_path, l_site_)
@@ -440,7 +440,7 @@ double DMRGExecutor<TenElemT, QNT>::LoadRelatedTensSweep_(
       auto lblock_len = l_site_;
       size_t lopg_size = mat_repr_mpo_[l_site_].rows;
       lopg_vec_[l_site_] = LeftBlockOperatorGroup<QLTensor<TenElemT, QNT>>(lopg_size);
-      ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path);
+      CheckOperatorGroupRead(ReadAndRemoveOperatorGroup("l", lblock_len, lopg_vec_[l_site_], sweep_params.temp_path));
 
       //        mem += mps_[r_site_].GetRawDataMemUsage();
       op_mem_ += EvaluateOpMem(lopg_vec_[lblock_len]);
diff --git a/include/qlmps/algorithm/dmrg/operator_io.h b/include/qlmps/algorithm/dmrg/operator_io.h
index b02e3e8..2aaea2a 100644
--- a/include/qlmps/algorithm/dmrg/operator_io.h
+++ b/include/qlmps/algorithm/dmrg/operator_io.h
@@ -70,12 +70,21 @@ bool ReadAndRemoveOperatorGroup(
   bool read_success(true);
   for (size_t comp = 0; comp < op_gp.size(); comp++) {
     std::string file_name = GenOpFileName(dir, blk_len, comp, temp_path);
-    read_success &= ReadQLTensorFromFile(op_gp[comp], file_name);
-    RemoveFile(file_name);
+    if (ReadQLTensorFromFile(op_gp[comp], file_name)) {
+      RemoveFile(file_name);
+    } else {
+      read_success = false;
+    }
   }
   return read_success;
 }
 
+inline void CheckOperatorGroupRead(const bool read_success) {
+  if (!read_success) {
+    throw std::runtime_error("Error reading block operator group.");
+  }
+}
+
 }
 
 #endif //QLMPS_ALGORITHM_DMRG_OPERATOR_IO_H
diff --git a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
index 53aad33..38d126b 100644
--- a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
+++ b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
@@ -594,7 +594,9 @@ std::vector<TenElemT> CalPsi1OpPsi2(
     if (i > 0) {
       right_boundary_tensor = TenT();
       file = GenEnvTenName("r", N - i - 1, temp_path);
-      ReadQLTensorFromFile(right_boundary_tensor, file);
+      if (!ReadQLTensorFromFile(right_boundary_tensor, file)) {
+        throw std::runtime_error("Error reading file: " + file);
+      }
       RemoveFile(file);
     }
 
diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
index 183b917..9a3ba5e 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h
@@ -238,14 +238,18 @@ void MpoProduct(
 
     Tensor lenv;
     //load lenv 0;
-    ReadQLTensorFromFile(lenv, GenEnvTenName("l", 0, temp_path));
+    if (!ReadQLTensorFromFile(lenv, GenEnvTenName("l", 0, temp_path))) {
+      throw std::runtime_error("Error reading file: " + GenEnvTenName("l", 0, temp_path));
+    }
     for (size_t lsite = 0; lsite < N - 2; lsite++) {
       Tensor renv;
       size_t rsite = lsite + 1;
       //load renv, delete it;
       size_t renv_len = N - rsite - 1;
       std::string renv_file = GenEnvTenName("r", renv_len, temp_path);
-      ReadQLTensorFromFile(renv, renv_file);
+      if (!ReadQLTensorFromFile(renv, renv_file)) {
+        throw std::runtime_error("Error reading file: " + renv_file);
+      }
       RemoveFile(renv_file);
       //update lsite, lsite+1, direction 'r'
       if (output_info) {
@@ -271,14 +275,18 @@ void MpoProduct(
 
     //load renv 0;
     Tensor renv;
-    ReadQLTensorFromFile(renv, GenEnvTenName("r", 0, temp_path));
+    if (!ReadQLTensorFromFile(renv, GenEnvTenName("r", 0, temp_path))) {
+      throw std::runtime_error("Error reading file: " + GenEnvTenName("r", 0, temp_path));
+    }
     for (size_t lsite = N - 2; lsite > 0; lsite--) {
       Tensor lenv;
       size_t rsite = lsite + 1;
       size_t lenv_len = lsite;
       //load lenv, delete it;
       std::string lenv_file = GenEnvTenName("l", lenv_len, temp_path);
-      ReadQLTensorFromFile(lenv, lenv_file);
+      if (!ReadQLTensorFromFile(lenv, lenv_file)) {
+        throw std::runtime_error("Error reading file: " + lenv_file);
+      }
       RemoveFile(lenv_file);
 
       //update lsite, lsite+1, direction 'l'
diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index eb524f6..ff38875 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -77,8 +77,9 @@ inline bool ReadQLTensorFromFile(TenT &t, const std::string &file) {
   std::ifstream ifs(file, std::ifstream::binary);
   if(ifs.good()){
     ifs >> t;
+    if (ifs.fail()) { return false; }
     ifs.close();
-    return true;
+    return !ifs.fail();
   } else {
     return false;
   }
-- 
2.43.0


From c7859cb2a9c2e75debc94ca6b0d6f2a1d04bf926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 05/17] fix: report failed I/O of measurement results and the
 MPO centre

---
 .../qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h | 3 +++
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h        | 6 ++++++
 .../one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h     | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
index 38d126b..e830c23 100644
--- a/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
+++ b/include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h
@@ -659,6 +659,9 @@ void DumpMeasuRes(
   ofs << "]";
 
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 
 }//qlmps
diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..d0456ad 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -233,6 +233,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << center_;
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   bool Load(const std::string &mpo_path = kMpoPath) {
@@ -249,6 +252,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     file = mpo_path + "/center";
     std::ifstream ifs(file, std::ifstream::binary);
     ifs >> center_;
+    if (ifs.fail()) {
+      throw std::runtime_error("Error reading file: " + file);
+    }
     ifs.close();
     SetCenter_();
     return true;
diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h
index fe57978..7f8b5eb 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h
@@ -577,6 +577,9 @@ void DumpMeasuRes(
   ofs << "]";
 
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 } /* qlmps */
 #endif /* ifndef QLMPS_ONE_DIM_TN_MPS_FINITE_MPS_FINITE_MPS_MEASU_H */
-- 
2.43.0


From ac04473925c78b8ca9cc3a29fdade0b1ec34f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:56 +0000
Subject: [PATCH 06/17] fix: DMRG update does not release site tensors twice
 when the solver throws

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 17cd2a1..21f0ad0 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -220,8 +220,8 @@ double DMRGExecutor<TenElemT, QNT>::TwoSiteUpdate_() {
   auto init_state = new Tensor;
   Contract(&mps_[l_site_], &mps_[r_site_], init_state_ctrct_axes, init_state);
   auto div_left = Div(mps_[l_site_]);
-  delete mps_(l_site_);
-  delete mps_(r_site_);
+  mps_.dealloc(l_site_);
+  mps_.dealloc(r_site_);
 //  memory_monitor_.Checkpoint("Before Lancz");
   Timer lancz_timer("two_site_dmrg_lancz");
   auto lancz_res = LanczosSolver(
-- 
2.43.0


From 5102a2b4f0ee6277ece1eda9ab2cc5c43f58a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 07/17] fix: DMRG keeps the center tensor when an emergency
 stop arrives between two sweeps

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 21f0ad0..1ab9e03 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -157,7 +157,9 @@ void DMRGExecutor<TenElemT, QNT>::Execute() {
       break; // stop in advance
     }
   }
-  if (!emergency_stop_requested_.load()) {
+  // An emergency stop inside the sweep has already dumped the center tensor. A signal which arrives
+  // after the last update of the sweep has not, then the center tensor is still in memory.
+  if (!mps_.empty()) {
     mps_.DumpTen(left_boundary_ + 1, GenMPSTenName(sweep_params.mps_path, left_boundary_ + 1), true);
     DMRGPostProcess_();
   }
-- 
2.43.0


From f2ef3033c16c5531a7f035bb1ca37f83c5a595d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 08/17] fix: MPI noised VMPS releases the site tensors it loads
 while moving the center

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index f382b03..84a32c2 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -149,9 +149,9 @@ void NoisedVMPSPostProcess(
   for (size_t site = center; site > 0; site--) {
     mps.LoadTen(sweep_params.mps_path, site - 1);
     mps.RightCanonicalizeTen(site);
-    mps.DumpTen(sweep_params.mps_path, site);
+    mps.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps.DumpTen(sweep_params.mps_path, 0);
+  mps.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From bbe9ffdb38e69d4da3ec7448d457975cabb6864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:01 +0000
Subject: [PATCH 09/17] fix: MPI TDVP on a single rank runs the serial code
 instead of waiting forever

---
 .../tdvp/two_site_update_finite_tdvp_mpi_impl_master.h     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
index 972e009..d13ad7e 100644
--- a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
@@ -64,8 +64,13 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
     const std::string &measure_file_base_name,
     const MPI_Comm &comm
 ) {
-  int rank;
+  int rank, mpi_size;
   MPI_Comm_rank(comm, &rank);
+  MPI_Comm_size(comm, &mpi_size);
+  if (mpi_size == 1) {
+    const TDVPEvolveParams<QNT> &serial_params = sweep_params;
+    return TwoSiteFiniteTDVP(mps, mpo, serial_params, measure_file_base_name);
+  }
   const size_t N = mps.size();
   DynamicMeasuRes<TenElemT> measure_res(N * (sweep_params.step + 1));
   if (rank == kMPIMasterRank) {
-- 
2.43.0


From 4de20fc7efa50b7be37ffa1729beb84ac8258272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:35 +0000
Subject: [PATCH 10/17] fix: loading tensors into a FiniteMPS resets its
 canonical labels and center

---
 .../one_dim_tn/mps/finite_mps/finite_mps.h    | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d0fe20d..0cb7c57 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -106,7 +106,19 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
-  using MPS<TenElemT, QNT>::LoadTen;
+  /**
+  Load a local tensor from a file. Set canonical type to NONE and MPS to
+  uncentralized.
+
+  @param idx Index of the MPS local tensor.
+  @param file The file which contains the tensor to be loaded.
+  */
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPSTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    MPS<TenElemT, QNT>::LoadTen(idx, file);
+  }
+
   using MPS<TenElemT, QNT>::DumpTen;
   void LoadTen(const std::string &mps_path, const size_t idx) {
     this->LoadTen(idx, GenMPSTenName(mps_path, idx));
@@ -115,6 +127,19 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
   void DumpTen(const std::string &mps_path, const size_t idx) {
     this->DumpTen(idx, GenMPSTenName(mps_path, idx));
   }
+
+  /**
+  Load MPS from HDD. Set all the canonical types to NONE and MPS to
+  uncentralized.
+
+  @param mps_path Path to the MPS directory.
+  */
+  void Load(const std::string &mps_path = kMpsPath) {
+    for (size_t i = 0; i < this->size(); ++i) {
+      this->LoadTen(mps_path, i);
+    }
+  }
+
   // MPS global operations, that means all the tensors should in memory when calling these functions.
   void Centralize(const int);
 
-- 
2.43.0


From e432cd7c98e6d4487a881a731386a1f538cda64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:38 +0000
Subject: [PATCH 11/17] fix: loading tensors into a FiniteMPO resets its
 canonical labels and center

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index d0456ad..520fb1d 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -221,6 +221,15 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
   void Truncate(const QLTEN_Double, const size_t, const size_t);
 
+  /**
+   * Load a local tensor from a file. Set canonical type to NONE and MPO to uncentralized.
+   */
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPOTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    TenVec<LocalTenT>::LoadTen(idx, file);
+  }
+
   void Dump(const std::string &mpo_path = kMpoPath) const {
     if (!IsPathExist(mpo_path)) { CreatPath(mpo_path); }
     std::string file;
-- 
2.43.0


From 55c792b1724213ab8be379124c428f6b88384c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 12/17] fix: case parameters of another type or out of range
 are rejected instead of converted silently

---
 include/qlmps/case_params_parser.h | 52 ++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..2e89139 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,13 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <cmath>                                    // trunc, ldexp
+#include <cstdint>                                  // int64_t, uint64_t
+#include <limits>                                   // numeric_limits
+#include <stdexcept>                                // invalid_argument, out_of_range
+#include <string>                                   // string
+#include <type_traits>                              // is_integral, is_arithmetic, is_same
+#include <vector>                                   // vector
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,13 +257,52 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // Convert a JSON value, throw if it is of another type or out of the range of T.
+  // (json::get<T> turns booleans into numbers, drops fractions and wraps around.)
+  template <typename T>
+  static void Convert(const json &value, T &out) {
+    if constexpr (std::is_arithmetic<T>::value && !std::is_same<T, bool>::value) {
+      if (!value.is_number()) throw std::invalid_argument("not a number");
+    }
+    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
+      using Limits = std::numeric_limits<T>;
+      bool fits;
+      if (value.is_number_float()) {
+        const double x = value.get<double>();
+        fits = x == std::trunc(x) && x >= static_cast<double>(Limits::min()) && x < std::ldexp(1.0, Limits::digits);
+      } else if (value.is_number_unsigned()) {
+        fits = value.get<std::uint64_t>() <= static_cast<std::uint64_t>(Limits::max());
+      } else {
+        const std::int64_t x = value.get<std::int64_t>();
+        fits = x < 0 ? (Limits::is_signed && x >= static_cast<std::int64_t>(Limits::min()))
+                     : static_cast<std::uint64_t>(x) <= static_cast<std::uint64_t>(Limits::max());
+      }
+      if (!fits) throw std::out_of_range("not representable");
+    }
+    out = value.get<T>();
+  }
+
+  template <typename T>
+  static void Convert(const json &value, std::vector<T> &out) {
+    if (!value.is_array()) throw std::invalid_argument("not an array");
+    out.clear();
+    out.reserve(value.size());
+    for (const auto &el : value) {
+      T x;
+      Convert(el, x);
+      out.push_back(x);
+    }
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
     try {
-      return case_params_.at(item).get<T>();
+      T value;
+      Convert(case_params_.at(item), value);
+      return value;
     } catch (const std::exception &e) {
       const char *actual = case_params_.at(item).type_name();
       ReportAndExitMissingOrInvalid(item, expected_type_name, actual);
@@ -268,7 +314,9 @@ class CaseParamsParserBasic {
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
     try {
-      out_value = case_params_.at(item).get<T>();
+      T value;
+      Convert(case_params_.at(item), value);
+      out_value = value;
       return true;
     } catch (...) {
       return false;
-- 
2.43.0


From a83f7e5e4ecde5dd0a2c4b53181cd4c63fd8f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:56 +0000
Subject: [PATCH 13/17] fix: MeasureFourSiteOpGroup releases every site tensor
 it loaded

---
 .../qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..34b3dd4 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -375,8 +375,8 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
     measure_res[event] = MeasuResElem<TenElemT>({ref_sites[0], ref_sites[1], target_site0, target_site1},
                                                 avg);
   }
-  //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
+  //clean the data; an earlier target pair may reach further than the last one
+  for (size_t i = 0; i < mps.size(); i++) {
     mps.dealloc(i);
   }
   assert(mps.empty());
-- 
2.43.0


From 13ff60e5994ab3109d3f78e66e3905bb67323dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 14/17] fix: keep a one-site term that is added to an MPO more
 than once

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..1f97f70 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,14 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (
+        fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op ||
+            tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx
+    ) {   // another term, possibly the same one-site term added once more
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // Do nothing. The identity of a ready or final state is shared by all paths.
     }
   }
 }
-- 
2.43.0


From b65f8bf4dc7a655c6aacc6bb2a7823a3b3d23144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 15/17] fix: start the tail string of an MPO term behind its
 last physical operator

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From e92ff5bb0decbe139cdd33f24bd415275cf08e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:58 +0000
Subject: [PATCH 16/17] fix: stop Lanczos when the residual is round-off, so
 that the ground state stays normalized

---
 .../algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h |  2 +-
 .../algo_mpi/vmps/lanczos_solver_mpi_master.h      |  2 +-
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h      |  2 +-
 include/qlmps/algorithm/lanczos_params.h           | 14 ++++++++++++++
 .../algorithm/vmps/lanczos_vmps_solver_impl.h      |  2 +-
 5 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..27c68ba 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -106,7 +106,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosBreaksDown(norm_gamma, a[m - 1], std::sqrt(N[m - 1]))) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..fd77857 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -128,7 +128,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosBreaksDown(norm_gamma, a[m - 1], (m == 1 ? 0.0 : b[m - 2]))) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..5669b28 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosBreaksDown(norm_gamma, a[m - 1], std::sqrt(N[m - 1]))) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/lanczos_params.h b/include/qlmps/algorithm/lanczos_params.h
index 04a643a..040e844 100644
--- a/include/qlmps/algorithm/lanczos_params.h
+++ b/include/qlmps/algorithm/lanczos_params.h
@@ -16,6 +16,7 @@
 
 
 #include <stdlib.h>     // size_t
+#include <cmath>        // abs
 
 
 namespace qlmps {
@@ -44,6 +45,19 @@ struct LanczosParams {
   double error;             ///< The Lanczos tolerated error.
   size_t max_iterations;    ///< The maximal iteration times.
 };
+
+/**
+Whether the last Lanczos residual consists of round-off errors only, i.e. the bases found so far span an invariant
+subspace. A normalized residual would not be orthogonal to the bases then.
+
+@param norm_gamma The norm of the residual.
+@param a The last diagonal element of the tridiagonal matrix.
+@param b The last off-diagonal element of the tridiagonal matrix, 0 if there is none.
+*/
+inline bool LanczosBreaksDown(const double norm_gamma, const double a, const double b) {
+  const double kRoundOff = 1.0E-14;
+  return norm_gamma <= kRoundOff * (std::abs(a) + std::abs(b));
+}
 } /* qlmps */
 
 
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..eb8c802 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -183,7 +183,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosBreaksDown(norm_gamma, a[m - 1], std::sqrt(N[m - 1]))) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From dc4fb02c17707dc60c1abd88039fce167404f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:58 +0000
Subject: [PATCH 17/17] fix: a run with other boundaries does not leave
 outdated right environments behind

---
 .../algo_mpi/dmrg/dmrg_mpi_impl_master.h      |  1 +
 include/qlmps/algorithm/dmrg/dmrg_init.h      | 25 +++++++++++++++++++
 include/qlmps/algorithm/vmps/vmps_init.h      | 21 ++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
index f76118d..f1d59ec 100644
--- a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
@@ -607,6 +607,7 @@ void UpdateBoundaryBlockOpsMaster(
     }
   }
 
+  RemoveOutdatedRightBlockOps(mat_repr_mpo, left_boundary, right_boundary, temp_path);
   WriteOperatorGroup("r", N - 1 - right_boundary, rog, temp_path);
 
   mps.LoadTen(right_boundary, GenMPSTenName(mps_path, right_boundary));
diff --git a/include/qlmps/algorithm/dmrg/dmrg_init.h b/include/qlmps/algorithm/dmrg/dmrg_init.h
index 735ca26..5d26963 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_init.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_init.h
@@ -204,6 +204,30 @@ LeftBlockOperatorGroup<QLTensor<TenElemT, QNT>> UpdateLeftBlockOps(
   return log_next;
 }
 
+/**
+ * Remove the right block operators which the sweeps between the boundaries do not update.
+ * They belong to a run with other boundaries. A later run which needs them has to regenerate them.
+ */
+template<typename TenElemT, typename QNT>
+inline void RemoveOutdatedRightBlockOps(
+    const MatReprMPO<QLTensor<TenElemT, QNT>> &mat_repr_mpo,
+    const size_t left_boundary,
+    const size_t right_boundary,
+    const std::string &temp_path
+) {
+  const size_t N = mat_repr_mpo.size();
+  for (size_t site = 0; site < N - 1; site++) {
+    if (site > right_boundary || site < left_boundary + 1) {
+      for (size_t comp_num = 0; comp_num < mat_repr_mpo[site].cols; comp_num++) {
+        std::string file = GenOpFileName("r", (N - 1) - site, comp_num, temp_path);
+        if (access(file.c_str(), F_OK) == 0) {
+          RemoveFile(file);
+        }
+      }
+    }
+  }
+}
+
 template<typename TenElemT, typename QNT>
 void UpdateBoundaryBlockOps(
     FiniteMPS<TenElemT, QNT> &mps,
@@ -234,6 +258,7 @@ void UpdateBoundaryBlockOps(
     }
   }
 
+  RemoveOutdatedRightBlockOps(mat_repr_mpo, left_boundary, right_boundary, temp_path);
   WriteOperatorGroup("r", N - 1 - right_boundary, rog, temp_path);
 
   mps.LoadTen(right_boundary, GenMPSTenName(mps_path, right_boundary));
diff --git a/include/qlmps/algorithm/vmps/vmps_init.h b/include/qlmps/algorithm/vmps/vmps_init.h
index b43490b..d4e0c98 100644
--- a/include/qlmps/algorithm/vmps/vmps_init.h
+++ b/include/qlmps/algorithm/vmps/vmps_init.h
@@ -272,6 +272,26 @@ inline bool NeedGenerateRightEnvs(
   }
 }
 
+/**
+  Remove the right environment tensors which the sweeps between the boundaries do not update.
+  They belong to a run with other boundaries. A later run which needs them has to regenerate them.
+*/
+inline void RemoveOutdatedRightEnvs(
+    const size_t N, //mps size
+    const size_t left_boundary,
+    const size_t right_boundary,
+    const std::string &temp_path
+) {
+  for (size_t env_num = 1; env_num < N; env_num++) {
+    if (env_num < (N - 1) - right_boundary || env_num > (N - 1) - (left_boundary + 1)) {
+      std::string file = GenEnvTenName("r", env_num, temp_path);
+      if (access(file.c_str(), F_OK) == 0) {
+        RemoveFile(file);
+      }
+    }
+  }
+}
+
 /** UpdateBoundaryEnvs
  *  regenerate and rewrite environment tensors including:
  *    - left env of site left_boundary
@@ -309,6 +329,7 @@ void UpdateBoundaryEnvs(
     renv = std::move(UpdateSiteRenvs(renv, mps[N - i], mpo[N - i])); //question: if it's efficient?
     mps.dealloc(N - i);
   }
+  RemoveOutdatedRightEnvs(N, left_boundary, right_boundary, temp_path);
   std::string file = GenEnvTenName("r", N - right_boundary - 1, temp_path);
   WriteQLTensorTOFile(renv, file);
 
-- 
2.43.0

