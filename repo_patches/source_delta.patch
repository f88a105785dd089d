From bf16853f5158d5c2e20583e7575d4dbef0166a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:49 +0000
Subject: [PATCH 01/81] fix: BasicStructureInfo::operator= returns *this

---
 source/nblist/include/binLinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 928507e..a93a9c6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -257,6 +257,8 @@ BasicStructureInfo<CoordType>& BasicStructureInfo<CoordType>::operator=(const Ba
         this->interplanar_distances[1] = rhs.interplanar_distances[1];
         this->interplanar_distances[2] = rhs.interplanar_distances[2];
     }
+
+    return *this;
 }
 
 
-- 
2.43.0


From fc3edcc04d15cc6a9779d188f601d7f4d283fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:45 +0000
Subject: [PATCH 02/81] fix: atoms on or beyond the faces of the box no longer
 index outside the bin table

---
 source/nblist/include/binLinkedList.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index a93a9c6..90db2eb 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -2,6 +2,7 @@
 #define MATERSDK_BIN_LINKED_LIST_H
 
 
+#include <algorithm>
 #include <vector>
 #include <cassert>
 #include "./structure.h"
@@ -823,6 +824,8 @@ void BinLinkedList<CoordType>::_build() {
         tmp_bin_idx_xyz[0] = std::floor( (atom_coord[0] - this->min_limit_xyz[0]) / this->bin_size_xyz[0] );
         tmp_bin_idx_xyz[1] = std::floor( (atom_coord[1] - this->min_limit_xyz[1]) / this->bin_size_xyz[1] );
         tmp_bin_idx_xyz[2] = std::floor( (atom_coord[2] - this->min_limit_xyz[2]) / this->bin_size_xyz[2] );
+        for (int jj=0; jj<3; jj++)  // atoms on (or beyond) the faces of the box belong to the outermost bins
+            tmp_bin_idx_xyz[jj] = std::max(0, std::min(tmp_bin_idx_xyz[jj], this->num_bin_xyz[jj] - 1));
         tmp_bin_idx = (
             tmp_bin_idx_xyz[0] + 
             tmp_bin_idx_xyz[1] * this->num_bin_xyz[0] + 
@@ -853,6 +856,7 @@ int BinLinkedList<CoordType>::get_bin_idx(int prim_atom_idx) const {
     int bin_idx_xyz[3];
     for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - this->min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::max(0, std::min(bin_idx_xyz[ii], this->num_bin_xyz[ii] - 1));
     }
 
     return (
@@ -910,8 +914,10 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
 
     // Step 1.3. 计算 atom_idx 的 bin_idx_xyz[3]
     int bin_idx_xyz[3];
-    for (int ii=0; ii<3; ii++)
+    for (int ii=0; ii<3; ii++) {
         bin_idx_xyz[ii] = std::floor( (atom_cart_coord[ii] - min_limit_xyz[ii]) / this->bin_size_xyz[ii] );
+        bin_idx_xyz[ii] = std::max(0, std::min(bin_idx_xyz[ii], this->num_bin_xyz[ii] - 1));
+    }
 
     // Step 2. 由 `atom_idx` 的 `bin_idx_xyz[3]` 计算 `neigh_bin_idxs_xyz[num_neigh_bins][3]`
     int num_extened_neigh_bins[3];  // 沿 x,y,z 的正方向有多少个 neigh_bins
-- 
2.43.0


From b29c18fc6aa4f2b085da0bed3a01d75434feb450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:51 +0000
Subject: [PATCH 03/81] fix: a neighbour bin reached twice by the wrap around
 is visited once

---
 source/nblist/include/binLinkedList.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 90db2eb..b76766d 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -976,6 +976,17 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
         }
     }
 
+    // Step 4. With few bins the wrap around can reach the same bin more than once: keep its first occurrence only.
+    std::vector<bool> is_visited(this->num_bin_xyz[0] * this->num_bin_xyz[1] * this->num_bin_xyz[2], false);
+    for (int ii=0; ii<num_neigh_bins; ii++) {
+        if (neigh_bin_idxs[ii] == -1)
+            continue;
+        if (is_visited[neigh_bin_idxs[ii]])
+            neigh_bin_idxs[ii] = -1;
+        else
+            is_visited[neigh_bin_idxs[ii]] = true;
+    }
+
     // Step . Free memory
     for (int ii=0; ii<3; ii++) {
         free(limit_xyz[ii]);
-- 
2.43.0


From 5eee789035540988e338ec26c6c6633625bf3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:37 +0000
Subject: [PATCH 04/81] fix: scaling a supercell again keeps its origin under
 the atoms

---
 source/nblist/include/structure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 8113817..3478f0d 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -577,7 +577,7 @@ void Structure<CoordType>::make_supercell(const int *scaling_matrix) {
 
     // Step 3.3. Calculate `pseudo_origin` and assign it to `this->pseudo_origin`
     for (int ii=0; ii<3; ii++) {
-        this->pseudo_orgin[ii] = (
+        this->pseudo_orgin[ii] += (
             range[0][0] * this->basis_vectors[0][ii] + 
             range[1][0] * this->basis_vectors[1][ii] + 
             range[2][0] * this->basis_vectors[2][ii]
-- 
2.43.0


From 7a465f8790da102c89822599d64ce65beef0e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 05/81] fix: copying a TildeR with several species allocates
 room for all of them

---
 source/descriptor/deepmd/include/se.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index d7d7b9a..fa91d85 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1485,12 +1485,12 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
     this->neighbor_list = rhs.neighbor_list;
     
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
-    this->center_atomic_numbers_lst = (int*)malloc(sizeof(this->num_center_atomic_numbers));
+    this->center_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_center_atomic_numbers);
     for (int ii=0; ii<this->num_center_atomic_numbers; ii++)
         this->center_atomic_numbers_lst[ii] = rhs.center_atomic_numbers_lst[ii];
     
     this->num_neigh_atomic_numbers = rhs.num_neigh_atomic_numbers;
-    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(this->num_neigh_atomic_numbers));
+    this->neigh_atomic_numbers_lst = (int*)malloc(sizeof(int) * this->num_neigh_atomic_numbers);
     for (int ii=0; ii<this->num_neigh_atomic_numbers; ii++)
         this->neigh_atomic_numbers_lst[ii] = rhs.neigh_atomic_numbers_lst[ii];
 
-- 
2.43.0


From bd85d19e08c597f2fe75308eb35c40a1ac19d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 06/81] fix: assignment operators of the MTP classes return
 *this

---
 source/descriptor/mtp/include/mtpMRadial.h | 5 ++++-
 source/descriptor/mtp/src/mtpLevel.cc      | 2 ++
 source/descriptor/mtpr/include/basis.h     | 4 ++++
 source/descriptor/mtpr/src/mtpParam.cc     | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 86a3f2d..0d8f46d 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -369,7 +369,8 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rh
         rhs.result = nullptr;
         rhs.deriv2xi = nullptr;
         rhs.deriv2r = nullptr;
-    }    
+    }
+    return *this;
 }
 
 template <typename CoordType>
@@ -522,6 +523,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
         this->result[ii] = rhs.result[ii];
         this->deriv2r[ii] = rhs.deriv2r[ii];
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -545,6 +547,7 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
         rhs.result = nullptr;
         rhs.deriv2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 7838d2f..13f60b0 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -45,6 +45,7 @@ MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
     this->_calc_level();
+    return *this;
 }
 
 void MtpMCoeffPair::_calc_level() 
@@ -97,6 +98,7 @@ MtpMCoeffPairCombs& MtpMCoeffPairCombs::operator=(const MtpMCoeffPairCombs& rhs)
 {
     this->_max_level = rhs._max_level;
     this->_coeff_pair_combs = rhs._coeff_pair_combs;
+    return *this;
 }
 
 /**
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 15b33c3..d808c1e 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -250,6 +250,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
 
         }
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -279,6 +280,7 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(RB_Chebyshev&& rhs)
         rhs._ders2uu = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -468,6 +470,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
         this->_vals = nullptr;
         this->_ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
@@ -498,6 +501,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(RQ_Chebyshev&& rhs)
         rhs._vals = nullptr;
         rhs._ders2r = nullptr;
     }
+    return *this;
 }
 
 template <typename CoordType>
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 7e6ac14..cc2a8d3 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -255,7 +255,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         rhs._alpha_scalar_moments = 0;
         rhs._alpha_moment_mapping = nullptr;
     }
-
+    return *this;
 }
 
 MtpParam::~MtpParam()
-- 
2.43.0


From 1ade2fbccccad44d560a06407d4866a7ee951383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 07/81] fix: move assignment of MtpParam takes over the times
 table, not the basic one

---
 source/descriptor/mtpr/src/mtpParam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index cc2a8d3..a0c2f78 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -243,7 +243,7 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
         this->_alpha_index_basic = rhs._alpha_index_basic;
         this->_alpha_index_times_count = rhs._alpha_index_times_count;
-        this->_alpha_index_times = rhs._alpha_index_basic;
+        this->_alpha_index_times = rhs._alpha_index_times;
         this->_alpha_scalar_moments = rhs._alpha_scalar_moments;
         this->_alpha_moment_mapping = rhs._alpha_moment_mapping;
 
-- 
2.43.0


From b57797e39f65fe27021ac03fd38160167b04fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:55 +0000
Subject: [PATCH 08/81] fix: a default constructed MtpQ can be destroyed

---
 source/descriptor/mtp/include/mtpMRadial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 0d8f46d..263ffb0 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -122,8 +122,8 @@ private:
     int size_ = 0;
     MtpSwitchFunc2<CoordType> switch_func2;
     ChebyshevPoly<CoordType> chebyshev;
-    CoordType* result;
-    CoordType* deriv2r;
+    CoordType* result = nullptr;
+    CoordType* deriv2r = nullptr;
 };  // class : MtpQ
 
 
-- 
2.43.0


From 0d9b97b4287c75af6a0dd6b998b24a13eed3d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:09 +0000
Subject: [PATCH 09/81] fix: assigning an object to itself leaves it unchanged

---
 source/descriptor/deepmd/include/se.h      | 3 +++
 source/descriptor/mtp/include/mtpMRadial.h | 6 ++++++
 source/descriptor/mtpr/include/basis.h     | 6 ++++++
 source/descriptor/mtpr/src/mtpParam.cc     | 3 +++
 source/nblist/include/binLinkedList.h      | 6 ++++++
 source/nblist/include/neighborList.h       | 3 +++
 source/nblist/include/structure.h          | 3 +++
 7 files changed, 30 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index fa91d85..637bb4d 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1516,6 +1516,9 @@ TildeR<CoordType>::TildeR(const TildeR<CoordType>& rhs) {
  */
 template <typename CoordType>
 TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_center_atomic_numbers != 0) {
         free(this->center_atomic_numbers_lst);
         free(this->num_center_atoms_lst);
diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 263ffb0..753ff58 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -319,6 +319,9 @@ ChebyshevPoly<CoordType>::~ChebyshevPoly()
 template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPoly& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         this->rcut = 0;
@@ -509,6 +512,9 @@ MtpQ<CoordType>::~MtpQ()
 template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->size_ != 0) {
         this->size_ = 0;
         free(this->result);
diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index d808c1e..8aa892a 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -226,6 +226,9 @@ RB_Chebyshev<CoordType>::RB_Chebyshev(RB_Chebyshev&& rhs)
 template <typename CoordType>
 RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         free(this->_vals);
         free(this->_ders2uu);
@@ -444,6 +447,9 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(RQ_Chebyshev&& rhs)
 template <typename CoordType>
 RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     if (this->_size != 0) {
         delete this->_rb_ptr;
         free(this->_vals);
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index a0c2f78..2e027c9 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -177,6 +177,9 @@ MtpParam::MtpParam(MtpParam&& rhs)
 
 MtpParam& MtpParam::operator=(const MtpParam& rhs)
 {
+    if (this == &rhs)
+        return *this;
+
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index b76766d..44edaa6 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -397,6 +397,9 @@ Supercell<CoordType>::Supercell(const Supercell &rhs) {
  */
 template <typename CoordType>
 Supercell<CoordType>& Supercell<CoordType>::operator=(const Supercell<CoordType> &rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         free(this->owned_atom_idxs);
     }
@@ -745,6 +748,9 @@ BinLinkedList<CoordType>::BinLinkedList(const BinLinkedList<CoordType>& rhs) {
  */
 template <typename CoordType>
 BinLinkedList<CoordType>& BinLinkedList<CoordType>::operator=(const BinLinkedList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->rcut != 0) {
         free(this->heads_lst);
         free(this->nexts_lst);
diff --git a/source/nblist/include/neighborList.h b/source/nblist/include/neighborList.h
index c87a24c..f3be963 100644
--- a/source/nblist/include/neighborList.h
+++ b/source/nblist/include/neighborList.h
@@ -208,6 +208,9 @@ NeighborList<CoordType>::NeighborList(const NeighborList<CoordType>& rhs) {
  */
 template <typename CoordType>
 NeighborList<CoordType>& NeighborList<CoordType>::operator=(const NeighborList<CoordType>& rhs) {
+    if (this == &rhs)
+        return *this;
+
     if (this->num_atoms != 0) {
         for (int ii=0; ii<num_atoms; ii++)
             this->neighbor_lists[ii].clear();
diff --git a/source/nblist/include/structure.h b/source/nblist/include/structure.h
index 3478f0d..5f1e930 100644
--- a/source/nblist/include/structure.h
+++ b/source/nblist/include/structure.h
@@ -317,6 +317,9 @@ Structure<CoordType>::Structure(const Structure &rhs)
  */
 template <typename CoordType>
 Structure<CoordType>& Structure<CoordType>::operator=(const Structure &rhs) {
+    if (this == &rhs)
+        return *this;
+
     // Step 1. Free memory 
     if (this->num_atoms != 0) {
         // Step 1.1. `this->basis_vectors`
-- 
2.43.0


From e8efaa7a9461d4f492cc65b5a46352295535225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 10/81] fix: a default constructed RQ_Chebyshev can be copied

---
 source/descriptor/mtpr/include/basis.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index 8aa892a..b72a4d8 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -408,8 +408,7 @@ RQ_Chebyshev<CoordType>::RQ_Chebyshev(const RQ_Chebyshev& rhs)
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = (rhs._rb_ptr != nullptr) ? new RB_Chebyshev<CoordType>(*(rhs._rb_ptr)) : nullptr;
     if (this->_size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
@@ -463,8 +462,7 @@ RQ_Chebyshev<CoordType>& RQ_Chebyshev<CoordType>::operator=(const RQ_Chebyshev&
     this->_rmax = rhs._rmax;
     this->_rmin = rhs._rmin;
     this->_switch_func = rhs._switch_func;
-    this->_rb_ptr = new RB_Chebyshev<CoordType>();
-    *(this->_rb_ptr) = *(rhs._rb_ptr);
+    this->_rb_ptr = (rhs._rb_ptr != nullptr) ? new RB_Chebyshev<CoordType>(*(rhs._rb_ptr)) : nullptr;
     if (rhs._size != 0) {
         this->_vals = (CoordType*)malloc(sizeof(CoordType) * this->_size);
         this->_ders2r = (CoordType*)malloc(sizeof(CoordType) * this->_size);
-- 
2.43.0


From 6ffb77f457e1cf5ef59da8c3854a8ae069f09502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:32 +0000
Subject: [PATCH 11/81] fix: assigning an empty MTPR object to a filled one
 leaves no dangling pointers

---
 source/descriptor/mtpr/include/basis.h | 3 +++
 source/descriptor/mtpr/src/mtpParam.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/source/descriptor/mtpr/include/basis.h b/source/descriptor/mtpr/include/basis.h
index b72a4d8..8ec66eb 100644
--- a/source/descriptor/mtpr/include/basis.h
+++ b/source/descriptor/mtpr/include/basis.h
@@ -233,6 +233,9 @@ RB_Chebyshev<CoordType>& RB_Chebyshev<CoordType>::operator=(const RB_Chebyshev&
         free(this->_vals);
         free(this->_ders2uu);
         free(this->_ders2r);
+        this->_vals = nullptr;
+        this->_ders2uu = nullptr;
+        this->_ders2r = nullptr;
         this->_size = 0;
         this->_rmax = 0.0;
         this->_rmin = 0.0;
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 2e027c9..f1ee5fc 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -183,14 +183,17 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
     this->_alpha_moments_count = 0;
     if (this->_alpha_index_basic_count != 0) {
         free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
         this->_alpha_index_basic_count = 0;
     }
     if (this->_alpha_index_times_count != 0) {
         free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
         this->_alpha_index_times_count = 0;
     }
     if (this->_alpha_scalar_moments != 0) {
         free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
         this->_alpha_scalar_moments = 0;
     }
 
-- 
2.43.0


From 48abdf2ed87b461d3325e58edb5c4b4091149460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:00 +0000
Subject: [PATCH 12/81] fix: a copy of a default MtpMCoeffPair has the level of
 the original

---
 source/descriptor/mtp/src/mtpLevel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index 13f60b0..baeda40 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -32,7 +32,7 @@ MtpMCoeffPair::MtpMCoeffPair(std::pair<int, int> coeff_pair)
 MtpMCoeffPair::MtpMCoeffPair(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
-    this->_calc_level();
+    this->_level = rhs._level;
 }
 
 MtpMCoeffPair::~MtpMCoeffPair()
@@ -44,7 +44,7 @@ MtpMCoeffPair::~MtpMCoeffPair()
 MtpMCoeffPair& MtpMCoeffPair::operator=(const MtpMCoeffPair& rhs)
 {
     this->_coeff_pair = rhs._coeff_pair;
-    this->_calc_level();
+    this->_level = rhs._level;
     return *this;
 }
 
-- 
2.43.0


From 74715747702b33d73a7946d1d612d775dd6042b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:00 +0000
Subject: [PATCH 13/81] fix: empty TildeR, MtpParam, ChebyshevPoly and MtpQ
 objects release what they allocated

---
 source/descriptor/deepmd/include/se.h      | 30 ++++++---------
 source/descriptor/mtp/include/mtpMRadial.h | 36 +++++------------
 source/descriptor/mtpr/src/mtpParam.cc     | 45 +++++++++-------------
 3 files changed, 40 insertions(+), 71 deletions(-)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index 637bb4d..bf1db40 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -1519,15 +1519,14 @@ TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
     if (this == &rhs)
         return *this;
 
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-
-        this->num_center_atomic_numbers = 0;
-        this->num_neigh_atomic_numbers = 0;
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
+    this->center_atomic_numbers_lst = nullptr;
+    this->num_center_atoms_lst = nullptr;
+    this->neigh_atomic_numbers_lst = nullptr;
+    this->num_neigh_atoms_lst = nullptr;
 
     this->neighbor_list = rhs.neighbor_list;
     this->num_center_atomic_numbers = rhs.num_center_atomic_numbers;
@@ -1560,15 +1559,10 @@ TildeR<CoordType>& TildeR<CoordType>::operator=(const TildeR<CoordType>& rhs) {
 
 template <typename CoordType>
 TildeR<CoordType>::~TildeR() {
-    if (this->num_center_atomic_numbers != 0) {
-        free(this->center_atomic_numbers_lst);
-        free(this->num_center_atoms_lst);
-    }
-
-    if (this->num_neigh_atomic_numbers != 0) {
-        free(this->neigh_atomic_numbers_lst);
-        free(this->num_neigh_atoms_lst);
-    }
+    free(this->center_atomic_numbers_lst);
+    free(this->num_center_atoms_lst);
+    free(this->neigh_atomic_numbers_lst);
+    free(this->num_neigh_atoms_lst);
 
     this->num_center_atomic_numbers = 0;
     this->num_neigh_atomic_numbers = 0;
diff --git a/source/descriptor/mtp/include/mtpMRadial.h b/source/descriptor/mtp/include/mtpMRadial.h
index 753ff58..d333b9c 100644
--- a/source/descriptor/mtp/include/mtpMRadial.h
+++ b/source/descriptor/mtp/include/mtpMRadial.h
@@ -322,14 +322,9 @@ ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(const ChebyshevPol
     if (this == &rhs)
         return *this;
 
-    if (this->size_ != 0) {
-        this->size_ = 0;
-        this->rcut = 0;
-        this->rcut_smooth = 0;
-        free(this->result);
-        free(this->deriv2xi);
-        free(this->deriv2r);
-    }
+    free(this->result);
+    free(this->deriv2xi);
+    free(this->deriv2r);
 
     this->size_ = rhs.size_;
     this->switch_func = rhs.switch_func;
@@ -350,14 +345,9 @@ template <typename CoordType>
 ChebyshevPoly<CoordType>& ChebyshevPoly<CoordType>::operator=(ChebyshevPoly&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
-            this->size_ = 0;
-            this->rcut = 0;
-            this->rcut_smooth = 0;
-            free(this->result);
-            free(this->deriv2xi);
-            free(this->deriv2r);
-        }
+        free(this->result);
+        free(this->deriv2xi);
+        free(this->deriv2r);
         this->size_ = rhs.size_;
         this->switch_func = rhs.switch_func;
         this->rcut = rhs.rcut;
@@ -515,11 +505,8 @@ MtpQ<CoordType>& MtpQ<CoordType>::operator=(const MtpQ& rhs)
     if (this == &rhs)
         return *this;
 
-    if (this->size_ != 0) {
-        this->size_ = 0;
-        free(this->result);
-        free(this->deriv2r);
-    }
+    free(this->result);
+    free(this->deriv2r);
     this->size_ = rhs.size_;
     this->switch_func2 = rhs.switch_func2;
     this->chebyshev = rhs.chebyshev;
@@ -536,11 +523,8 @@ template <typename CoordType>
 MtpQ<CoordType>& MtpQ<CoordType>::operator=(MtpQ&& rhs)
 {
     if (this != &rhs) {
-        if (this->size_ != 0) {
-            this->size_ = 0;
-            free(this->result);
-            free(this->deriv2r);
-        }
+        free(this->result);
+        free(this->deriv2r);
         this->size_ = rhs.size_;
         this->switch_func2 = rhs.switch_func2;
         this->chebyshev = rhs.chebyshev;
diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index f1ee5fc..3cfb036 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -181,21 +181,15 @@ MtpParam& MtpParam::operator=(const MtpParam& rhs)
         return *this;
 
     this->_alpha_moments_count = 0;
-    if (this->_alpha_index_basic_count != 0) {
-        free(this->_alpha_index_basic);
-        this->_alpha_index_basic = nullptr;
-        this->_alpha_index_basic_count = 0;
-    }
-    if (this->_alpha_index_times_count != 0) {
-        free(this->_alpha_index_times);
-        this->_alpha_index_times = nullptr;
-        this->_alpha_index_times_count = 0;
-    }
-    if (this->_alpha_scalar_moments != 0) {
-        free(this->_alpha_moment_mapping);
-        this->_alpha_moment_mapping = nullptr;
-        this->_alpha_scalar_moments = 0;
-    }
+    free(this->_alpha_index_basic);
+    this->_alpha_index_basic = nullptr;
+    this->_alpha_index_basic_count = 0;
+    free(this->_alpha_index_times);
+    this->_alpha_index_times = nullptr;
+    this->_alpha_index_times_count = 0;
+    free(this->_alpha_moment_mapping);
+    this->_alpha_moment_mapping = nullptr;
+    this->_alpha_scalar_moments = 0;
 
     this->_alpha_moments_count = rhs._alpha_moments_count;
     this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
@@ -232,18 +226,15 @@ MtpParam& MtpParam::operator=(MtpParam&& rhs)
 {
     if (this != &rhs) {
         this->_alpha_moments_count = 0;
-        if (this->_alpha_index_basic_count != 0) {
-            free(this->_alpha_index_basic);
-            this->_alpha_index_basic_count = 0;
-        }
-        if (this->_alpha_index_times_count != 0) {
-            free(this->_alpha_index_times);
-            this->_alpha_index_times_count = 0;
-        }
-        if (this->_alpha_scalar_moments != 0) {
-            free(this->_alpha_moment_mapping);
-            this->_alpha_scalar_moments = 0;
-        }
+        free(this->_alpha_index_basic);
+        this->_alpha_index_basic = nullptr;
+        this->_alpha_index_basic_count = 0;
+        free(this->_alpha_index_times);
+        this->_alpha_index_times = nullptr;
+        this->_alpha_index_times_count = 0;
+        free(this->_alpha_moment_mapping);
+        this->_alpha_moment_mapping = nullptr;
+        this->_alpha_scalar_moments = 0;
 
         this->_alpha_moments_count = rhs._alpha_moments_count;
         this->_alpha_index_basic_count = rhs._alpha_index_basic_count;
-- 
2.43.0


From fe2cfebdf22192fe474d67a06b8497e06e53e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 14/81] fix: RadialBasisChebyshev objects release their arrays

---
 source/descriptor/mtp/include/mtpMRadial_de.h | 40 +++++++------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/source/descriptor/mtp/include/mtpMRadial_de.h b/source/descriptor/mtp/include/mtpMRadial_de.h
index efc4499..8310a26 100644
--- a/source/descriptor/mtp/include/mtpMRadial_de.h
+++ b/source/descriptor/mtp/include/mtpMRadial_de.h
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <cassert>
 #include <cmath>
+#include <vector>
 #include "../../../nblist/include/structure.h"
 #include "../../../nblist/include/neighborList.h"
 #include "../../../core/include/vec3Operation.h"
@@ -162,10 +163,10 @@ private:
     CoordType rcut_smooth = 0;
     int hmju = 0;
     CoordType rji = 0;
-    CoordType* chebyshev_vals = nullptr;   // Store the chebyshev_vals[0], chebyshev_vals[1], ..., speed up the calculation
-    CoordType* chebyshev_ders = nullptr;   // Store the chebyshev_ders[0], chebyshev_ders[1], ..., speed up the calculation
-    CoordType* rb_vals = nullptr;
-    CoordType* rb_ders = nullptr;
+    std::vector<CoordType> chebyshev_vals;   // Store the chebyshev_vals[0], chebyshev_vals[1], ..., speed up the calculation
+    std::vector<CoordType> chebyshev_ders;   // Store the chebyshev_ders[0], chebyshev_ders[1], ..., speed up the calculation
+    std::vector<CoordType> rb_vals;
+    std::vector<CoordType> rb_ders;
 };  // RadialBasisChebyshev
 
 
@@ -177,10 +178,6 @@ RadialBasisChebyshev<CoordType>::RadialBasisChebyshev() {
     this->rcut_smooth = 0;
     this->hmju = 0;
     this->rji = 0;
-    this->chebyshev_vals = nullptr;
-    this->chebyshev_ders = nullptr;
-    this->rb_vals = nullptr;
-    this->rb_ders = nullptr;
 }
 
 
@@ -197,17 +194,10 @@ RadialBasisChebyshev<CoordType>::RadialBasisChebyshev(
     this->hmju = hmju;
     this->rji = rji;
 
-    this->chebyshev_vals = (CoordType*)malloc( sizeof(CoordType) * (this->hmju+1) );
-    this->chebyshev_ders = (CoordType*)malloc( sizeof(CoordType) * (this->hmju+1) );
-    this->rb_vals = (CoordType*)malloc( sizeof(CoordType) * (this->hmju+1) );
-    this->rb_ders = (CoordType*)malloc( sizeof(CoordType) * (this->hmju+1) );
-    
-    for (int ii=0; ii<(this->hmju+1); ii++) {
-        this->chebyshev_vals[ii] = 0;
-        this->chebyshev_ders[ii] = 0;
-        this->rb_vals[ii] = 0;
-        this->rb_ders[ii] = 0;
-    }
+    this->chebyshev_vals.assign(this->hmju+1, 0);
+    this->chebyshev_ders.assign(this->hmju+1, 0);
+    this->rb_vals.assign(this->hmju+1, 0);
+    this->rb_ders.assign(this->hmju+1, 0);
 
     this->calc_chebyshev_vals();
     this->calc_chebyshev_ders();
@@ -346,7 +336,7 @@ void RadialBasisChebyshev<CoordType>::show_in_value() const {
     printf("\t4. rji = %5f\n", this->rji);
     printf("\t5. ksi = %5f\n", (2*this->rji - this->rcut - this->rcut_smooth) / (this->rcut - this->rcut_smooth));
     
-    if (this->chebyshev_vals != nullptr) {
+    if (!this->chebyshev_vals.empty()) {
         printf("\t6. chebyshev_vals = [");
         for (int ii=0; ii<(this->hmju+1); ii++) 
             printf("%8f, ", this->chebyshev_vals[ii]);
@@ -370,7 +360,7 @@ void RadialBasisChebyshev<CoordType>::show_in_deriv() const {
     printf("\t4. rji = %5f\n", this->rji);
     printf("\t5. ksi = %5f\n", (2*this->rji - this->rcut - this->rcut_smooth) / (this->rcut - this->rcut_smooth));
     
-    if (this->chebyshev_ders != nullptr) {
+    if (!this->chebyshev_ders.empty()) {
         printf("\t6. chebyshev_ders = [");
         for (int ii=0; ii<(this->hmju+1); ii++)
             printf("%8f, ", this->chebyshev_ders[ii]);
@@ -411,25 +401,25 @@ const int RadialBasisChebyshev<CoordType>::get_hmju() const {
 
 template <typename CoordType>
 const CoordType* RadialBasisChebyshev<CoordType>::get_chebyshev_vals() const {
-    return (const CoordType*)this->chebyshev_vals;
+    return (const CoordType*)this->chebyshev_vals.data();
 }
 
 
 template <typename CoordType>
 const CoordType* RadialBasisChebyshev<CoordType>::get_chebyshev_ders() const {
-    return (const CoordType*)this->chebyshev_ders;
+    return (const CoordType*)this->chebyshev_ders.data();
 }
 
 
 template <typename CoordType>
 const CoordType* RadialBasisChebyshev<CoordType>::get_rb_vals() const {
-    return (const CoordType*)this->rb_vals;
+    return (const CoordType*)this->rb_vals.data();
 }
 
 
 template <typename CoordType>
 const CoordType* RadialBasisChebyshev<CoordType>::get_rb_ders() const {
-    return (const CoordType*)this->rb_ders;
+    return (const CoordType*)this->rb_ders.data();
 }
 
 
-- 
2.43.0


From 74139bfabd2b821b7c55cd5e63cc4ea9b79cdb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:25 +0000
Subject: [PATCH 15/81] fix: the filling overload of TildeR::deriv frees its
 index arrays

---
 source/descriptor/deepmd/include/se.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/descriptor/deepmd/include/se.h b/source/descriptor/deepmd/include/se.h
index bf1db40..8f36cc5 100644
--- a/source/descriptor/deepmd/include/se.h
+++ b/source/descriptor/deepmd/include/se.h
@@ -2451,6 +2451,8 @@ void TildeR<CoordType>::deriv(
 
     // Step . Free memory
     free(num_center_atoms_lst);
+    free(cstart_idxs);
+    free(nstart_idxs);
 }
 
 
-- 
2.43.0


From 065c421cdb040f73d6213f05da8f60fd76ac3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:14 +0000
Subject: [PATCH 16/81] fix: RecursionOuterProduct frees the lower order
 product it was built from

---
 source/core/include/vec3Operation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/include/vec3Operation.h b/source/core/include/vec3Operation.h
index 0dbaf5d..5d19a73 100644
--- a/source/core/include/vec3Operation.h
+++ b/source/core/include/vec3Operation.h
@@ -63,6 +63,9 @@ CoordType** RecursionOuterProduct(int nju, CoordType* vec) {
                 }
             }
         }
+        for (int ii=0; ii<nrows_lower; ii++)
+            free(result_lower[ii]);
+        free(result_lower);
     }
 
     return result;
-- 
2.43.0


From b186c13496049d5c2599b2fc363737508e9f74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 17/81] fix: an MtpParam whose template is rejected releases
 what it had read

---
 source/descriptor/mtpr/src/mtpParam.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 3cfb036..ff6acd5 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -20,7 +20,7 @@ MtpParam::MtpParam()
     this->_alpha_moment_mapping = nullptr;
 }
 
-MtpParam::MtpParam(const std::string& filename)
+MtpParam::MtpParam(const std::string& filename) : MtpParam()
 {
     this->_load(filename);
 }
-- 
2.43.0


From 99bedcaebf77b034ea371453e0e7c2c486c05f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 18/81] fix: copies of an AlignedArray own their memory

---
 source/core/include/AlignedArray.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/core/include/AlignedArray.h b/source/core/include/AlignedArray.h
index b30cb1e..2b31f93 100644
--- a/source/core/include/AlignedArray.h
+++ b/source/core/include/AlignedArray.h
@@ -46,6 +46,19 @@ public:
         this->allocate(size);
     }
 
+    AlignedArray(const AlignedArray& rhs) : data_size(0), base_ptr(0), data(0) {
+        *this = rhs;
+    }
+
+    AlignedArray& operator=(const AlignedArray& rhs) {
+        if (this == &rhs)
+            return *this;
+        this->resize(rhs.data_size);
+        for (int ii=0; ii<this->data_size; ii++)
+            this->data[ii] = rhs.data[ii];
+        return *this;
+    }
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From e8b492d6b923b82951920debd7f04aa46d34af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:23 +0000
Subject: [PATCH 19/81] fix: the MTP basis lists every coefficient pair
 combination once

---
 source/descriptor/mtp/src/mtpLevel.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpLevel.cc b/source/descriptor/mtp/src/mtpLevel.cc
index baeda40..6ad8198 100644
--- a/source/descriptor/mtp/src/mtpLevel.cc
+++ b/source/descriptor/mtp/src/mtpLevel.cc
@@ -192,11 +192,19 @@ std::vector<std::vector<MtpMCoeffPair>> MtpMCoeffPairCombs::get_contracted_combs
 void MtpMCoeffPairCombs::_build() 
 {
     this->_coeff_pair_combs.clear();
+    // get_all_schemes4lev() reaches a combination once per order of its pairs of equal level.
+    std::set<std::vector<std::pair<int, int>>> listed;
     for (int ii=0; ii<=this->_max_level; ii++) {
         std::vector<std::vector<MtpMCoeffPair>> tmp_combs = get_all_schemes4lev(ii, 0, 0);
         std::vector<std::vector<MtpMCoeffPair>> tmp_contracted_combs = get_contracted_combs(tmp_combs);
-        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs)
-            this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        for (std::vector<MtpMCoeffPair> tmp_contracted_comb : tmp_contracted_combs) {
+            std::vector<std::pair<int, int>> key;
+            for (const MtpMCoeffPair& tmp_cp : tmp_contracted_comb)
+                key.push_back(tmp_cp.coeff_pair());
+            std::sort(key.begin(), key.end());
+            if (listed.insert(key).second)
+                this->_coeff_pair_combs.push_back(tmp_contracted_comb);
+        }
     }
 }
 
-- 
2.43.0


From d0a18d6c1359bbdfc846c52372906e4ac5d8f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:23 +0000
Subject: [PATCH 20/81] fix: MtpMCoeffPairCombs::operator[] compiles when it is
 used

---
 source/descriptor/mtp/include/mtpLevel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/include/mtpLevel.h b/source/descriptor/mtp/include/mtpLevel.h
index 6619da2..1072be9 100644
--- a/source/descriptor/mtp/include/mtpLevel.h
+++ b/source/descriptor/mtp/include/mtpLevel.h
@@ -74,7 +74,7 @@ public:
     template <typename Arg>
     decltype(auto) operator[](Arg&& arg)
     {
-        return this->_coeff_pair_combs[std::forward(arg)];
+        return this->_coeff_pair_combs[std::forward<Arg>(arg)];
     }
 
     void show() const;
-- 
2.43.0


From 0a1d09bed972bdbb7cd7a4fa9df8bd0beff5b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:40 +0000
Subject: [PATCH 21/81] fix: an MTP template with a negative count is rejected

---
 source/descriptor/mtpr/src/mtpParam.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index ff6acd5..2987a87 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -44,7 +44,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_moment_counts.");
     ifs.ignore(2);
     ifs >> this->_alpha_moments_count;
-    if (ifs.fail()) 
+    if (ifs.fail() || this->_alpha_moments_count < 0) 
         MtpError("Cannot read alpha_moment_counts.");
     
     // alpha_index_basic_count
@@ -53,7 +53,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_basic_count.");
     ifs.ignore(2);
     ifs >> this->_alpha_index_basic_count;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_index_basic_count < 0)
         MtpError("Cannot read alpha_index_basic_count.");
     
     // alpha_index_basic
@@ -80,7 +80,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_index_times_count.");
     ifs.ignore(2);
     ifs >> this->_alpha_index_times_count;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_index_times_count < 0)
         MtpError("Cannot read alpha_index_times_count.");
 
     // alpha_index_times
@@ -109,7 +109,7 @@ void MtpParam::_load(const std::string& filename)
         MtpError("Cannot read alpha_scalar_moments.");
     ifs.ignore(2);
     ifs >> this->_alpha_scalar_moments;
-    if (ifs.fail())
+    if (ifs.fail() || this->_alpha_scalar_moments < 0)
         MtpError("Cannot read alpha_scalar_moments.");
     
     // alpha_moment_mapping
-- 
2.43.0


From d9b93efd4a7b96c17ffe21ccd8f059b9d1303a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:40 +0000
Subject: [PATCH 22/81] fix: loading a template into a filled MtpParam releases
 the old tables

---
 source/descriptor/mtpr/src/mtpParam.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/descriptor/mtpr/src/mtpParam.cc b/source/descriptor/mtpr/src/mtpParam.cc
index 2987a87..14bf12c 100644
--- a/source/descriptor/mtpr/src/mtpParam.cc
+++ b/source/descriptor/mtpr/src/mtpParam.cc
@@ -34,6 +34,7 @@ void MtpParam::_load(const std::string& filename)
     }
     char tmpline[1000];
     std::string tmpstr;
+    *this = MtpParam();
 
     for (int ii=0; ii<10; ii++) 
         ifs.ignore(5000, '\n');
-- 
2.43.0


From 06e293690a3e1a93f97c1807232be9d13f8af3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 23/81] fix: the DeepPot operators accept tensors that are not
 contiguous

---
 source/descriptor/deepmd/src/envMatrixOp.cc | 12 +++---
 source/descriptor/deepmd/src/se4pw_op.cc    | 47 +++++++++++++--------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/source/descriptor/deepmd/src/envMatrixOp.cc b/source/descriptor/deepmd/src/envMatrixOp.cc
index 0145ddc..4a13c4b 100644
--- a/source/descriptor/deepmd/src/envMatrixOp.cc
+++ b/source/descriptor/deepmd/src/envMatrixOp.cc
@@ -147,12 +147,12 @@ torch::autograd::variable_list EnvMatrixOp(
     double rcut_smooth)
 {
     return EnvMatrixFunction::apply(
-        ilist_tensor,
-        numneigh_tensor,
-        firstneigh_tensor,
-        relative_coords_tensor,
-        types_tensor,
-        umax_num_neigh_atoms_lst_tensor,
+        ilist_tensor.contiguous(),
+        numneigh_tensor.contiguous(),
+        firstneigh_tensor.contiguous(),
+        relative_coords_tensor.contiguous(),
+        types_tensor.contiguous(),
+        umax_num_neigh_atoms_lst_tensor.contiguous(),
         rcut,
         rcut_smooth);
 }
diff --git a/source/descriptor/deepmd/src/se4pw_op.cc b/source/descriptor/deepmd/src/se4pw_op.cc
index 6caf014..4370042 100644
--- a/source/descriptor/deepmd/src/se4pw_op.cc
+++ b/source/descriptor/deepmd/src/se4pw_op.cc
@@ -51,6 +51,13 @@ torch::autograd::variable_list Se4pwOp::forward(
     types.to(int_dtype);
     num_neigh_atoms_lst.to(int_dtype);
     
+    // data_ptr() ignores strides
+    at::Tensor ilist_c = ilist.contiguous();
+    at::Tensor numneigh_c = numneigh.contiguous();
+    at::Tensor firstneigh_c = firstneigh.contiguous();
+    at::Tensor x_c = x.contiguous();
+    at::Tensor types_c = types.contiguous();
+    at::Tensor num_neigh_atoms_lst_c = num_neigh_atoms_lst.contiguous();
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor tilde_r = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4}, tensor_options);
     at::Tensor tilde_r_deriv = at::zeros({batch_size, inum, tot_num_neigh_atoms, 4, 3}, tensor_options);
@@ -67,13 +74,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<float>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_c[ii].data_ptr<int>(),
+                    numneigh_c[ii].data_ptr<int>(),
+                    firstneigh_c[ii].data_ptr<int>(),
+                    x_c[ii].data_ptr<float>(),
+                    types_c[ii].data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_c.data_ptr<int>(),
                     (float)rcut,
                     (float)rcut_smooth);
         }
@@ -88,13 +95,13 @@ torch::autograd::variable_list Se4pwOp::forward(
                     tilde_r_deriv_ptr,
                     relative_coords_ptr,
                     inum,
-                    ilist[ii].data_ptr<int>(),
-                    numneigh[ii].data_ptr<int>(),
-                    firstneigh[ii].data_ptr<int>(),
-                    x[ii].data_ptr<double>(),
-                    types[ii].data_ptr<int>(),
+                    ilist_c[ii].data_ptr<int>(),
+                    numneigh_c[ii].data_ptr<int>(),
+                    firstneigh_c[ii].data_ptr<int>(),
+                    x_c[ii].data_ptr<double>(),
+                    types_c[ii].data_ptr<int>(),
                     ntypes,
-                    num_neigh_atoms_lst.data_ptr<int>(),
+                    num_neigh_atoms_lst_c.data_ptr<int>(),
                     rcut,
                     rcut_smooth);
         }
@@ -125,6 +132,12 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
     types.to(int_dtype);
     num_neigh_atoms_lst.to(int_dtype);
 
+    // data_ptr() ignores strides
+    at::Tensor ilist_c = ilist.contiguous();
+    at::Tensor numneigh_c = numneigh.contiguous();
+    at::Tensor firstneigh_c = firstneigh.contiguous();
+    at::Tensor types_c = types.contiguous();
+    at::Tensor num_neigh_atoms_lst_c = num_neigh_atoms_lst.contiguous();
     int tot_num_neigh_atoms = num_neigh_atoms_lst.sum().item<int>();
     at::Tensor prim_indices = at::zeros({batch_size, inum, tot_num_neigh_atoms}).to(int_dtype);
 
@@ -133,12 +146,12 @@ at::Tensor Se4pwOp::get_prim_indices_from_matersdk(
         Se4pw<double>::get_prim_indices_from_matersdk(
             prim_indices_ptr,
             inum,
-            ilist[ii].data_ptr<int>(),
-            numneigh[ii].data_ptr<int>(),
-            firstneigh[ii].data_ptr<int>(),
-            types[ii].data_ptr<int>(),
+            ilist_c[ii].data_ptr<int>(),
+            numneigh_c[ii].data_ptr<int>(),
+            firstneigh_c[ii].data_ptr<int>(),
+            types_c[ii].data_ptr<int>(),
             ntypes,
-            num_neigh_atoms_lst.data_ptr<int>());
+            num_neigh_atoms_lst_c.data_ptr<int>());
     }
 
     return prim_indices;
-- 
2.43.0


From a2e3c5fbf9a643725ac83a58a4c51413a5fb7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 24/81] fix: the MTP operators accept tensors that are not
 contiguous

---
 source/descriptor/mtp/src/mtpBModule.cc   | 4 ++--
 source/descriptor/mtp/src/mtpMModule.cc   | 3 ++-
 source/descriptor/mtp/src/mtpMRadialOp.cc | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index ad55c7c..a49e503 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -39,8 +39,8 @@ at::Tensor MtpBModuleImpl::forward(
     c10::TensorOptions options = c10::TensorOptions()
         .dtype(rcs_tensor.scalar_type())
         .device(rcs_tensor.device());
-    int64_t* ilist_ptr = ilist_tensor.data_ptr<int64_t>();
-    int64_t* firstneigh_ptr = firstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ilist_contiguous = ilist_tensor.contiguous();
+    int64_t* ilist_ptr = ilist_contiguous.data_ptr<int64_t>();
     int64_t nbatches = ilist_tensor.sizes()[0];
     int64_t ncenters = ilist_tensor.sizes()[1];
     int64_t nbasis = this->_coeff_pair_combs.size();
diff --git a/source/descriptor/mtp/src/mtpMModule.cc b/source/descriptor/mtp/src/mtpMModule.cc
index ba11e0a..bdbdf3b 100644
--- a/source/descriptor/mtp/src/mtpMModule.cc
+++ b/source/descriptor/mtp/src/mtpMModule.cc
@@ -55,7 +55,8 @@ at::Tensor MtpMModuleImpl::forward(
     at::Tensor imtp_m_tensor = at::zeros(imtp_m_tensor_shape, options)
         .requires_grad_(false);
     int64_t z_i = types[iidx].item<int64_t>();
-    int64_t* ifirstneigh = ifirstneigh_tensor.data_ptr<int64_t>();
+    at::Tensor ifirstneigh_contiguous = ifirstneigh_tensor.contiguous();
+    int64_t* ifirstneigh = ifirstneigh_contiguous.data_ptr<int64_t>();
     at::Tensor imtp_q_tensor = MtpQOp(   // .shape = [nneighs, size]
         this->size,
         this->rcuts_tensor,
diff --git a/source/descriptor/mtp/src/mtpMRadialOp.cc b/source/descriptor/mtp/src/mtpMRadialOp.cc
index 7d7f04d..1d60f2f 100644
--- a/source/descriptor/mtp/src/mtpMRadialOp.cc
+++ b/source/descriptor/mtp/src/mtpMRadialOp.cc
@@ -139,7 +139,7 @@ torch::autograd::variable_list MtpQOp(
     const at::Tensor& rcuts_tensor,
     const at::Tensor& rcs_tensor)
 {
-    return MtpQFunction::apply(size, rcuts_tensor, rcs_tensor);
+    return MtpQFunction::apply(size, rcuts_tensor, rcs_tensor.contiguous());
 }
 
 };  // class : mtp
-- 
2.43.0


From b7407bfa1681e1f1e0d6256d81d4131d557b60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:10 +0000
Subject: [PATCH 25/81] fix: MtpBModule reads the types of each structure of a
 batch

---
 source/descriptor/mtp/src/mtpBModule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/descriptor/mtp/src/mtpBModule.cc b/source/descriptor/mtp/src/mtpBModule.cc
index a49e503..919f1e9 100644
--- a/source/descriptor/mtp/src/mtpBModule.cc
+++ b/source/descriptor/mtp/src/mtpBModule.cc
@@ -63,7 +63,7 @@ at::Tensor MtpBModuleImpl::forward(
                         tmp_nu,
                         tmp_iidx,
                         firstneigh_tensor[ii][jj],
-                        types_tensor,
+                        types_tensor.dim() == 1 ? types_tensor : types_tensor[ii],
                         rcs_tensor[ii][jj]);
                     int64_t dim1 = partial_mtp_b_tensor.dim();
                     int64_t dim2 = tmp_mtp_m_tensor.dim();
-- 
2.43.0


From edbd6635fd086c8270ed077693f56d7376ed810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:45 +0000
Subject: [PATCH 26/81] fix: the neighbour table returned by find_info4mlff
 owns its memory

---
 source/nblist/bind/nblist_bind.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 66ba7d4..5aaf6df 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -136,7 +136,7 @@ PyObject* find_info4mlff(
     firstneigh_dims[0] = inum;
     firstneigh_dims[1] = umax_num_neigh_atoms;
     PyObject* firstneigh_py = PyArray_SimpleNewFromData(2, firstneigh_dims, NPY_INT, firstneigh);
-    PyArray_ENABLEFLAGS((PyArrayObject*)numneigh_py, NPY_OWNDATA);
+    PyArray_ENABLEFLAGS((PyArrayObject*)firstneigh_py, NPY_OWNDATA);
     // Step 4.5. relative_coords
     npy_intp* relative_coords_dims = (npy_intp*)malloc(sizeof(npy_intp) * 3);
     relative_coords_dims[0] = inum;
-- 
2.43.0


From e170af1506dacf89c78e7556b88a7389a9845e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 27/81] fix: find_info4mlff reads arrays of any memory layout
 and number type

---
 source/nblist/bind/nblist_bind.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 5aaf6df..5e1ee83 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -52,9 +52,16 @@ PyObject* find_info4mlff(
 
     // Step 1. Init matersdk::Structure<double>
     // Step 1.1. 
-    PyArrayObject* lattice_py_array = (PyArrayObject*)lattice_py;
-    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)atomic_numbers_py;
-    PyArrayObject* frac_coords_py_array = (PyArrayObject*)frac_coords_py;
+    // C-contiguous arrays of the expected type (a copy is made only when it is needed)
+    PyArrayObject* lattice_py_array = (PyArrayObject*)PyArray_FROM_OTF(lattice_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    PyArrayObject* atomic_numbers_py_array = (PyArrayObject*)PyArray_FROM_OTF(atomic_numbers_py, NPY_INT, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);
+    PyArrayObject* frac_coords_py_array = (PyArrayObject*)PyArray_FROM_OTF(frac_coords_py, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (lattice_py_array == NULL || atomic_numbers_py_array == NULL || frac_coords_py_array == NULL) {
+        Py_XDECREF(lattice_py_array);
+        Py_XDECREF(atomic_numbers_py_array);
+        Py_XDECREF(frac_coords_py_array);
+        return NULL;
+    }
     int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
 
@@ -75,6 +82,9 @@ PyObject* find_info4mlff(
         frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
         frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
     }
+    Py_DECREF(lattice_py_array);
+    Py_DECREF(atomic_numbers_py_array);
+    Py_DECREF(frac_coords_py_array);
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-- 
2.43.0


From 347c25dfe2ab4c5a5acf8be5328e54c0c4baa0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 28/81] fix: DStructure.from_str reads the extractor's current
 interface

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 4faaec4..45ca73b 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -89,9 +89,9 @@ class DStructure(Structure):
         if (str_format == "pwmat"):
             atom_config_str_extractor = ACstrExtractor(atom_config_str=str_content)
             structure = Structure(
-                            lattice=atom_config_str_extractor.basis_vectors_array,
-                            species=atom_config_str_extractor.species_array,
-                            coords=atom_config_str_extractor.coords_array,
+                            lattice=atom_config_str_extractor.get_basis_vectors().reshape(3, 3),
+                            species=atom_config_str_extractor.get_types(),
+                            coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
-- 
2.43.0


From 268c40bfd1915a37d25e6345dd02f4b97ac9cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 29/81] fix: ACstrExtractor.get_magmoms finds the magnetic
 moments of a frame

---
 matersdk/io/pwmat/utils/acextractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index fca462b..f645433 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -328,7 +328,7 @@ class ACstrExtractor(ACExtractorBase):
         magnetic_moments_lst = []
         try:
             aim_content = "MAGNETIC"
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
             
             magnetic_moments_content = self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]
             magnetic_moments_lst = [float(tmp_magnetic_moment.split()[-1]) for tmp_magnetic_moment in magnetic_moments_content]
-- 
2.43.0


From e06586b7bc165d557cdd160f31f7cdd70c3def7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 30/81] fix: MVExtractor lists the extra properties of one
 frame in the order of its labels

---
 matersdk/io/pwmat/utils/mvextractor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/mvextractor.py b/matersdk/io/pwmat/utils/mvextractor.py
index 1ca0146..5d37bc4 100644
--- a/matersdk/io/pwmat/utils/mvextractor.py
+++ b/matersdk/io/pwmat/utils/mvextractor.py
@@ -97,12 +97,12 @@ class MVExtractor(object):
         if self.virial_mark:
             virial = ace_str_extractor.get_virial()
             infos.append( virial )
-        if self.magmoms_mark:
-            magmoms = ace_str_extractor.get_magmoms()
-            infos.append( magmoms )
         if self.eatoms_mark:
             eatoms = ace_str_extractor.get_eatoms()
             infos.append( eatoms )
+        if self.magmoms_mark:
+            magmoms = ace_str_extractor.get_magmoms()
+            infos.append( magmoms )
         
         return infos
     
@@ -164,7 +164,7 @@ class MVExtractor(object):
         if self.virial_mark:
             info_labels.append("virial")
         if self.eatoms_mark:
-            info_labels.append("etaoms")
+            info_labels.append("eatoms")
         if self.magmoms_mark:
             info_labels.append("magmoms")
         
-- 
2.43.0


From 02675de3ba946f8d6938f406e9bdbaa55e86a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 31/81] fix: ACExtractor reads the file as it is now, not a
 cached copy of it

---
 matersdk/io/pwmat/utils/acextractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index f645433..481c1ac 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -4,7 +4,6 @@
 2. ACEstrExtractor: Extract info from string of MOVEMENT
 '''
 import re
-import linecache
 import numpy as np
 from abc import ABC, abstractmethod
 from typing import List, Union, Optional
@@ -95,7 +94,8 @@ class ACExtractor(ACExtractorBase):
             1. 得到体系的总原子数目
         '''
         # atom.config 文件第一行综合描述这个体系
-        first_row = linecache.getline(self.atom_config_path, 1)
+        with open(self.atom_config_path, "r") as f:
+            first_row = f.readline()
         num_atoms = int( first_row.split()[0] )
         return num_atoms
 
@@ -122,8 +122,10 @@ class ACExtractor(ACExtractorBase):
                             content=content)[0]
 
         ### Step 2. 获取基矢向量
-        for row_idx in [idx_row+1, idx_row+2, idx_row+3]:
-            row_content:List[str] = linecache.getline(self.atom_config_path, row_idx).split()[:3]
+        with open(self.atom_config_path, 'r') as f:
+            atom_config_content = f.readlines()
+        for row_idx in [idx_row, idx_row+1, idx_row+2]:
+            row_content:List[str] = atom_config_content[row_idx].split()[:3]
             
             for value in row_content:
                 basis_vectors.append(float(value))
-- 
2.43.0


From b3488b0deb539c532b8e494cfd56b736e0e4a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:19 +0000
Subject: [PATCH 32/81] fix: Movement implements every method of Trajectory and
 can be created

---
 matersdk/io/pwmat/output/movement.py | 31 ++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index ae07ef6..397f715 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -317,5 +317,32 @@ class Movement(Trajectory):
             virial_tensor = np.vstack([virial_tensor_x, virial_tensor_y, virial_tensor_z])
         
         return virial_tensor
-            
-    
\ No newline at end of file
+    
+    
+    def get_frame_volume(self, idx_frame:int):
+        '''
+        Description
+        -----------
+            1. 获取某一帧的体积 (unit: Angstrom^3)
+        
+        Parameters
+        ----------
+            1. idx_frame: int
+                - 第几帧 (从第 0 帧开始计数)
+        '''
+        return self.get_frame_structure(idx_frame=idx_frame).volume
+    
+    
+    def get_max_num_nbrs_real(self, rcut:float, scaling_matrix:List[int]):
+        '''
+        Description
+        -----------
+            1. 所有帧中，截断半径内的最大近邻原子数目
+        '''
+        return max(
+            StructureNeighborsUtils.get_max_num_nbrs_real(
+                                    structure=tmp_structure,
+                                    rcut=rcut,
+                                    scaling_matrix=scaling_matrix)
+            for tmp_structure in self.get_all_frame_structures()
+        )
-- 
2.43.0


From 0a1f47cfc0345c0881c521fda930ef2ec20fe475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:20 +0000
Subject: [PATCH 33/81] fix: the energies of a frame are found in both forms of
 the MOVEMENT header

---
 matersdk/io/pwmat/output/movement.py   | 8 +++++---
 matersdk/io/pwmat/utils/acextractor.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/matersdk/io/pwmat/output/movement.py b/matersdk/io/pwmat/output/movement.py
index 397f715..3857d14 100644
--- a/matersdk/io/pwmat/output/movement.py
+++ b/matersdk/io/pwmat/output/movement.py
@@ -272,9 +272,11 @@ class Movement(Trajectory):
 
         ### 2. 获取Etot, Ep, Ek
         first_row_lst = frame_str.split('\n')[0].split()    # 某一帧 chunk 的第一行
-        energy_tot = float( first_row_lst[8].strip() )
-        energy_p = float( first_row_lst[9].strip() )
-        energy_k = float( first_row_lst[10][:-1].strip() )
+        # 第二个等号前面是Etot,Ep,Ek，后面三个数分别是 Etot, Ep, Ek
+        equal_1_idx = ListLocator.locate_all_lines(strs_lst=first_row_lst, content="=")[1]
+        energy_tot = float( first_row_lst[equal_1_idx+1].strip() )
+        energy_p = float( first_row_lst[equal_1_idx+2].strip() )
+        energy_k = float( first_row_lst[equal_1_idx+3].strip().rstrip(',') )
 
         return energy_tot, energy_p, energy_k
     
diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 481c1ac..6a8629c 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -344,10 +344,11 @@ class ACstrExtractor(ACExtractorBase):
         '''
         [' 216 atoms', 'Iteration (fs) =    0.3000000000E+01', ' Etot', 'Ep', 'Ek (eV) =   -0.2831881714E+05  -0.2836665392E+05   0.4783678177E+02', ' SCF =     7']
         '''
+        # Some versions of PWmat write `Etot,Ep,Ek=` instead of `Etot,Ep,Ek (eV) =`
         strs_lst = self.strs_lst[0].split(",")
-        aim_index = ListLocator.locate_all_lines(strs_lst=strs_lst, content="EK (EV) =")[0]
-        # strs_lst[aim_index].split() = ['Ek', '(eV)', '=', '-0.2831881714E+05', '-0.2836665392E+05', '0.4783678177E+02']
-        return np.array([ float(strs_lst[aim_index].split()[3].strip()) ])
+        aim_index = ListLocator.locate_all_lines(strs_lst=[tmp_str.strip()[:2] for tmp_str in strs_lst], content="EK")[0]
+        # strs_lst[aim_index].split("=")[1].split() = ['-0.2831881714E+05', '-0.2836665392E+05', '0.4783678177E+02']
+        return np.array([ float(strs_lst[aim_index].split("=")[1].split()[0]) ])
   
     
     def get_eatoms(self):
-- 
2.43.0


From 1c141712d2955838c6a027a0feb5f1a74bf751ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:21 +0000
Subject: [PATCH 34/81] fix: forces of a relaxation step are read from the
 force block, not from the header

---
 matersdk/io/pwmat/utils/acextractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/utils/acextractor.py b/matersdk/io/pwmat/utils/acextractor.py
index 6a8629c..52cdd5b 100644
--- a/matersdk/io/pwmat/utils/acextractor.py
+++ b/matersdk/io/pwmat/utils/acextractor.py
@@ -383,7 +383,8 @@ class ACstrExtractor(ACExtractorBase):
         try:
             forces_lst = []
             aim_content = "Force".upper()
-            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst, content=aim_content)[0]
+            # The first line of a relaxation step contains `Average Force=`, so it is skipped
+            aim_idx = ListLocator.locate_all_lines(strs_lst=self.strs_lst[1:], content=aim_content)[0] + 1
             
             for tmp_str in self.strs_lst[aim_idx+1: aim_idx+self.num_atoms+1]:
                 # ['14', '0.089910342901203', '0.077164252174742', '0.254144099204679']
-- 
2.43.0


From 27c250c2f145ca9ac6676f48e3600076b7b0a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:34 +0000
Subject: [PATCH 35/81] fix: DStructure.to writes the documented format vasp

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 45ca73b..e7166da 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -127,7 +127,7 @@ class DStructure(Structure):
         '''
         if (file_format != "pwmat"):
             super(DStructure, self).to(
-                                    fmt=file_format,
+                                    fmt="poscar" if (file_format == "vasp") else file_format,
                                     filename=file_path)
         
         if (file_format == "pwmat"):
-- 
2.43.0


From 94edf6459d17187f8f5f3ffcd78432fe78e12dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:34 +0000
Subject: [PATCH 36/81] fix: DStructure.from_file sorts the sites when asked to

---
 matersdk/io/publicLayer/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index e7166da..ba1fb00 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -60,6 +60,8 @@ class DStructure(Structure):
                 coords_are_cartesian=False) # atom.config 默认均为分数坐标
 
         structure.__class__ = cls
+        if sort:
+            structure.reformat_elements_()
         return structure
     
     
-- 
2.43.0


From 56dfbd39f35d17ed5c684f1c860c6c56c59f4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:22 +0000
Subject: [PATCH 37/81] fix: merged InfoSets keep the composition of their own
 formula

---
 matersdk/data/infosets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matersdk/data/infosets.py b/matersdk/data/infosets.py
index 38748b2..5c5311d 100644
--- a/matersdk/data/infosets.py
+++ b/matersdk/data/infosets.py
@@ -93,6 +93,7 @@ class InfoSets(object):
                         eatom_lst.append(tmp_infoset.eatom)
                         magmom_lst.append(tmp_infoset.magmom)
                         num_frames_lst.append(tmp_infoset.num_frames)
+                        formula_dict:Dict[str, int] = tmp_infoset.formula_dict
                 parameters:List[str, np.ndarray] = {}
                 parameters.update({"box": np.concatenate(box_lst, axis=0)})
                 parameters.update({"types": np.concatenate(types_lst, axis=0)})
@@ -100,7 +101,7 @@ class InfoSets(object):
                 parameters.update({"etot": np.concatenate(etot_lst, axis=0)})
                 parameters.update({"fatom": np.concatenate(fatom_lst, axis=0)})
                 parameters.update({"formula": tmp_formula})
-                parameters.update({"formula_dict": tmp_infoset.formula_dict})
+                parameters.update({"formula_dict": formula_dict})
                 parameters.update({"num_frames": sum(num_frames_lst)})
                 if not False in virial_mark_lst:
                     parameters.update({"virial": np.concatenate(virial_lst, axis=0)})
-- 
2.43.0


From dbf39fe2012b7c51b91a5ff741c815a1c00f3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 38/81] fix: structures of a trajectory carry the forces,
 energies and moments of their atoms again

---
 matersdk/io/publicLayer/structure.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index ba1fb00..308e2c2 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -95,6 +95,18 @@ class DStructure(Structure):
                             species=atom_config_str_extractor.get_types(),
                             coords=atom_config_str_extractor.get_coords().reshape(-1, 3),
                             coords_are_cartesian=coords_are_cartesian)
+            # Properties of the sites: zeros if the frame doesn't contain them
+            structure.add_site_property("atomic_force", atom_config_str_extractor.get_fatoms().reshape(-1, 3))
+            try:
+                eatoms = atom_config_str_extractor.get_eatoms()
+            except AttributeError:
+                eatoms = np.zeros(structure.num_sites)
+            structure.add_site_property("atomic_energy", eatoms.reshape(-1, 1))
+            try:
+                magmoms = atom_config_str_extractor.get_magmoms()
+            except AttributeError:
+                magmoms = np.zeros(structure.num_sites)
+            structure.add_site_property("magmom", magmoms)
         else:
             raise ValueError("Note: Other format besides pwmat can't read now!!!")
         
-- 
2.43.0


From a79b04104146a94daace0d75cca82d9adfec3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 39/81] fix: remove_vacanies removes the vacancies only

---
 matersdk/io/publicLayer/structure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 308e2c2..82f7c5b 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -377,8 +377,7 @@ class DStructure(Structure):
             if str(site.specie) == "X0+":
                 remove_indexes_lst.append(tmp_idx)
     
-        for tmp_idx in remove_indexes_lst:
-            self.remove_sites(indices=remove_indexes_lst)
+        self.remove_sites(indices=remove_indexes_lst)
     
     
     def make_supercell_(self,
-- 
2.43.0


From 5cbe8102841639189699987cb989e14b6d664a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 40/81] fix: get_natoms orders the elements by atomic number as
 documented

---
 matersdk/io/publicLayer/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 82f7c5b..2b07a4e 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -639,8 +639,8 @@ class DStructure(Structure):
         if atomic_numbers_order:
             pass
         else:
-            # list( dict_keys([3, 14]) )
-            atomic_numbers_order:List[int] = list( an_counter.keys() )
+            # [3, 14]
+            atomic_numbers_order:List[int] = sorted( an_counter.keys() )
             
         natoms:List[int] = [an_counter[tmp_an] for tmp_an in atomic_numbers_order]
         natoms.insert(0, self.num_sites)
-- 
2.43.0


From bd44da9de86965328b3fa4d4f1e6bb1ccb8b15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 41/81] fix: reformat_elements keeps every atom at its own
 position

---
 matersdk/io/publicLayer/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 2b07a4e..3739702 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -269,7 +269,7 @@ class DStructure(Structure):
         #print(new_species_lst)
         
         ### Step 2.3. `coords` and `coords_are_cartesian`
-        new_coords = self.frac_coords
+        new_coords = [tmp_site.frac_coords for tmp_site in new_sites_lst]
         new_coords_are_cartesian = False
         #print(new_coords)
         
-- 
2.43.0


From 9577e454758e8557aebcaaa77fa54ee7e78690a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 42/81] fix: reformat_elements works on structures without
 magnetic moments

---
 matersdk/io/publicLayer/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/publicLayer/structure.py b/matersdk/io/publicLayer/structure.py
index 3739702..9ca2cb8 100644
--- a/matersdk/io/publicLayer/structure.py
+++ b/matersdk/io/publicLayer/structure.py
@@ -276,9 +276,9 @@ class DStructure(Structure):
         ### Step 2.4. `site_properties`
         new_site_properties = {}
         ### Step 2.4.1. `magmom`
-        new_magmom = [tmp_site.magmom for tmp_site in new_sites_lst]
-        
-        new_site_properties.update({"magmom": new_magmom})
+        if "magmom" in self.site_properties:
+            new_magmom = [tmp_site.properties["magmom"] for tmp_site in new_sites_lst]
+            new_site_properties.update({"magmom": new_magmom})
         #print(new_site_properties)
         
         structure = DStructure(
-- 
2.43.0


From 1c3346fcdcf053e981a964c733001097b4ef3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 43/81] fix: type_map.raw of a StructCollection lists the
 elements

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 36f0607..c31ab84 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -221,7 +221,7 @@ class StructCollection(object):
         for tmp_tm, tmp_an in enumerate(self.atomic_numbers_lst):
             an2tm.update({tmp_an: tmp_tm})
 
-        type_map_str = "\n".join([str(tmp_tm) for tmp_tm in an2tm.values()])
+        type_map_str = "\n".join([atomic_number2specie[tmp_an] for tmp_an in an2tm.keys()])
         type_map_str += "\n"
         with open(f"{dir_path}/type_map.raw", 'w') as f:
             f.write(type_map_str)
-- 
2.43.0


From 3ca806204683807e7e1d0aefaf3bb7483a3b2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 44/81] fix: a sub-collection without virials can be saved

---
 matersdk/data/struct_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index c31ab84..8ef775a 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -303,7 +303,7 @@ class StructCollection(object):
         try:    # 不包含 Virial 信息
             virial_tensors_array = np.array([struct_collection.virial_tensors_array[tmp_index] for tmp_index in indices_lst])
         except IndexError as e:
-            virial_tensors_array = np.zeros(10);
+            virial_tensors_array = np.array([])
             
                 
         return StructCollection(
-- 
2.43.0


From b3caa0ac6c43e21254cbeb3eaf866596b0053df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:09 +0000
Subject: [PATCH 45/81] fix: StructCollection.save_all_info writes atom.config,
 with or without virials

---
 matersdk/data/struct_collection.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 8ef775a..6be90a1 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -361,8 +361,8 @@ class StructCollection(object):
             
             ### Step 1.2. 保存相关信息
             self.structures_lst[tmp_idx].to(
-                                    output_file_format="pwmat",
-                                    output_file_path=os.path.join(tmp_image_dir_path, "atom.config"))
+                                    file_format="pwmat",
+                                    file_path=os.path.join(tmp_image_dir_path, "atom.config"))
             # 1. box.npy
             np.save(
                     file=os.path.join(tmp_image_dir_path, "box.npy"),
@@ -396,10 +396,11 @@ class StructCollection(object):
                     arr=self.structures_lst[tmp_idx].get_atomic_force()
             )
             # 8. virial
-            np.save(
-                    file=os.path.join(tmp_image_dir_path, "virial.npy"),
-                    arr=self.virial_tensors_array[tmp_idx]
-            )
+            if len(self.virial_tensors_array) > 0:
+                np.save(
+                        file=os.path.join(tmp_image_dir_path, "virial.npy"),
+                        arr=self.virial_tensors_array[tmp_idx]
+                )
             # 9. atomic_number
             np.save(
                     file=os.path.join(tmp_image_dir_path, "atomic_number.npy"),
-- 
2.43.0


From 9f749871a6d02f6e30597b5436087691c48ec62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:09 +0000
Subject: [PATCH 46/81] fix: StructCollection works on machines with one or two
 processors

---
 matersdk/data/struct_collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 6be90a1..254e441 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -421,7 +421,7 @@ class StructCollection(object):
                         self.structures_lst[tmp_idx],
                         scaling_matrix) for tmp_idx in range(self.num_structures)]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             pool.starmap(ParallelFunction.save_struct_nbr, parameters_lst)
 
 
@@ -439,7 +439,7 @@ class StructCollection(object):
                     tmp_structure,
                     rcut,
                     scaling_matrix) for tmp_structure in self.structures_lst]
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_lst = pool.starmap(
                                         ParallelFunction.get_max_num_nbrs_real,
                                         parameters_lst)
@@ -471,7 +471,7 @@ class StructCollection(object):
                             scaling_matrix) for tmp_structure in self.structures_lst]
         
         ### Step 1. 初始化
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             max_nbrs_num_real_element:Dict[str, int] = pool.starmap(
                                     ParallelFunction.get_max_num_nbrs_real_element,
                                     parameters_lst)
-- 
2.43.0


From 50ec2a5dbf6c4240c75d96175bafa127b2a76056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:09 +0000
Subject: [PATCH 47/81] fix: indexing a StructCollection by an integer gives a
 collection of one structure

---
 matersdk/data/struct_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/data/struct_collection.py b/matersdk/data/struct_collection.py
index 254e441..db14a77 100644
--- a/matersdk/data/struct_collection.py
+++ b/matersdk/data/struct_collection.py
@@ -79,6 +79,9 @@ class StructCollection(object):
     
 
     def __getitem__(self, index:int):
+        if not isinstance(index, slice):
+            index = range(self.num_structures)[index]
+            index = slice(index, index+1)
         return_structures_lst = self.structures_lst[index]
         return_total_energys_array = self.total_energys_array[index]
         return_potential_energys_array = self.potential_energys_array[index]
-- 
2.43.0


From 5cf0ccedf767684aefe8f8b18f290e0eae4493de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 48/81] fix: empty slots of the Python neighbour index tables
 are 0, not the atom at the origin

---
 matersdk/io/publicLayer/neigh.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 9411a11..7776536 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -191,14 +191,13 @@ class StructureNeighborsUtils(object):
                 efficient_center_idx += 1
         assert (efficient_center_idx == num_efficient_rows)
        
-        ### Step 2. 获取 neigh_list for PWmatMLFF
-        neigh_list = []
+        ### Step 2. 获取 neigh_list for PWmatMLFF (空位保持为 0)
+        nums_nbrs = np.count_nonzero(mask_tot, axis=1)[mask_efficient_rows]
+        neigh_list = np.zeros((num_efficient_rows, max_num_nbrs_real), dtype=int)
         for tmp_center_idx, tmp_center_nbr_coord in enumerate(new_nbr_coords):
-            tmp_neigh_list = []
-            for tmp_nbr_idx, tmp_nbr_coord in enumerate(tmp_center_nbr_coord):
-                tmp_neigh_list.append(structure.get_site_index(site_coord=tmp_nbr_coord))
-            neigh_list.append(tmp_neigh_list)
-        neigh_list = np.array(neigh_list)
+            for tmp_nbr_idx in range(nums_nbrs[tmp_center_idx]):
+                neigh_list[tmp_center_idx, tmp_nbr_idx] = \
+                        structure.get_site_index(site_coord=tmp_center_nbr_coord[tmp_nbr_idx])
         
         ### Step 3. Zero-padding
         if max_num_nbrs:
-- 
2.43.0


From 25300bf51828156f2c5744bdfd98f5682f076138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 49/81] fix: get_nbrs_indices works without max_num_nbrs

---
 matersdk/io/publicLayer/neigh.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 7776536..68360fd 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -234,6 +234,16 @@ class StructureNeighborsUtils(object):
             1. neigh_list: np.ndarray
                 - .shape = (72, 180)
         '''
+        if not max_num_nbrs:
+            # 未指定时，取各近邻元素在所有中心原子中的最大近邻数
+            max_num_nbrs = [
+                    max(StructureNeighborsUtils._get_nbrs_indices(
+                                struct_nbr=struct_nbr,
+                                center_atomic_number=tmp_center_an,
+                                nbr_atomic_number=tmp_nbr_an).shape[1]
+                        for tmp_center_an in center_atomic_numbers)
+                    for tmp_nbr_an in nbr_atomic_numbers]
+        
         neigh_lists_lst = []
         for tmp_center_an in center_atomic_numbers:
             tmp_center_neigh_lists_lst = []
-- 
2.43.0


From fb4a3142f9bc3bed0dcd87b7c4afac47d0213d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 50/81] fix: the Python DeepPot features vanish at and beyond
 the cutoff

---
 matersdk/feature/deepmd/se_pair.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/se_pair.py b/matersdk/feature/deepmd/se_pair.py
index cad30ba..a3ed243 100644
--- a/matersdk/feature/deepmd/se_pair.py
+++ b/matersdk/feature/deepmd/se_pair.py
@@ -180,6 +180,7 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                                 (self.dp_feature_pair_d>rcut_smooth) & (self.dp_feature_pair_d<rcut),
                                 dp_feature_pair_d_scaled,
                                 dp_feature_pair_d_reciprocal)
+        dp_feature_pair_s = np.where(self.dp_feature_pair_d>=rcut, 0, dp_feature_pair_s)
         #print(dp_feature_pair_s)
 
         return dp_feature_pair_s
@@ -342,7 +343,11 @@ class DpseTildeRPairV1(DpseTildeRPairBase):
                 self.dp_feature_pair_d<self.rcut_smooth,
                 dvv_mask_1,
                 dvv_mask_2
-        )        
+        )
+        
+        ### Step 1.2.5. r >= rcut
+        vv = np.where(self.dp_feature_pair_d>=self.rcut, 0, vv)
+        dvv = np.where(self.dp_feature_pair_d>=self.rcut, 0, dvv)
         
         
         ### Step 2. Calculate the derivative of (1/r * vv)
-- 
2.43.0


From 6964473c6b33a40081dcfad731c406f463aaab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:39 +0000
Subject: [PATCH 51/81] fix: AdjacentMatrix refuses even scaling factors

---
 matersdk/feature/graph/edge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/graph/edge.py b/matersdk/feature/graph/edge.py
index 58563e2..84f2d81 100644
--- a/matersdk/feature/graph/edge.py
+++ b/matersdk/feature/graph/edge.py
@@ -31,9 +31,9 @@ class AdjacentMatrix(object):
         self.scaling_matrix = scaling_matrix
         
         # 确保扩包倍数为奇数
-        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] / 2 != 0) )
-        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] / 2 != 0) )
-        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] / 2 != 0) )
+        assert ( (self.scaling_matrix[0] > 0) and (self.scaling_matrix[0] % 2 != 0) )
+        assert ( (self.scaling_matrix[1] > 0) and (self.scaling_matrix[1] % 2 != 0) )
+        assert ( (self.scaling_matrix[2] > 0) and (self.scaling_matrix[2] % 2 != 0) )
     
     
     def get_adjacent_matrix(self):
-- 
2.43.0


From 05b966d940f150b8a806362385b8e96f0a9f308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:22 +0000
Subject: [PATCH 52/81] fix: KMesh reads its structure file

---
 matersdk/calculation/kpoints/kmesh.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/matersdk/calculation/kpoints/kmesh.py b/matersdk/calculation/kpoints/kmesh.py
index abf021b..75fb954 100644
--- a/matersdk/calculation/kpoints/kmesh.py
+++ b/matersdk/calculation/kpoints/kmesh.py
@@ -11,7 +11,6 @@ class KMesh(object):
         self.structure = DStructure.from_file(
                                         file_format=file_format,
                                         file_path=file_path,
-                                        coords_are_cartesian=False,
                                         )
     
     def get_lattice_info(self):
-- 
2.43.0


From 78bd71574c4e2a93dcac88d5afe01bcda782ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:22 +0000
Subject: [PATCH 53/81] fix: gen.kpt point counts follow the length of the
 segment in reciprocal space and are integers

---
 matersdk/calculation/kpath/kpathSampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matersdk/calculation/kpath/kpathSampler.py b/matersdk/calculation/kpath/kpathSampler.py
index 628ac6e..3dffb32 100644
--- a/matersdk/calculation/kpath/kpathSampler.py
+++ b/matersdk/calculation/kpath/kpathSampler.py
@@ -143,10 +143,11 @@ class KpathSampler(KPathSetyawanCurtarolo):
                         position_start_array = np.array(position_start)
                         position_dest_array = np.array(position_dest)
                         path_length = np.linalg.norm(
-                                (position_dest_array - position_start_array).reshape(-1, 3) * \
-                                        reciprocal_lattice_crystalloggraphic
+                                np.dot(
+                                    position_dest_array - position_start_array,
+                                    reciprocal_lattice_crystalloggraphic)
                                 )
-                        num_bandpoint = np.ceil(path_length/density)
+                        num_bandpoint = int(np.ceil(path_length/density))
                     
                         f.write("{0}\n".format(num_bandpoint))
                         f.write("    {0:>12.6f}\t{1:>12.6f}\t{2:>12.6f}\t{3}\n".format(
-- 
2.43.0


From 6e26d5d10c10cf4f915d7a1b7b14c166db230a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:22 +0000
Subject: [PATCH 54/81] fix: Inkpt reads the file as it is now, not a cached
 copy

---
 matersdk/io/pwmat/input/inkpt.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/input/inkpt.py b/matersdk/io/pwmat/input/inkpt.py
index 475456c..4c6816e 100644
--- a/matersdk/io/pwmat/input/inkpt.py
+++ b/matersdk/io/pwmat/input/inkpt.py
@@ -1,4 +1,3 @@
-import linecache
 import numpy as np
 from typing import List
 
@@ -30,6 +29,16 @@ class Inkpt(object):
         self.a0 = self._get_a0()
     
     
+    def _get_line(self, row:int):
+        '''
+        Description
+        -----------
+            1. 读取 IN.KPT 的第 row 行 (从 1 开始)
+        '''
+        with open(self.in_kpt_path, "r") as f:
+            return f.readlines()[row-1]
+    
+    
     def _get_iflag(self):
         '''
         Description
@@ -42,7 +51,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._get_line(2)
         iflag = int( line_2.split()[0] )
         return iflag
     
@@ -59,7 +68,7 @@ class Inkpt(object):
             1. a0: int
                 - 
         '''
-        line_2 = linecache.getline(self.in_kpt_path, 2)
+        line_2 = self._get_line(2)
         a0 = int( line_2.split()[-1] )
         return a0
     
@@ -74,7 +83,7 @@ class Inkpt(object):
         ------
             1. num_kpts: int
         '''
-        line_1 = linecache.getline(self.in_kpt_path, 1)
+        line_1 = self._get_line(1)
         num_kpts = int( line_1.split()[0] )
         return num_kpts
     
-- 
2.43.0


From da7b70b5c21995281d60fe31afe3300ad0a79095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 55/81] fix: REPORT and OUT.FERMI are read as they are now, not
 from a cached copy

---
 matersdk/io/pwmat/output/outfermi.py |  5 ++---
 matersdk/io/pwmat/output/report.py   | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/matersdk/io/pwmat/output/outfermi.py b/matersdk/io/pwmat/output/outfermi.py
index 7a824a7..1fe7dd8 100644
--- a/matersdk/io/pwmat/output/outfermi.py
+++ b/matersdk/io/pwmat/output/outfermi.py
@@ -1,5 +1,3 @@
-import linecache
-
 import numpy as np
 
 
@@ -15,7 +13,8 @@ class OutFermi(object):
         -----------
             1. 从 `self.out_fermi_path` 中读取费米能级(unit: eV)
         '''
-        first_row = linecache.getline(self.out_fermi_path, 1)
+        with open(self.out_fermi_path, "r") as f:
+            first_row = f.readline()
         first_row_lst = first_row.split()
         efermi_ev = np.round(float(first_row_lst[-2]), 3)
         return efermi_ev
\ No newline at end of file
diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index a261676..2bcd4ee 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -1,6 +1,5 @@
 import os
 import math
-import linecache
 import numpy as np
 from typing import Dict
 
@@ -40,6 +39,16 @@ class Report(object):
         return idxs_lst
     
     
+    def _get_line(self, row:int):
+        '''
+        Description
+        -----------
+            1. 读取 REPORT 的第 row 行 (从 1 开始)
+        '''
+        with open(self.report_path, "r") as f:
+            return f.readlines()[row-1]
+    
+    
     def get_num_bands(self):
         '''
         Description
@@ -56,7 +65,7 @@ class Report(object):
         idx_num_bands = self._search_aim(aim_content=aim_content)[0]
         #print(idx_num_bands)
         ### Step 2. 提取能带的数目
-        specific_line = linecache.getline(self.report_path, idx_num_bands)
+        specific_line = self._get_line(idx_num_bands)
         num_bands = int( specific_line.split()[-1] )
         
         return num_bands
@@ -78,7 +87,7 @@ class Report(object):
         idx_num_kpts = self._search_aim(aim_content=aim_content)[0]
         
         ### Step 2. 提取kpoints的数目
-        specific_line = linecache.getline(self.report_path, idx_num_kpts)
+        specific_line = self._get_line(idx_num_kpts)
         num_kpts = int( specific_line.split()[-1] )
         
         return num_kpts
@@ -153,7 +162,7 @@ class Report(object):
         '''        
         aim_conetent_inatom = "IN.ATOM"
         idx_inatom = self._search_aim(aim_content=aim_conetent_inatom)[0]
-        in_atom_name = linecache.getline(self.report_path, idx_inatom).split()[-1]
+        in_atom_name = self._get_line(idx_inatom).split()[-1]
     
         return in_atom_name
     
-- 
2.43.0


From 3c49bbc187942c8ff702b427cda3fd48eeb865fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 56/81] fix: compare the shapes of the two spin channels of a
 REPORT

---
 matersdk/io/pwmat/output/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 2bcd4ee..dc6755f 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -143,7 +143,7 @@ class Report(object):
         
         ### Step 5. 当 ispin 打开时，自旋向上和向下的(kpoints, eigen_states)应该相等
         if spin2eigen_energies["down"].size != 0:
-            assert (spin2eigen_energies["up"].shape != spin2eigen_energies["down"])
+            assert (spin2eigen_energies["up"].shape == spin2eigen_energies["down"].shape)
         
         return spin2eigen_energies
     
-- 
2.43.0


From 851ba4e09c6df466f0eb44e1232352e1700b6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 57/81] fix: states sharing a band edge are looked up at the
 k-point of the edge, once each, with 1-based bands

---
 matersdk/io/pwmat/output/report.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index dc6755f..6b02685 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -271,7 +271,9 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt][idx_band] - cbm_energy) < 0.001:
+                    if (tmp_spin == cbm_spin) and (idx_band + 1 == cbm_band):
+                        continue    # 已在列表中
+                    if math.fabs( spin2eigen_energies[tmp_spin][cbm_kpt-1][idx_band] - cbm_energy) < 0.001:
                         cbm_dict["energies"].append(cbm_energy)
                         cbm_dict["kpts"].append(cbm_kpt)
                         cbm_dict["bands"].append(idx_band + 1)
@@ -332,10 +334,12 @@ class Report(object):
         for tmp_spin in list( spin2eigen_energies.keys() ):
             for idx_band in range(spin2eigen_energies["up"].shape[1]):
                 try:
-                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt][idx_band] - vbm_energy) < 0.001:
+                    if (tmp_spin == vbm_spin) and (idx_band + 1 == vbm_band):
+                        continue    # 已在列表中
+                    if math.fabs( spin2eigen_energies[tmp_spin][vbm_kpt-1][idx_band] - vbm_energy) < 0.001:
                         vbm_dict["energies"].append(vbm_energy)
                         vbm_dict["spins"].append(tmp_spin)
-                        vbm_dict["bands"].append(idx_band)
+                        vbm_dict["bands"].append(idx_band + 1)
                         vbm_dict["kpts"].append(vbm_kpt)
                 except: # spin2eigen_energies["down"] 为空时，会触发 `IndexError`
                     pass
-- 
2.43.0


From a51499c9e0babc88ef02ad00e254604f70906290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 58/81] fix: the band gap of a metal is zero

---
 matersdk/io/pwmat/output/report.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matersdk/io/pwmat/output/report.py b/matersdk/io/pwmat/output/report.py
index 6b02685..e1a1e7b 100644
--- a/matersdk/io/pwmat/output/report.py
+++ b/matersdk/io/pwmat/output/report.py
@@ -368,6 +368,9 @@ class Report(object):
         vbm_dict = self.get_vbm(out_fermi_path=out_fermi_path)
         cbm_dict = self.get_cbm(out_fermi_path=out_fermi_path)
         
+        if vbm_dict is None or cbm_dict is None:
+            return 0.0  # 金属没有带隙
+        
         ### Step 2. 得到带隙的大小
         bandgap = cbm_dict["energies"][0] - vbm_dict["energies"][0]
         
-- 
2.43.0


From 3e3ad9710d89f115c061e20c54abd5bd4266abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:47 +0000
Subject: [PATCH 59/81] fix: projections of an element no longer include
 elements whose symbols begin with its symbol

---
 matersdk/io/pwmat/output/dostotalspin.py         | 2 +-
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 79acb47..1855d23 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -111,7 +111,7 @@ class Dostotalspin(object):
         df_elements_lst = []
         new_columns_lst = []
         for tmp_element in elements_lst:
-            tmp_mask = df_dos.columns.str.startswith(tmp_element)
+            tmp_mask = df_dos.columns.str.startswith(tmp_element + "-")
             df_tmp_element = df_dos.loc[:, tmp_mask].sum(axis=1)
             df_elements_lst.append(df_tmp_element)
             new_columns_lst.append(tmp_element)
diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 27d4c81..9053978 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -161,8 +161,8 @@ class FatbandStructure(object):
         
         ### Step 2. 按照元素求权重的和
         for tmp_element in self.elements_lst:
-            tmp_df_element = df.filter(regex="^{0}|KPOINT|ENERGY|weight_tot".format(tmp_element))
-            tmp_serie_element = tmp_df_element.filter(regex="^{0}".format(tmp_element)).sum(axis=1)
+            tmp_df_element = df.filter(regex="^{0}-|KPOINT|ENERGY|weight_tot".format(tmp_element))
+            tmp_serie_element = tmp_df_element.filter(regex="^{0}-".format(tmp_element)).sum(axis=1)
             series_element_lst.append( tmp_serie_element )
         ### 将 `KPOINTS`, `ENERGY`, `weight_tot` 与各元素权重和拼成一个 pd.DataFrame
         series_element_lst.insert(0, df_head)
@@ -188,7 +188,7 @@ class FatbandStructure(object):
                 - e.g. Mo-4Dxy (大小写无所谓)
         '''
         df = self._preprocess()
-        re_pattern = re.compile("{0}|KPOINT|ENERGY|weight_tot".format(orbital_name), re.IGNORECASE)
+        re_pattern = re.compile("^{0}|KPOINT|ENERGY|weight_tot".format(re.escape(orbital_name)), re.IGNORECASE)
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-- 
2.43.0


From e4c0cac4ceef4e6b4223220206402f3a0120c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:47 +0000
Subject: [PATCH 60/81] fix: Dostotalspin keeps its working copy in a file of
 its own

---
 matersdk/io/pwmat/output/dostotalspin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/matersdk/io/pwmat/output/dostotalspin.py b/matersdk/io/pwmat/output/dostotalspin.py
index 1855d23..abb43d0 100644
--- a/matersdk/io/pwmat/output/dostotalspin.py
+++ b/matersdk/io/pwmat/output/dostotalspin.py
@@ -1,4 +1,5 @@
 import os 
+import tempfile
 import pandas as pd
 
 
@@ -47,8 +48,12 @@ class Dostotalspin(object):
         ### Step 2. 写入新的 DOS.totalspin 到 `DOS.totalspin.bak`
         folder_path = os.path.dirname(self.dos_totalspin_path)
         filename = os.path.basename(self.dos_totalspin_path)
-        bak_dosfile_path = os.path.join(folder_path, "{0}.bak".format(filename))
-        with open(bak_dosfile_path, "w") as f:
+        # 每个对象使用自己的临时文件，不覆盖用户的或其他对象的 `.bak`
+        fd, bak_dosfile_path = tempfile.mkstemp(
+                        prefix="{0}.".format(filename),
+                        suffix=".bak",
+                        dir=folder_path or ".")
+        with os.fdopen(fd, "w") as f:
             f.writelines(lines_lst)
         
         return bak_dosfile_path
-- 
2.43.0


From d7d11969bfc961a0099d50376d5ec6cb33b46376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:47 +0000
Subject: [PATCH 61/81] fix: FatbandStructure returns one DataFrame per band
 with current pandas

---
 matersdk/io/pwmat/output/fatabandstructureTxt.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/matersdk/io/pwmat/output/fatabandstructureTxt.py b/matersdk/io/pwmat/output/fatabandstructureTxt.py
index 9053978..36f479f 100644
--- a/matersdk/io/pwmat/output/fatabandstructureTxt.py
+++ b/matersdk/io/pwmat/output/fatabandstructureTxt.py
@@ -122,6 +122,15 @@ class FatbandStructure(object):
         return df
     
     
+    def _split_bands(self, df:pd.DataFrame):
+        '''
+        Description
+        -----------
+            1. 将 DataFrame 按能带均分为 DataFrames 列表
+        '''
+        return [df.iloc[tmp_rows] for tmp_rows in np.array_split(np.arange(len(df)), self.num_bands)]
+    
+    
     def get_total_dfs_lst(self):
         '''
         Description
@@ -136,7 +145,7 @@ class FatbandStructure(object):
         '''
         df = self._preprocess()
         ### Step 1. 每条能带组成了新的 DataFrame
-        dfs_lst = np.array_split(df, self.num_bands)
+        dfs_lst = self._split_bands(df)
         
         return dfs_lst
     
@@ -172,7 +181,7 @@ class FatbandStructure(object):
         new_df.columns =  new_cols_lst
         
         ### Step 3. 将不同能带的能带分成不同的 pd.DataFrame
-        element_dfs_lst = np.array_split(new_df, self.num_bands)
+        element_dfs_lst = self._split_bands(new_df)
         return element_dfs_lst
         
         
@@ -192,6 +201,6 @@ class FatbandStructure(object):
         df_return = df.filter(regex=re_pattern)
         
         ### Step 2. 将不同band，分成不同的 pd.DataFrame
-        orbital_dfs_lst = np.array_split(df_return, self.num_bands)
+        orbital_dfs_lst = self._split_bands(df_return)
         
         return orbital_dfs_lst
\ No newline at end of file
-- 
2.43.0


From ea3bd37f8476b6a6b627ff63c9e83608f67202ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:10 +0000
Subject: [PATCH 62/81] fix: trajectory statistics work on machines with one or
 two processors

---
 matersdk/feature/avg/avgbond.py | 2 +-
 matersdk/feature/avg/msd.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 47b61d6..56aaa08 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -69,7 +69,7 @@ class AvgBond(object):
                     self.atomic_number_1,
                     self.atomic_number_2) for tmp_structure in self.frames_lst]
         
-        with mp.Pool(os.cpu_count()-2) as pool:
+        with mp.Pool(max(1, os.cpu_count()-2)) as pool:
             avg_bond_lengths_lst = pool.starmap(
                                         ParallelFunction.get_avg_bond_length,
                                         parameters_lst
diff --git a/matersdk/feature/avg/msd.py b/matersdk/feature/avg/msd.py
index 331750d..d9c10dc 100644
--- a/matersdk/feature/avg/msd.py
+++ b/matersdk/feature/avg/msd.py
@@ -70,7 +70,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_s,
                                 parameters_lst
@@ -95,7 +95,7 @@ class Msd(object):
             )
         
         msd_values_lst:List[int] = []
-        with mp.Pool(processes=os.cpu_count()-2) as pool:
+        with mp.Pool(processes=max(1, os.cpu_count()-2)) as pool:
             msd_values_lst = pool.starmap(
                                 MsdParallelFunction.calc_msd_sub_centroid_s,
                                 parameters_lst
-- 
2.43.0


From b17faebfe7bcc22c02ef736c8881e4ee6f69492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:10 +0000
Subject: [PATCH 63/81] fix: a neighbour forms no bond angle with itself

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 54db1df..66fc6d5 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -87,7 +87,7 @@ class AvgAngle(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 56aaa08..784fbb9 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -216,7 +216,7 @@ class AvgBond(object):
         if (atomic_number_2 == atomic_number_3):
             for center_idx in range(key_nbr2_rc.shape[0]):
                 for nbr2_idx in range(key_nbr2_rc.shape[1]):
-                    for nbr3_idx in range(nbr2_idx, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
+                    for nbr3_idx in range(nbr2_idx+1, key_nbr3_rc.shape[1]):  # Note: 预防重复计算键角
                         tmp_nbr2_rc = key_nbr2_rc[center_idx, nbr2_idx, :]
                         tmp_nbr3_rc = key_nbr3_rc[center_idx, nbr3_idx, :]
                         # relative_coord 不能为 [0, 0, 0] ([0, 0, 0]代表无近邻原子)
-- 
2.43.0


From 487b2413e860d2874ee390e42b3b7c31cb5a63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:10 +0000
Subject: [PATCH 64/81] fix: straight bond angles are 180 degrees, not nan

---
 matersdk/feature/avg/avgangle.py | 2 +-
 matersdk/feature/avg/avgbond.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/feature/avg/avgangle.py b/matersdk/feature/avg/avgangle.py
index 66fc6d5..522d856 100644
--- a/matersdk/feature/avg/avgangle.py
+++ b/matersdk/feature/avg/avgangle.py
@@ -76,7 +76,7 @@ class AvgAngle(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)    
             return angle_degree
diff --git a/matersdk/feature/avg/avgbond.py b/matersdk/feature/avg/avgbond.py
index 784fbb9..067ef77 100644
--- a/matersdk/feature/avg/avgbond.py
+++ b/matersdk/feature/avg/avgbond.py
@@ -190,7 +190,7 @@ class AvgBond(object):
             dot_product = np.dot(array_1, array_2)
             mag_1 = np.linalg.norm(array_1)
             mag_2 = np.linalg.norm(array_2)
-            cos_value = dot_product / (mag_1 * mag_2)
+            cos_value = np.clip(dot_product / (mag_1 * mag_2), -1, 1)
             angle_radians = np.arccos(cos_value)
             angle_degree = np.degrees(angle_radians)
             return angle_degree
-- 
2.43.0


From 2f5b3f6c31953656353182da584b495b17d5c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:18 +0000
Subject: [PATCH 65/81] fix: batch_perturb writes its structures

---
 matersdk/adalearn/generator/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index 769b88b..c3ee7ad 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -127,8 +127,8 @@ class BatchPerturbStructure(object):
                 os.mkdir( os.path.join(tmp_system, 'structures') )
             for tmp_perturbed_idx, tmp_pertubed_struct in enumerate(perturbed_structs):
                 tmp_pertubed_struct.to(
-                            output_file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
-                            output_file_format="pwmat")
+                            file_path=os.path.join(tmp_system, "structures", "{0}.config".format(tmp_perturbed_idx)),
+                            file_format="pwmat")
 
 
 '''
-- 
2.43.0


From c1095210ce8c3c39ef3d511bf91a05c307c7ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:18 +0000
Subject: [PATCH 66/81] fix: left-handed cells can be perturbed

---
 matersdk/adalearn/generator/perturbation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matersdk/adalearn/generator/perturbation.py b/matersdk/adalearn/generator/perturbation.py
index c3ee7ad..ba8d811 100644
--- a/matersdk/adalearn/generator/perturbation.py
+++ b/matersdk/adalearn/generator/perturbation.py
@@ -96,7 +96,9 @@ class PerturbStructure(object):
             rot[1][1] = -1
         if atoms.cell[2][2] < 0 :
             rot[2][2] = -1
-        assert(np.linalg.det(rot) == 1)
+        # a left-handed cell stays left-handed: only proper rotations are applied
+        if np.linalg.det(rot) < 0 :
+            rot[2][2] = -rot[2][2]
         new_system = DStructure(
                 lattice=np.matmul(atoms.cell, rot),
                 species=atoms.species,
-- 
2.43.0


From e6085b4cb8510f6b725933a8680459124179542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:18 +0000
Subject: [PATCH 67/81] fix: each SBATCH directive is on its own line

---
 matersdk/hpc/slurm/job.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index 9d8e55d..e753698 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -63,8 +63,8 @@ class Job(object):
             f.write("#SBATCH --job-name={0}\n".format(self.name))
             f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
             f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}".format(self.num_gpus_per_task))
+            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
             f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From c941ac4ea4b67e2a90c9ad1a35f8193649f1ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:18 +0000
Subject: [PATCH 68/81] fix: options of a Slurm job that are None are left out
 of its script

---
 matersdk/hpc/slurm/job.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/matersdk/hpc/slurm/job.py b/matersdk/hpc/slurm/job.py
index e753698..c8e348f 100644
--- a/matersdk/hpc/slurm/job.py
+++ b/matersdk/hpc/slurm/job.py
@@ -59,12 +59,20 @@ class Job(object):
         current_path = os.getcwd()
         with open(os.path.join(current_path, filename), 'w') as f:
             f.write("#!/bin/bash\n")
-            f.write("#SBATCH --partition={0}\n".format(self.partition))
-            f.write("#SBATCH --job-name={0}\n".format(self.name))
-            f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
-            f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
-            f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
-            f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
-            f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
+            if self.partition is not None:
+                f.write("#SBATCH --partition={0}\n".format(self.partition))
+            if self.name is not None:
+                f.write("#SBATCH --job-name={0}\n".format(self.name))
+            if self.num_nodes is not None:
+                f.write("#SBATCH --nodes={0}\n".format(self.num_nodes))
+            if self.num_tasks_per_node is not None:
+                f.write("#SBATCH --ntasks-per-node={0}\n".format(self.num_tasks_per_node))
+            if self.num_threads_per_core is not None:
+                f.write("#SBATCH --threads-per-core={0}\n".format(self.num_threads_per_core))
+            if self.num_gpus is not None:
+                f.write("#SBATCH --gres=gpu:{0}\n".format(self.num_gpus))
+            if self.num_gpus_per_task is not None:
+                f.write("#SBATCH --gpus-per-task={0}\n".format(self.num_gpus_per_task))
             f.write("\n\n\n")
-            f.write("{0}".format(self.command))
\ No newline at end of file
+            if self.command is not None:
+                f.write("{0}".format(self.command))
\ No newline at end of file
-- 
2.43.0


From 6d6e1caebe9beadd5e7dec3f4ddc8533d53e3d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:18 +0000
Subject: [PATCH 69/81] fix: FFExtractor saves every layer of the embedding
 nets

---
 matersdk/infer/pwmatmlff/deepmd/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/extractor.py b/matersdk/infer/pwmatmlff/deepmd/extractor.py
index 84ee442..e64d33a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/extractor.py
+++ b/matersdk/infer/pwmatmlff/deepmd/extractor.py
@@ -62,7 +62,7 @@ class FFExtractor(object):
         ### Step 2. Extract force field parameters
         ### Step 2.1. Embedding net (Note: Resnet block)
         for tmp_net_idx in range(self.num_embedding_nets):
-            for tmp_layer_idx in range(self.num_fitting_layers):
+            for tmp_layer_idx in range(self.num_embedding_layers):
                 hdf5_file.create_dataset(
                     "embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx),
                     data=self.model_state_dict["embedding_net.{0}.weights.weight{1}".format(tmp_net_idx, tmp_layer_idx)].numpy()
-- 
2.43.0


From ce851461fb1425b49317814a074b3cf9bb9d3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:11 +0000
Subject: [PATCH 70/81] fix: neighbour bins of small bins are not kept on the
 stack

---
 source/nblist/include/binLinkedList.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 44edaa6..7704a06 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -3,6 +3,7 @@
 
 
 #include <algorithm>
+#include <array>
 #include <vector>
 #include <cassert>
 #include "./structure.h"
@@ -934,8 +935,8 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
                 ( 2 * num_extened_neigh_bins[1] + 1 ) * 
                 ( 2 * num_extened_neigh_bins[2] + 1 )
     );
-    int neigh_bin_idxs_xyz[num_neigh_bins][3];
-    int candidate_neigh_bin_idxs_xyz[num_neigh_bins][3];    // 未处理周期性
+    std::vector<std::array<int, 3>> neigh_bin_idxs_xyz(num_neigh_bins);
+    std::vector<std::array<int, 3>> candidate_neigh_bin_idxs_xyz(num_neigh_bins);    // 未处理周期性
     int neigh_bin_idx4loop = 0;     // 用于在循环中赋值，并不是实际的 `bin index`
     for (int ii=-num_extened_neigh_bins[0]; ii<=num_extened_neigh_bins[0]; ii++) {
         for (int jj=-num_extened_neigh_bins[1]; jj<=num_extened_neigh_bins[1]; jj++) {
-- 
2.43.0


From 8cd12dc72b9d98bbbd07fc8c2f8ddfd822ee0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:11 +0000
Subject: [PATCH 71/81] fix: find_info4mlff refuses arguments that do not fit
 together

---
 source/nblist/bind/nblist_bind.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 5e1ee83..2aea32d 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -62,8 +62,24 @@ PyObject* find_info4mlff(
         Py_XDECREF(frac_coords_py_array);
         return NULL;
     }
-    int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
+    // The arrays must fit together, otherwise they would be read outside their memory.
+    double rcut = PyFloat_AsDouble(rcut_py);
     int umax_num_neigh_atoms = (int)PyLong_AsLong(umax_num_neigh_atoms_py);
+    if (!PyErr_Occurred() && (
+            PyArray_NDIM(atomic_numbers_py_array) < 1 || PyArray_SIZE(atomic_numbers_py_array) < 1 ||
+            PyArray_SHAPE(atomic_numbers_py_array)[0] != PyArray_SIZE(atomic_numbers_py_array) ||
+            PyArray_SIZE(lattice_py_array) != 9 ||
+            PyArray_SIZE(frac_coords_py_array) != 3 * PyArray_SIZE(atomic_numbers_py_array) ||
+            !PyList_Check(pbc_xyz_py) || PyList_Size(pbc_xyz_py) != 3 ||
+            !(rcut > 0) || umax_num_neigh_atoms < 0))
+        PyErr_SetString(PyExc_ValueError, "find_info4mlff: expected a 3x3 lattice, the numbers and coordinates of at least one atom, a positive rcut and three pbc flags.");
+    if (PyErr_Occurred()) {
+        Py_DECREF(lattice_py_array);
+        Py_DECREF(atomic_numbers_py_array);
+        Py_DECREF(frac_coords_py_array);
+        return NULL;
+    }
+    int num_atoms = (int)PyArray_SHAPE(atomic_numbers_py_array)[0];  // npy_intp 占8个字节
 
     // Step 1.2. Declaration and assignment
     double lattice[3][3];
@@ -92,7 +108,6 @@ PyObject* find_info4mlff(
 
     // Step 2. Init matersdk::NeighborList<double>
     // Step 2.1. 
-    double rcut = PyFloat_AsDouble(rcut_py);
     bool pbc_xyz[3];
     bool sort;
     for (int ii=0; ii<3; ii++) {
@@ -108,6 +123,10 @@ PyObject* find_info4mlff(
 
     // Step 2.2. Build 
     matersdk::NeighborList<double> neighbor_list(structure, rcut, pbc_xyz, sort);
+    if (neighbor_list.get_max_num_neigh_atoms() > umax_num_neigh_atoms) {
+        PyErr_SetString(PyExc_ValueError, "find_info4mlff: umax_num_neigh_atoms is smaller than the number of neighbours of an atom.");
+        return NULL;
+    }
 
     // Step 3. Call matersdk::NeighborList<double>::find_info4mlff()
     int inum = (int)num_atoms;
-- 
2.43.0


From 370593780d1ac23b69b4063534072e0bb23e7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:11 +0000
Subject: [PATCH 72/81] fix: find_info4mlff does not keep the coordinates on
 the stack

---
 source/nblist/bind/nblist_bind.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/nblist/bind/nblist_bind.cc b/source/nblist/bind/nblist_bind.cc
index 2aea32d..4320bfd 100644
--- a/source/nblist/bind/nblist_bind.cc
+++ b/source/nblist/bind/nblist_bind.cc
@@ -83,8 +83,8 @@ PyObject* find_info4mlff(
 
     // Step 1.2. Declaration and assignment
     double lattice[3][3];
-    int atomic_numbers[num_atoms];
-    double frac_coords[num_atoms][3];
+    std::vector<int> atomic_numbers(num_atoms);
+    std::vector<double> frac_coords(num_atoms * 3);
 
     double* lattice_ptr = (double*)PyArray_DATA(lattice_py_array);
     for (int ii=0; ii<3; ii++)
@@ -94,9 +94,9 @@ PyObject* find_info4mlff(
     double* frac_coords_ptr = (double*)PyArray_DATA(frac_coords_py_array);
     for (int ii=0; ii<num_atoms; ii++) {
         atomic_numbers[ii] = atomic_numbers_ptr[ii];
-        frac_coords[ii][0] = frac_coords_ptr[ii*3 + 0];
-        frac_coords[ii][1] = frac_coords_ptr[ii*3 + 1];
-        frac_coords[ii][2] = frac_coords_ptr[ii*3 + 2];
+        frac_coords[ii*3 + 0] = frac_coords_ptr[ii*3 + 0];
+        frac_coords[ii*3 + 1] = frac_coords_ptr[ii*3 + 1];
+        frac_coords[ii*3 + 2] = frac_coords_ptr[ii*3 + 2];
     }
     Py_DECREF(lattice_py_array);
     Py_DECREF(atomic_numbers_py_array);
@@ -104,7 +104,7 @@ PyObject* find_info4mlff(
     
     // Step 1.3. You must init it with fractional/cartesian coordinates
     bool is_cart_coord = (PyObject_IsTrue(is_cart_coord_py));
-    matersdk::Structure<double> structure(num_atoms, lattice, atomic_numbers, frac_coords, is_cart_coord);
+    matersdk::Structure<double> structure(num_atoms, lattice, atomic_numbers.data(), (double (*)[3])frac_coords.data(), is_cart_coord);
 
     // Step 2. Init matersdk::NeighborList<double>
     // Step 2.1. 
-- 
2.43.0


From 7fb8cc0a8995de621881c5be237a1db5fd1647f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:44 +0000
Subject: [PATCH 73/81] fix: neighbour bins are told apart without a table of
 all bins

---
 source/nblist/include/binLinkedList.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 7704a06..112af63 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <array>
+#include <unordered_set>
 #include <vector>
 #include <cassert>
 #include "./structure.h"
@@ -984,14 +985,14 @@ int* BinLinkedList<CoordType>::get_neigh_bins(int prim_atom_idx) const {
     }
 
     // Step 4. With few bins the wrap around can reach the same bin more than once: keep its first occurrence only.
-    std::vector<bool> is_visited(this->num_bin_xyz[0] * this->num_bin_xyz[1] * this->num_bin_xyz[2], false);
-    for (int ii=0; ii<num_neigh_bins; ii++) {
-        if (neigh_bin_idxs[ii] == -1)
-            continue;
-        if (is_visited[neigh_bin_idxs[ii]])
-            neigh_bin_idxs[ii] = -1;
-        else
-            is_visited[neigh_bin_idxs[ii]] = true;
+    bool is_few_bins = false;
+    for (int ii=0; ii<3; ii++)
+        is_few_bins |= ( this->num_bin_xyz[ii] < 2 * num_extened_neigh_bins[ii] + 1 );
+    if (is_few_bins) {
+        std::unordered_set<int> visited_bin_idxs;
+        for (int ii=0; ii<num_neigh_bins; ii++)
+            if (neigh_bin_idxs[ii] != -1 && !visited_bin_idxs.insert(neigh_bin_idxs[ii]).second)
+                neigh_bin_idxs[ii] = -1;
     }
 
     // Step . Free memory
-- 
2.43.0


From b15108314ab03a872bbfc00ff3c509991909a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:11 +0000
Subject: [PATCH 74/81] fix: neighbour lists are complete when atoms lie
 outside the home cell

---
 source/nblist/include/binLinkedList.h | 40 +++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/source/nblist/include/binLinkedList.h b/source/nblist/include/binLinkedList.h
index 112af63..7ff0ade 100644
--- a/source/nblist/include/binLinkedList.h
+++ b/source/nblist/include/binLinkedList.h
@@ -567,6 +567,38 @@ const int* Supercell<CoordType>::get_owned_atom_idxs() const {
 
 
 
+/**
+ * @brief Number of whole cells spanned by the atoms along each axis: 0 when all of them lie in the home cell.
+ *        Their images have to extend that much further to surround every atom.
+ *
+ * @tparam CoordType
+ * @param structure
+ * @param num_spanned_cells len = 3
+ */
+template <typename CoordType>
+void calc_num_spanned_cells(const Structure<CoordType>& structure, int* num_spanned_cells) {
+    const CoordType** basis_vectors = structure.get_basis_vectors();
+    const CoordType** cart_coords = structure.get_cart_coords();
+
+    for (int ii=0; ii<3; ii++) {
+        const CoordType* vec_j = basis_vectors[(ii+1) % 3];
+        const CoordType* vec_k = basis_vectors[(ii+2) % 3];
+        CoordType normal[3];    // vec_j x vec_k
+        for (int jj=0; jj<3; jj++)
+            normal[jj] = vec_j[(jj+1) % 3] * vec_k[(jj+2) % 3] - vec_j[(jj+2) % 3] * vec_k[(jj+1) % 3];
+        CoordType volume = basis_vectors[ii][0] * normal[0] + basis_vectors[ii][1] * normal[1] + basis_vectors[ii][2] * normal[2];
+        CoordType min_frac = 0;
+        CoordType max_frac = 0;
+        for (int jj=0; jj<structure.get_num_atoms(); jj++) {
+            CoordType frac = ( cart_coords[jj][0] * normal[0] + cart_coords[jj][1] * normal[1] + cart_coords[jj][2] * normal[2] ) / volume;
+            min_frac = (jj == 0) ? frac : std::min(min_frac, frac);
+            max_frac = (jj == 0) ? frac : std::max(max_frac, frac);
+        }
+        num_spanned_cells[ii] = std::floor(max_frac - min_frac);
+    }
+}
+
+
 /**
  * @brief Construct a new Bin Linked List< Coord Type>:: Bin Linked List object
  * 
@@ -607,9 +639,11 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     CoordType* prim_interplanar_distances = (CoordType*)structure.get_interplanar_distances();
     int* scaling_matrix = (int*)malloc(sizeof(int) * 3);
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
+    int num_spanned_cells[3];
+    calc_num_spanned_cells<CoordType>(structure, num_spanned_cells);
     for (int ii=0; ii<3; ii++) {
         extending_matrix[ii] = std::ceil(rcut / prim_interplanar_distances[ii]);
-        scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
+        scaling_matrix[ii] = (extending_matrix[ii] + num_spanned_cells[ii]) * 2 + 1;
         if (this->pbc_xyz[ii] == false) {
             scaling_matrix[ii] = 1;
         }
@@ -665,9 +699,11 @@ BinLinkedList<CoordType>::BinLinkedList(Structure<CoordType> structure, CoordTyp
     CoordType* prim_interplanar_distances = (CoordType*)structure.get_interplanar_distances();
     int* scaling_matrix = (int*)malloc(sizeof(int) * 3);
     int* extending_matrix = (int*)malloc(sizeof(int) * 3);
+    int num_spanned_cells[3];
+    calc_num_spanned_cells<CoordType>(structure, num_spanned_cells);
     for (int ii=0; ii<3; ii++) {
         extending_matrix[ii] = std::ceil( this->rcut / prim_interplanar_distances[ii] );
-        scaling_matrix[ii] = extending_matrix[ii] * 2 + 1;
+        scaling_matrix[ii] = (extending_matrix[ii] + num_spanned_cells[ii]) * 2 + 1;
         if (this->pbc_xyz[ii] == false) 
             scaling_matrix[ii] = 1;
     }
-- 
2.43.0


From f3aff1781d678218ba43bf6ce1db4cc4e60149df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:06 +0000
Subject: [PATCH 75/81] fix: padded slots of the MTP basis contribute nothing
 when the inner radius is zero

---
 source/descriptor/mtp/src/mtpMRadialOp.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/descriptor/mtp/src/mtpMRadialOp.cc b/source/descriptor/mtp/src/mtpMRadialOp.cc
index 1d60f2f..2e12499 100644
--- a/source/descriptor/mtp/src/mtpMRadialOp.cc
+++ b/source/descriptor/mtp/src/mtpMRadialOp.cc
@@ -40,12 +40,13 @@ torch::autograd::variable_list MtpQFunction::forward(
             );
             mtp_q.build(distance);
             for (int jj=0; jj<size; jj++) {
-                result[ii*size + jj] = mtp_q.get_result()[jj];
-                if (distance == 0) {
+                if (distance == 0) {    // padded slots contribute nothing, also when rcut_smooth is 0
+                    result[ii*size + jj] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 0] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 1] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 2] = 0;
                 } else {
+                    result[ii*size + jj] = mtp_q.get_result()[jj];
                     deriv2xyz[ii*size*3 + jj*3 + 0] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+0] / distance;
                     deriv2xyz[ii*size*3 + jj*3 + 1] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+1] / distance;
                     deriv2xyz[ii*size*3 + jj*3 + 2] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+2] / distance;
@@ -70,12 +71,13 @@ torch::autograd::variable_list MtpQFunction::forward(
             );
             mtp_q.build(distance);
             for (int jj=0; jj<size; jj++) {
-                result[ii*size + jj] = mtp_q.get_result()[jj];
-                if (distance == 0) {
+                if (distance == 0) {    // padded slots contribute nothing, also when rcut_smooth is 0
+                    result[ii*size + jj] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 0] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 1] = 0;
                     deriv2xyz[ii*size*3 + jj*3 + 2] = 0;
                 } else {
+                    result[ii*size + jj] = mtp_q.get_result()[jj];
                     deriv2xyz[ii*size*3 + jj*3 + 0] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+0] / distance;
                     deriv2xyz[ii*size*3 + jj*3 + 1] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+1] / distance;
                     deriv2xyz[ii*size*3 + jj*3 + 2] = mtp_q.get_deriv2r()[jj] * rcs[ii*3+2] / distance;
-- 
2.43.0


From 104cfaf5d22af78d90762714eb177b8e49310e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 76/81] fix: the neighbour finder starts from the home atoms
 when the supercell is not sorted

---
 matersdk/io/publicLayer/neigh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matersdk/io/publicLayer/neigh.py b/matersdk/io/publicLayer/neigh.py
index 68360fd..1112278 100644
--- a/matersdk/io/publicLayer/neigh.py
+++ b/matersdk/io/publicLayer/neigh.py
@@ -344,6 +344,7 @@ class StructureNeighborsV1(StructureNeighborsBase):
         '''
         ### Step 1. 
         self.structure = structure
+        self.reformat_mark = reformat_mark
         self.supercell = self.structure.make_supercell_(
                                 scaling_matrix=scaling_matrix,
                                 reformat_mark=reformat_mark)
@@ -385,7 +386,10 @@ class StructureNeighborsV1(StructureNeighborsBase):
                 - 
         '''
         ### Step 0. 获取 primitive_cell 中的原子在 supercell 中的 index
-        key_idxs = self.structure.get_key_idxs(scaling_matrix=scaling_matrix)
+        if self.reformat_mark:
+            key_idxs = self.structure.get_key_idxs(scaling_matrix=scaling_matrix)
+        else:   # supercell 未排序时，primitive_cell 中的原子排在最前面
+            key_idxs = np.arange(self.structure.num_sites)
         
         ### Step 1. 获取 supercell 的各种信息 (sites的原子序数、坐标)，便于后边直接从其中抽取信息
         ###         1) supercell_atomic_numbers     2) supercell_coords
-- 
2.43.0


From 5b9f15748e48b83c61cd2e80e00fbaa91dbe2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 77/81] fix: feature normalisation and inference import the
 structure collection by its present name

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 3ea5e02..03c5b24 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -2,7 +2,7 @@ import numpy as np
 import h5py
 from typing import Union, List, Dict
 
-from ...data.deepmd.data_system import DpLabeledSystem
+from ...data.struct_collection import StructCollection as DpLabeledSystem
 from ...io.publicLayer.structure import DStructure
 from ...io.publicLayer.neigh import StructureNeighborsDescriptor
 from ...feature.deepmd.se_pair import DpseTildeRPairDescriptor
-- 
2.43.0


From 5fc4256f5b6eb9468d01a068389763d86a181286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 78/81] fix: normalised features list every neighbour species,
 not the centre species twice

---
 matersdk/feature/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 03c5b24..71f219d 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -363,7 +363,7 @@ class TildeRNormalizer(object):
         for tmp_center_an in self.center_atomic_numbers:
             tmp_center_tildeRs_lst = []
             tmp_center_tildeR_derivatives_lst = []
-            for tmp_nbr_an in self.center_atomic_numbers:
+            for tmp_nbr_an in self.nbr_atomic_numbers:
                 tmp_key = "{0}_{1}".format(tmp_center_an, tmp_nbr_an)
                 tmp_center_tildeRs_lst.append(tildeRs_dict[tmp_key])
                 tmp_center_tildeR_derivatives_lst.append(tildeR_derivatives_dict[tmp_key])
-- 
2.43.0


From 065760725e7a8d32d99a374c3fc077fffaa6f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 79/81] fix: the deviation of equal features is the smallest
 allowed one, not NaN

---
 matersdk/feature/deepmd/preprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matersdk/feature/deepmd/preprocess.py b/matersdk/feature/deepmd/preprocess.py
index 71f219d..7d39346 100644
--- a/matersdk/feature/deepmd/preprocess.py
+++ b/matersdk/feature/deepmd/preprocess.py
@@ -526,9 +526,10 @@ class TildeRPairNormalizer(object):
         '''
         if (N == 0):
             return 1e-2
-        std = np.sqrt(
-                sum2_value / N - np.multiply(sum_value/N, sum_value/N)
-        )
+        # 舍入误差可能使方差略小于 0
+        std = np.sqrt( max(
+                sum2_value / N - np.multiply(sum_value/N, sum_value/N), 0
+        ) )
         if np.abs(std) < 1e-2:
             std = 1e-2
         return std
-- 
2.43.0


From 7fb55f1abff55f0d7aebd08fc767820bd5da27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 80/81] fix: the atom counts of an inference follow its centre
 species

---
 matersdk/infer/pwmatmlff/deepmd/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/preprocess.py b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
index 2af0afd..0fcd71a 100644
--- a/matersdk/infer/pwmatmlff/deepmd/preprocess.py
+++ b/matersdk/infer/pwmatmlff/deepmd/preprocess.py
@@ -112,6 +112,6 @@ class InferPreprocessor(object):
     
     
     def expand_natoms_img(self):
-        natoms = self.structure.get_natoms()
+        natoms = self.structure.get_natoms(atomic_numbers_order=list(self.center_atomic_numbers))
         natoms_img = natoms_img = np.repeat(natoms[np.newaxis, :], 1, axis=0)
         return natoms_img
\ No newline at end of file
-- 
2.43.0


From 9321ede2a5c5776174d8d96186cb2c17eb143a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 81/81] fix: inference loads whole models with current versions
 of torch

---
 matersdk/infer/pwmatmlff/deepmd/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matersdk/infer/pwmatmlff/deepmd/inference.py b/matersdk/infer/pwmatmlff/deepmd/inference.py
index f907232..e49b3a1 100644
--- a/matersdk/infer/pwmatmlff/deepmd/inference.py
+++ b/matersdk/infer/pwmatmlff/deepmd/inference.py
@@ -113,7 +113,7 @@ class DpInfer(object):
     
 
     def infer(self, structure:DStructure):
-        model = torch.load(f=self.pt_file_path)
+        model = torch.load(f=self.pt_file_path, weights_only=False)  # a whole model, not only its weights
         print("model.to : ", self.device)
         model.to(self.device)
         model.eval()
-- 
2.43.0

