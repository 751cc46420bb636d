From 2f2bbe8126b72b1acbd7d3782970af8dfdb880ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 01/66] fix: do not delete uninitialized or already released
 arrays in Coo's destructor

---
 include/matrix/coo.1.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..172d15e 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -30,7 +30,8 @@ struct Coo : public BlockBase<T,IT>
         }
     }
 
-    Coo() {}    // We need this
+    // We need this
+    Coo() : I(nullptr), J(nullptr), val(nullptr) {}
 
     ~Coo()
     {
@@ -77,6 +78,11 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+
+    // The destructor must not delete them again
+    A.I = nullptr;
+    A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 2bfb17265374370668525772e0b9433b438326f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 02/66] fix: build CompRowCsr from unsorted and empty matrices,
 with zeroed row pointers

---
 include/matrix/crcsr.h | 7 ++++++-
 include/utils.h        | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..75079b9 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,12 +38,15 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1](); // Initialize to zero!
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
     sort_triplets(nonzeros, nnz);
 
+    // Nothing to store for a matrix without non-zeros
+    if (nnz == 0) return;
+
     A->nnz_rows[0] = nonzeros[0].row;
     cur_row_index = 0;
 
@@ -81,6 +84,8 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    // Rows can only be counted when the elements of each row are consecutive
+    sort_triplets(nonzeros, nnz);
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
diff --git a/include/utils.h b/include/utils.h
index ea1ea56..553bf20 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -357,6 +357,8 @@ IT count_blocks(Element<T, IT> * array, IT size)
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0) return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From b596612344d08a89823775595b92f4fb1faa6a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 03/66] fix: add up elements with the same coordinates in dense
 matrices

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..3ac3408 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val; // Duplicates are added up
         }
     }
 
@@ -108,7 +108,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val; // Duplicates are added up
     }
 }
 
-- 
2.43.0


From ee34ff06c1a5068205a2cc4cceb69bb17a6e87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 04/66] fix: free the values of dense blocks

---
 include/matrix/dense.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 3ac3408..1eb09e3 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -32,7 +32,12 @@ struct DenseSerial : public BlockBase<T,IT>
         }
     }
 
-    DenseSerial() {} // For testing. Should go.
+    DenseSerial() : val(nullptr) {} // For testing. Should go.
+
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
@@ -140,9 +145,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr; // The destructor must not delete it again
 }
 
 #endif
-- 
2.43.0


From df68f6b36b557784fc1677b758a211879f09148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 05/66] fix: an empty matrix has no non-zero blocks

---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index 553bf20..76f3706 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From 2e35fe2f470105268798e0067146c0cb82bbd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 06/66] fix: block offsets are allocated with new[] everywhere,
 release them with delete[]

---
 include/matrix/csbr.2.h |  9 +++------
 include/matrix/csbr.h   | 13 +++++--------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index 01e863d..efc5e6a 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -225,12 +225,9 @@ void release(Csbr2<T, IT>& A)
     free(A.row_ptr[i]);
   }
   // Block-row and block-column offsets may point to the same array
-  if (A.blockcol_offset == A.blockrow_offset) {
-    free(A.blockrow_offset);
-  } else {
-    free(A.blockcol_offset);
-    free(A.blockrow_offset);
-  }
+  if (A.blockcol_offset != A.blockrow_offset)
+    delete [] A.blockcol_offset;
+  delete [] A.blockrow_offset;
   free(A.blockrow_ptr);
   free(A.row_ptr);
   free(A.col_ind);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..0d9a1ac 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -312,8 +312,8 @@ void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-  IT * blockrow_offset = (IT *) malloc( (blockrows + 1) * sizeof(IT));
-  IT * blockcol_offset = (IT *) malloc( (blockcols + 1) * sizeof(IT));
+  IT * blockrow_offset = new IT[blockrows + 1];
+  IT * blockcol_offset = new IT[blockcols + 1];
 
   // Calculate block-row offsets
   blockrow_offset[0] = 0;
@@ -371,12 +371,9 @@ void release(Csbr<T, IT>& A)
     }
 
     // Block-row and block-column offsets may point to the same array
-    if (A.blockcol_offset == A.blockrow_offset) {
-        free(A.blockrow_offset);
-    } else {
-        free(A.blockcol_offset);
-        free(A.blockrow_offset);
-    }
+    if (A.blockcol_offset != A.blockrow_offset)
+        delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
 
     free(A.blockcol_ind);
     free(A.blocks);
-- 
2.43.0


From 5325e62f13803162698c01767f11bf34640cf101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 07/66] fix: allocate the row pointers of CSBR blocks the way
 they are released

---
 include/io/blocked.h  | 6 +-----
 include/matrix/csbr.h | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..7f87a96 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -125,11 +125,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 0d9a1ac..d7f40d5 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
-- 
2.43.0


From 0584432c9e8f0ccc1fed4c43c3a741e611d6cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 08/66] fix: release the block-row partition of CSBR matrices

---
 include/io/blocked.h  | 2 ++
 include/matrix/csbr.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 7f87a96..0878d56 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -153,6 +153,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   }
 
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
+
+  partition_init(A);
   return 0;
 }
 
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index d7f40d5..d8860e8 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -366,6 +366,8 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
-- 
2.43.0


From bfd9385b7c7c819661a447e74e292e1060cd10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 09/66] fix: initialize the partition and the balanced flag of
 every CGBR and CGBR2 matrix

---
 include/io/blocked.h    |  1 +
 include/matrix/cgbr.2.h |  2 +-
 include/matrix/cgbr.h   | 10 ++++------
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 0878d56..8018bed 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -465,6 +465,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
+  A->balanced = A->is_balanced();
   partition_init(A);
 
   return 0;
diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..c3b74fb 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false}; // TODO: Add heuristic
 
     // Block size information
     IT * blockrow_offset;
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..86547c9 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -340,10 +340,9 @@ void Coo_to_Cgbr(
 
   A->balanced = A->is_balanced();
 
-  if (!A->balanced) {
-      // Unbalanced block-rows. We need within-block-row parallelism.
-      partition_init(A);
-  }
+  // The partition is only used for multiplication when block-rows are
+  // unbalanced, but it has to be valid for every matrix.
+  partition_init(A);
 }
 
 /*
@@ -396,8 +395,7 @@ void release (MatrixBlock<T,IT,SIT> *A)
 template <class T, class IT, class SIT>
 void release(Cgbr<T,IT,SIT>& A)
 {
-    if (!A.balanced)
-        partition_destroy(&A);
+    partition_destroy(&A);
 
     // Release memory for each block
     for (IT i=0; i<A.nnzblocks; i++) {
-- 
2.43.0


From 144a38b0cf3d633a1a4492d776c4be3f1cfe7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 10/66] fix: release the block offsets of CGBR and CGBR2
 matrices, as for CSBR

---
 include/matrix/cgbr.2.h | 5 +++++
 include/matrix/cgbr.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index c3b74fb..aea64c3 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -240,6 +240,11 @@ void release(Cgbr2<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset)
+        delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
 }
 
 #endif
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 86547c9..6bd633b 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -405,6 +405,11 @@ void release(Cgbr<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    // Block-row and block-column offsets may point to the same array
+    if (A.blockcol_offset != A.blockrow_offset)
+        delete [] A.blockcol_offset;
+    delete [] A.blockrow_offset;
 }
 
 #endif
-- 
2.43.0


From b86e0797fe7f5c245b83db27cf9a51fb97701ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 11/66] fix: sort_triplets_blocks read past the array and did
 not keep the order of rows

---
 include/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 76f3706..6eb90d5 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
@@ -254,7 +254,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   for (IT b=0; b<blockrows; b++) {
     IT start = brow_ptr[b];
     IT end = brow_ptr[b+1];
-    std::sort(array + start, array + end, block_compare);
+    std::stable_sort(array + start, array + end, block_compare);
   }
 
   // Clean up
-- 
2.43.0


From a9b6a5104662a7078b8b708e5dd8e96f3fc9b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 12/66] fix: stop when an index inside a block does not fit in
 the small index type

---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 include/matrix/block_csr.h   | 3 +++
 include/matrix/blocks.h      | 1 +
 include/matrix/coo.1.h       | 3 +++
 include/matrix/csbr.3.h      | 5 ++++-
 include/matrix/cswr.h        | 2 +-
 7 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..98b28d9 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..4d96c29 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = IT(1) << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index a5cd3d7..a571e77 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -1,6 +1,8 @@
 #ifndef _BLOCK_CSR_H_
 #define _BLOCK_CSR_H_
 
+#include <cassert>
+
 /*
  * CSR matrix represented as an array of row pointers and two arrays for
  * non-zero values and column indexes.
@@ -51,6 +53,7 @@ int Coo_to_Csr(BlockCsr<T,IT,SIT> * A, NONZERO * nonzeros,
   for (IT i=0; i<nnz; i++)
   {
     A->col_ind[i] = nonzeros[i].col;
+    assert(A->col_ind[i] == nonzeros[i].col);   // Type cast is safe
     A->val[i] = nonzeros[i].val;
     (A->row_ptr[nonzeros[i].row + 1])++;
   }
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..caf2a4e 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -32,6 +32,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++) {
             col_ind[i] = array[i].col;
+            assert(col_ind[i] == array[i].col);     // Type cast is safe
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
         }
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index 172d15e..147724b 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,8 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
+
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
@@ -26,6 +28,7 @@ struct Coo : public BlockBase<T,IT>
         {
             I[i] = array[i].row;
             J[i] = array[i].col;
+            assert(I[i] == array[i].row && J[i] == array[i].col);   // Type casts are safe
             val[i] = array[i].val;
         }
     }
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 36f0607..13876bf 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -114,9 +114,12 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
         assert(B->elements[i].col >= bc_offset);
         assert(B->elements[i].col < bc_offset + block_size);
 
-        // TODO: Assert type casts are safe
         A->row_ind[i] = B->elements[i].row - br_offset;
         A->col_ind[i] = B->elements[i].col - bc_offset;
+
+        // Type casts are safe
+        assert(A->row_ind[i] == B->elements[i].row - br_offset);
+        assert(A->col_ind[i] == B->elements[i].col - bc_offset);
         A->val[i] = B->elements[i].val;
     }
 
diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..4c478e0 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -73,7 +73,7 @@ void Coo_to_Cswr (
         A->col[i] = array[i].col;
         A->val[i] = array[i].val;
 
-        assert(A->row[i] < width);
+        assert(A->row[i] == array[i].row % width);  // Type cast is safe
     }
 
     for (IT j=0; j<A->nwrows; j++) {
-- 
2.43.0


From fe0516eb57f4617a12bbe5186cebb0ff261bb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 13/66] fix: pick_block_size overflowed for very large matrices

---
 include/utils.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 6eb90d5..37e9593 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -14,8 +14,9 @@ template <class IT>
 IT pick_block_size(IT m, IT n, size_t val_size, int workers)
 {
     bool ispar = (workers > 1);
-    IT roundrowup = next_power_of_two(m);
-    IT roundcolup = next_power_of_two(n);
+    // These do not necessarily fit in IT
+    uint64_t roundrowup = next_power_of_two(m);
+    uint64_t roundcolup = next_power_of_two(n);
 
     // if indices are negative, highestbitset returns -1,
     // but that will be caught by the sizereq below
@@ -23,8 +24,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( roundrowup > uint64_t(SLACKNESS) * workers) &&
+    		      ( roundcolup > uint64_t(SLACKNESS) * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
@@ -41,14 +42,14 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT rowhighbits = rowbits-rowlowbits;	// # higher order bits for rows (has at least one bit)
     IT colhighbits = colbits-collowbits;	// # higher order bits for cols (has at least one bit)
     if(ispar) {
-    	while( (1 << rowhighbits) < SLACKNESS * workers) {
+    	while( (uint64_t(1) << rowhighbits) < uint64_t(SLACKNESS) * workers) {
     		rowhighbits++;
     		rowlowbits--;
     	}
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    uint64_t yL2 = (uint64_t(1) << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -57,7 +58,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    uint64_t xL2 = (uint64_t(1) << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
@@ -91,15 +92,15 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
     assert (collowbits == rowlowbits);
 
-    IT lowrowmask = (1 << rowlowbits) - 1;
-    IT lowcolmask = (1 << collowbits) - 1;
+    IT lowrowmask = (IT(1) << rowlowbits) - 1;
+    IT lowcolmask = (IT(1) << collowbits) - 1;
 
     double sqrtn = sqrt(sqrt(static_cast<double>(m) * static_cast<double>(n)));
     IT logbeta = static_cast<IT>(ceil(log2(sqrtn))) + 2;
     if(rowlowbits > logbeta)
     {
         rowlowbits = collowbits = logbeta;
-        lowrowmask = lowcolmask = ( 1 << logbeta) -1;
+        lowrowmask = lowcolmask = (IT(1) << logbeta) - 1;
         rowhighbits = rowbits-rowlowbits;
         colhighbits = colbits-collowbits;
     }
-- 
2.43.0


From eb7cc5a51ec845cd976ea4e4b951796b7d4bc8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 14/66] fix: pick_block_size returned 0 for small matrices,
 which callers divide by

---
 include/utils.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 37e9593..4f0965d 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -30,8 +30,16 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
 
+    double sqrtn = sqrt(sqrt(static_cast<double>(m) * static_cast<double>(n)));
+    IT logbeta = static_cast<IT>(ceil(log2(sqrtn))) + 2;
+
     if (!sizereq) {
-    	return 0;
+        // The matrix is too small to be cut in blocks for every worker. Use the
+        // largest block size that respects the rest of the limits.
+        uint64_t beta = std::min(roundrowup, roundcolup);
+        while (beta > 1 && (beta > (uint64_t(1) << logbeta) || beta * val_size > L2SIZE))
+            beta /= 2;
+        return beta;
     }
 
     IT rowlowbits = rowbits-1;	
@@ -95,8 +103,6 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT lowrowmask = (IT(1) << rowlowbits) - 1;
     IT lowcolmask = (IT(1) << collowbits) - 1;
 
-    double sqrtn = sqrt(sqrt(static_cast<double>(m) * static_cast<double>(n)));
-    IT logbeta = static_cast<IT>(ceil(log2(sqrtn))) + 2;
     if(rowlowbits > logbeta)
     {
         rowlowbits = collowbits = logbeta;
-- 
2.43.0


From 50508754957643c7b3d46f8db5e5ede91bc3971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 15/66] fix: do not hang or overrun buffers on malformed
 MatrixMarket headers, accept blank lines and long comments

---
 dep/mm_io/mm_io.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..d29b898 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
@@ -431,7 +431,6 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -441,31 +440,44 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /*
   now continue scanning until you reach the end-of-comments
 */
-  do
+  for (;;)
   {
     if (fgets(line,MM_MAX_LINE_LENGTH,f) == NULL)
     {
       return MM_PREMATURE_EOF;
     }
-  } while (line[0] == '%');
 /*
-  line[] is either blank or has M,N, nz
+  skip the rest of comments that are longer than the line buffer
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-  {
-    return 0;
-  }
-  else
-  {
-    do
+    if (line[0] == '%')
     {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
+      while (strchr(line, '\n') == NULL)
       {
-        return MM_PREMATURE_EOF;
+        if (fgets(line,MM_MAX_LINE_LENGTH,f) == NULL)
+        {
+          return MM_PREMATURE_EOF;
+        }
       }
-    } while (num_items_read != 3);
+      continue;
+    }
+/*
+  the first line that is neither a comment nor blank holds M, N and nz
+*/
+    if (line[strspn(line, " \t\r\n\v\f")] != '\0')
+    {
+      break;
+    }
+  }
+
+  if (sscanf(line, "%d %d %d", M, N, nz) != 3)
+  {
+    return MM_PREMATURE_EOF;
   }
+  if (*M < 0 || *N < 0 || *nz < 0)
+  {
+    return MM_NOT_MTX;
+  }
+
   return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From 565f72dc03a63bcc93194089d11be28e7660e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 16/66] fix: read pattern and skew-symmetric MatrixMarket
 files, refuse malformed or truncated entries and indices out of bounds

---
 include/io/input.h | 102 +++++++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 31 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..2a5cef2 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -3,6 +3,8 @@
 
 #include <cassert>
 #include <cstdio>
+#include <cstdlib>
+#include <cstring>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -33,6 +35,36 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * Read the line of a Matrix Market file that describes the next point. Blank
+ * lines are ignored. Indices are 1-based. Return 0 on success, -1 if there is
+ * no such line, it is malformed or its indices are out of bounds.
+ */
+inline int read_mm_point(FILE * f, bool pattern, unsigned long rows, unsigned long columns,
+                         unsigned long * r, unsigned long * c, double * val)
+{
+  char line[MM_MAX_LINE_LENGTH];
+  int read = 0, end = -1;
+
+  do {
+    if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) return -1;
+  } while (line[strspn(line, " \t\r\n\v\f")] == '\0');
+
+  if (pattern) {
+    *val = 1.0;
+    read = sscanf(line, "%lu%*1[ \t]%lu %n", r, c, &end);
+    if (read != 2) return -1;
+  } else {
+    read = sscanf(line, "%lu%*1[ \t]%lu%*1[ \t]%lg %n", r, c, val, &end);
+    if (read != 3) return -1;
+  }
+
+  // There should be nothing else in this line
+  if (end < 0 || line[end] != '\0') return -1;
+
+  return (*r >= 1 && *r <= rows && *c >= 1 && *c <= columns) ? 0 : -1;
+}
+
 /*
  * Function to read a COO matrix from a Matrix Market file. Makes use of the
  * library mm_io.c provided here :
@@ -47,7 +79,7 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Open file for reading
   MM_typecode matcode;
   FILE * f = fopen(filename, "r");
-  int symflag = 0, ret;
+  int symflag = 0;
   unsigned long r, c, counter, position;
   double val;
 
@@ -59,66 +91,74 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) || !mm_is_valid(matcode)) {
       fprintf(stderr, "Sorry, this program does not support ");
-      fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      char * type = mm_typecode_to_str(matcode);
+      fprintf(stderr, "Market Market type: [%s]\n", type ? type : "?");
+      free(type);
+      fclose(f);
       return -3;
   }
 
+  // Skew-symmetric matrices have the opposite value in the symmetric point
   if (mm_is_symmetric(matcode)) symflag = 1;
+  else if (mm_is_skew(matcode)) symflag = -1;
 
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
   if (ret_code != 0) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
+    return -4;
+  }
+  if (symflag && nr != nc) {
+    fprintf(stderr, "Symmetric matrix is not square.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
 
+  // Only diagonal elements appear once in a symmetric matrix
+  counter = nnz;
   if(symflag){
-    fflush(f);
     position = ftell(f);
-    counter = 0;
-    for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-        if(ret == EOF){
-          break;
-        }else{
-          if(r==c){
-            counter += 1;
-          }else{
-            counter += 2;
-          }
+    for (int i=0; i<nnz; i++){
+        if (read_mm_point(f, mm_is_pattern(matcode), nr, nc, &r, &c, &val) != 0) {
+          fprintf(stderr, "Error while reading matrix data.\n");
+          fclose(f);
+          return -5;
         }
+        if (r != c) counter++;
     }
-    nnz = counter;
-    A->nnz = (IT) nnz;
+    A->nnz = (IT) counter;
     fseek(f,position,SEEK_SET);
   }
 
   // Allocate memory
-  allocate(A, (IT) nnz);
+  allocate(A, (IT) counter);
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
-  for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
-      }else{
-        set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
-
-        // If matrix is symmetric, add symmetric point
-        if(symflag && r!=c){
-          i++;
-          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
-        }
+  for (IT i=0; i<counter; i++){
+      if (read_mm_point(f, mm_is_pattern(matcode), nr, nc, &r, &c, &val) != 0) {
+        fprintf(stderr, "Error while reading matrix data.\n");
+        release(*A);
+        fclose(f);
+        return -5;
+      }
+
+      set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
+
+      // If matrix is symmetric, add symmetric point
+      if(symflag && r!=c){
+        i++;
+        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) (symflag * val));
       }
   }
 
-- 
2.43.0


From 121c24eaa3a0122b2388bdd506f5a1fe6ca87c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 17/66] fix: set the dimensions of matrices read from three
 binary files and check that they are complete

---
 include/io/input.h | 62 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 2a5cef2..be9fffb 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -166,6 +166,24 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   return 0;
 }
 
+/*
+ * Check that the three files of a binary COO matrix hold the same number of
+ * elements. Return 0 if they do.
+ */
+template <typename T, typename IT>
+int check_bin_sizes(const char * file_row, const char * file_col, const char * file_val)
+{
+  size_t size = get_file_size(file_val) / sizeof(T);
+
+  if (get_file_size(file_val) != size * sizeof(T) ||
+      get_file_size(file_row) != size * sizeof(IT) ||
+      get_file_size(file_col) != size * sizeof(IT)) {
+    fprintf(stderr, "Matrix files do not hold the same number of elements.\n");
+    return -1;
+  }
+  return 0;
+}
+
 /*
  * Read a Coo matrix from three binary files (one for values, one for row
  * indexes and one for column indexes). Files need to store their content as
@@ -175,13 +193,14 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size;
   IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
-  // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // All files must hold the same number of elements
+  size = (IT) (get_file_size(file_val) / sizeof(T));
+  if (check_bin_sizes<T,IT>(file_row, file_col, file_val) != 0) return -2;
 
   // Allocate memory
   allocate(A, size);
@@ -193,7 +212,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -207,7 +226,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -216,13 +235,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -243,12 +267,14 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, buffer;
+  IT max_row = 0, max_col = 0;
+  size_t counter = 0;
   FILE *fr, *fc, *fv;
 
-  // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  // All files must hold the same number of elements
+  size = (IT) (get_file_size(file_val) / sizeof(T));
+  if (check_bin_sizes<T,IT>(file_row, file_col, file_val) != 0) return -2;
 
   // Allocate memory
   allocate(A, size);
@@ -264,6 +290,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -280,6 +307,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -298,7 +326,13 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * (size_t) size)
+  {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From e0f67dbe28ec50811527be2b723f2f34413913a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 18/66] fix: check that binary matrix files are complete, read
 CSR2 matrices from them

---
 include/io/input.h | 66 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index be9fffb..9b89cbc 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -348,7 +348,8 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
+    IT buffer;
+    size_t counter;
     T vbuffer;
     FILE * f;
 
@@ -365,6 +366,7 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
@@ -391,9 +393,11 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    if (counter != 3 * (size_t) A->nnz)
     {
         fprintf(stderr, "Failed to read matrix.\n");
+        release(*A);
+        fclose(f);
         return -4;
     }
 
@@ -428,6 +432,7 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t count;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -437,9 +442,14 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  count  = fread(&(A->rows), sizeof(IT), 1, f);
+  count += fread(&(A->columns), sizeof(IT), 1, f);
+  count += fread(&nnz, sizeof(IT), 1, f);
+  if (count != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -451,14 +461,22 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
+  count = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows) break;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    count++;
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  count += fread(A->col_ind, sizeof(IT), nnz, f);
+  count += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
+  if (count != 3 * (size_t) nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
@@ -479,8 +497,9 @@ template <class T, class IT>
 int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t count;
 
-  // Open file for writing
+  // Open file for reading
   FILE * f = fopen(filename, "rb");
   if(f == NULL){
     fprintf(stderr, "Cannot open input file.\n");
@@ -488,28 +507,41 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  count  = fread(&(A->rows), sizeof(IT), 1, f);
+  count += fread(&(A->columns), sizeof(IT), 1, f);
+  count += fread(&nnz, sizeof(IT), 1, f);
+  if (count != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   // Allocate memory
-  A->nonzeros = new NonZero<T,IT>[nnz];
-  A->row_ptr = new IT[A->rows]();
+  A->data = new NonZero<T,IT>[nnz];
+  A->row_ptr = new IT[A->rows + 1]();
 
   // Read data section
+  count = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows) break;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
+    count++;
   }
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].index), sizeof(IT), 1, f);
+    count += fread(&(A->data[i].index), sizeof(IT), 1, f);
 
   for(IT i=0; i<nnz; i++)
-    fread(&(A->nonzeros[i].val), sizeof(IT), 1, f);
+    count += fread(&(A->data[i].val), sizeof(T), 1, f);
 
   fclose(f);
 
+  if (count != 3 * (size_t) nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    release(*A);
+    return -4;
+  }
+
   // Get row pointers from row non-zero counters
   for(IT i=0; i<A->rows; i++){
     A->row_ptr[i+1] = A->row_ptr[i+1] + A->row_ptr[i];
-- 
2.43.0


From 460b65a6ba4da12595789ca04d7259fcf1fe6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 19/66] fix: write values with all their digits in MatrixMarket
 files

---
 include/io/output.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..bdb80e6 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -1,6 +1,7 @@
 #ifndef _OUTPUT_H_
 #define _OUTPUT_H_
 #include <cstdio>
+#include <limits>
 
 #include "mm_io/mm_io.h"
 #include "common.h"
@@ -66,7 +67,9 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    // Enough digits to read the same value back
+    fprintf(f, "%lu %lu %.*g\n", r+1, c+1,
+            std::numeric_limits<double>::max_digits10, (double) val);
   }
 
   // Close file
-- 
2.43.0


From b1bf9ffe0156853d93558ec751fd28926b68329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 20/66] fix: report failures to write output files

---
 include/io/output.h | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index bdb80e6..f7a2f37 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -7,6 +7,17 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close a file opened for writing. It returns 0 if everything that was written
+ * has reached the file, a negative number otherwise.
+ */
+inline int close_output(FILE * f)
+{
+  int error = ferror(f);
+  if (fclose(f) != 0) error = 1;
+  return error ? -2 : 0;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -16,13 +27,12 @@ int write_bin_array(const char * filename, T * data, size_t num )
   FILE *f;
   size_t ret;
 
-  // Read data from file
+  // Write data to file
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
 
-  fclose(f);
+  if (close_output(f) != 0 || ret < num) return -2;
   return 0;
 }
 
@@ -73,7 +83,10 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
+  if (close_output(f) != 0) {
+    fprintf(stderr, "Error while writing output file.\n");
+    return -2;
+  }
   return 0;
 }
 
@@ -102,6 +115,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
@@ -111,7 +127,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  int error = close_output(fr);
 
   // Write column file
   for (i=0; i<size; i++)
@@ -119,7 +135,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  if (close_output(fc) != 0) error = -2;
 
   // Write value file
   for (i=0; i<size; i++)
@@ -127,9 +143,10 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  if (close_output(fv) != 0) error = -2;
 
-  return 0;
+  if (error != 0) fprintf(stderr, "Error while writing one of the files.\n");
+  return error;
 }
 
 /*
@@ -172,7 +189,10 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
+    if (close_output(f) != 0) {
+        fprintf(stderr, "Error while writing output file.\n");
+        return -2;
+    }
     return 0;
 }
 
@@ -207,7 +227,10 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
+  if (close_output(f) != 0) {
+    fprintf(stderr, "Error while writing output file.\n");
+    return -2;
+  }
   return 0;
 }
 
-- 
2.43.0


From b137857018b3a6e09edcbd2a883eabe942523849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 21/66] fix: blocked matrices with 64-bit or signed index types
 were built from an invalid block number

---
 include/io/blocked.h    | 17 ++++++++---------
 include/matrix/bcsr.h   |  2 +-
 include/matrix/csbr.2.h |  4 ++--
 include/matrix/csbr.3.h |  4 ++--
 include/matrix/csbr.h   |  4 ++--
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 8018bed..73b2b94 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -2,7 +2,6 @@
 #define _IO_BLOCKED_H_
 #include <cassert>
 #include <cstdio>
-#include <climits>
 
 #include "common.h"
 #include "matrix/csr.1.h"
@@ -89,8 +88,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = IT(-1);  // The first block will be number 0
+  prev_b = IT(-1);
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -107,7 +106,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == IT(-1));
 
       block_index++;
       prev_b = b;
@@ -189,8 +188,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = IT(-1);  // The first block will be number 0
+  prev_b = IT(-1);
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -207,7 +206,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == IT(-1));
 
       block_index++;
       prev_b = b;
@@ -303,7 +302,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = IT(-1);
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -318,7 +317,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == IT(-1));
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
diff --git a/include/matrix/bcsr.h b/include/matrix/bcsr.h
index fc60cbc..e11b256 100644
--- a/include/matrix/bcsr.h
+++ b/include/matrix/bcsr.h
@@ -121,7 +121,7 @@ void Coo_to_Bcsr(Bcsr<T, IT> * A, Coo3<T, IT> * B,
     A->blocks[b].rows = 0;
   }
 
-  prev_b = std::numeric_limits<IT>::max();
+  prev_b = IT(-1);
 
   for (IT i=0; i<A->nnz; i++) {
     b = B->elements[i].block;
diff --git a/include/matrix/csbr.2.h b/include/matrix/csbr.2.h
index efc5e6a..4898722 100644
--- a/include/matrix/csbr.2.h
+++ b/include/matrix/csbr.2.h
@@ -115,8 +115,8 @@ void Coo_to_Csbr(Csbr2<T,IT> * A, Coo3<T,IT> * B,
   A->val = (T *) malloc( A->nnz * sizeof(T));
   A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
 
-  block_index = std::numeric_limits<IT>::max();
-  prev_b = std::numeric_limits<IT>::max();
+  block_index = IT(-1);  // The first block will be number 0
+  prev_b = IT(-1);
 
   for (IT i=0; i<A->nnz; i++)
   {
diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index 13876bf..c94f492 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -87,8 +87,8 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
 
     A->block_ptr[A->nnzblocks] = A->nnz;
 
-    block_index = std::numeric_limits<IT>::max();
-    prev_b = std::numeric_limits<IT>::max();
+    block_index = IT(-1);  // The first block will be number 0
+    prev_b = IT(-1);
 
     for (IT i = 0; i < A->nnz; i++) {
         b = B->elements[i].block;
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index d8860e8..987aef2 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -235,8 +235,8 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = std::numeric_limits<IT>::max();
-  prev_b = std::numeric_limits<IT>::max();
+  block_index = IT(-1);  // The first block will be number 0
+  prev_b = IT(-1);
 
   for (IT i=0; i<A->nnz; i++)
   {
-- 
2.43.0


From 785c71c2bb5ac45f2fba548d5c2f5e730ad68361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 22/66] fix: the first element of blocked files was lost when
 reading them into CGBR matrices

---
 include/io/blocked.h | 120 +++++++++++++++++++------------------------
 1 file changed, 54 insertions(+), 66 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 73b2b94..f6d2daf 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -363,14 +363,12 @@ template <class T, class IT, class SIT>
 int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
-  Element<T, IT> * temp_array;
+  Element<T, IT> * elements;
   MatrixType block_type;
-  IT block_index, block_nnz, block_start;
+  IT block_index;
   IT br, br_offset, br_size;
   IT bc, bc_offset, bc_size;
-  IT b, prev_b;
-  IT cur_row, cur_col;
-  T cur_val;
+  IT b;
   size_t fr;
 
   // Open file, read header and validate
@@ -380,6 +378,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
   A->blockcol_ind = new IT[A->nnzblocks];
   A->blockrow_ptr = new IT[A->blockrows + 1]();
+  elements = new Element<T, IT>[A->nnz];
 
   for(int i=0; i<MATRIX_TYPE_NUM; i++){
     A->type_block_count[i] = 0;
@@ -388,69 +387,15 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = 0;
-  block_start = 0;
-
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
-
   // Read data section
   for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
-    fr += fread(&cur_row, sizeof(IT), 1, f);
-    fr += fread(&cur_col, sizeof(IT), 1, f);
-    fr += fread(&cur_val, sizeof(T), 1, f);
-
-    // Check if this is the begining of a new block
-    if( b != prev_b || fr == 0){
-      br = prev_b / blockcols;
-      bc = prev_b % blockcols;
-      br_offset = blockrow_offset[br];
-      bc_offset = blockcol_offset[bc];
-      br_size = blockrow_offset[br + 1] - br_offset;
-      bc_size = blockcol_offset[bc + 1] - bc_offset;
-
-      // Block meta data
-      A->blockrow_ptr[br+1]++;
-      A->blockcol_ind[block_index] = bc;
-
-      // Read new block in memory
-      block_nnz = i - block_start;
-      temp_array = new Element<T,IT>[block_nnz];
-      if(fr == 4)
-        fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-      else
-        fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
-
-      for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
-
-        assert(temp_array[j].block == prev_b);
-        assert(temp_array[j].row   >= br_offset);
-        assert(temp_array[j].row   <  br_offset + br_size);
-        assert(temp_array[j].col   >= bc_offset);
-        assert(temp_array[j].col   <  bc_offset + bc_size);
-
-        temp_array[j].row -= br_offset;
-        temp_array[j].col -= bc_offset;
-      }
-
-      // Initialize new block
-      block_type = Coo_to_MatrixBlock(A->blocks + block_index, br_size, bc_size, temp_array, block_nnz);
-      A->type_block_count[block_type]++;
-      A->type_nnz_count[block_type] += block_nnz;
-
-      // Prepare for next block
-      delete [] temp_array;
-      fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
-      block_index++;
-      block_start = i;
-      prev_b = b;
+    fr  = fread(&(elements[i].block), sizeof(IT), 1, f);
+    fr += fread(&(elements[i].row), sizeof(IT), 1, f);
+    fr += fread(&(elements[i].col), sizeof(IT), 1, f);
+    fr += fread(&(elements[i].val), sizeof(T), 1, f);
+    if(fr != 4){
+      fprintf(stderr, "Error while reading data section.\n");
+      return -4;
     }
   }
 
@@ -458,6 +403,49 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
   DEBUG(puts("Reading data section done"));
 
+  block_index = 0;
+  for(IT i=0, j; i<A->nnz; i=j){
+    b = elements[i].block;
+
+    // Make sure blocks are sorted correctly
+    assert(i == 0 || b > elements[i-1].block);
+
+    // Scan forward to find the end of the current block
+    j = i + 1;
+    while(j<A->nnz && elements[j].block == b) j++;
+
+    br = b / blockcols;
+    bc = b % blockcols;
+    assert(br < blockrows);
+    assert(block_index < A->nnzblocks);
+    br_offset = blockrow_offset[br];
+    bc_offset = blockcol_offset[bc];
+    br_size = blockrow_offset[br + 1] - br_offset;
+    bc_size = blockcol_offset[bc + 1] - bc_offset;
+
+    // Block meta data
+    A->blockrow_ptr[br+1]++;
+    A->blockcol_ind[block_index] = bc;
+
+    // Adjust indeces inside block
+    for(IT k=i; k<j; k++){
+      assert(elements[k].row >= br_offset);
+      assert(elements[k].row <  br_offset + br_size);
+      assert(elements[k].col >= bc_offset);
+      assert(elements[k].col <  bc_offset + bc_size);
+      elements[k].row -= br_offset;
+      elements[k].col -= bc_offset;
+    }
+
+    // Initialize new block
+    block_type = Coo_to_MatrixBlock(A->blocks + block_index, br_size, bc_size, elements + i, j - i);
+    A->type_block_count[block_type]++;
+    A->type_nnz_count[block_type] += (j-i);
+    block_index++;
+  }
+
+  delete [] elements;
+
   for (br=0; br<A->blockrows; br++)
   {
     A->blockrow_ptr[br+1] = A->blockrow_ptr[br+1] + A->blockrow_ptr[br];
-- 
2.43.0


From 4202433a2c956593216c0d7ec0e2d424b2bcdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 23/66] fix: refuse blocked files with more blocks than
 declared or with elements outside their block

---
 include/io/blocked.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index f6d2daf..c198012 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -65,7 +65,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
+  IT bc, bc_offset, bc_size;
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
@@ -112,8 +112,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
+      assert(br < blockrows);
+      assert(block_index < A->nnzblocks);
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
       br_size = blockrow_offset[br + 1] - br_offset;
 
       // Block meta data
@@ -130,6 +133,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     assert(cur_row >= br_offset);
     assert(cur_row  < br_size + br_offset);
     assert(cur_col >= bc_offset);
+    assert(cur_col  < bc_size + bc_offset);
 
     A->blocks[block_index].row_ptr[cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col - bc_offset;
@@ -166,7 +170,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 {
   IT block_index;
   IT br, br_offset, br_size;
-  IT bc, bc_offset;
+  IT bc, bc_offset, bc_size;
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
@@ -212,8 +216,11 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
+      assert(br < blockrows);
+      assert(block_index < A->nnzblocks);
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
+      bc_size = blockcol_offset[bc + 1] - bc_offset;
       br_size = blockrow_offset[br + 1] - br_offset;
 
       // Block meta data
@@ -230,6 +237,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     assert(cur_row >= br_offset);
     assert(cur_row  < br_size + br_offset);
     assert(cur_col >= bc_offset);
+    assert(cur_col  < bc_size + bc_offset);
 
     A->row_ptr[block_index][cur_row - br_offset + 1]++;  // Count non-zeros per row
     A->col_ind[i] = cur_col;
-- 
2.43.0


From 0739697d4db73ce38d8c55a69966a15c68a0fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 24/66] fix: print_timing was defined with another type than it
 is declared

---
 src/common.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index ebee359..695a6fc 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -6,6 +6,8 @@
 #include <algorithm>
 #include <numeric>
 
+#include "common.h"
+
 /*
  * Timer code
  */
@@ -26,18 +28,18 @@ double tock()
 /*
  * Print execution time and FLOPs/second
  */
-static float mflops (unsigned long nnz, float t)
+static double mflops (unsigned long nnz, double t)
 {
     return 2.0 * nnz / (t * 1000000.0);
 }
 
-void print_timing (char const *mode, unsigned long nnz, float t)
+void print_timing (char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s : %.6f\n", mode, t);
     printf("MFLOP/s        %s : %.0f\n", mode, mflops(nnz, t));
 }
 
-void print_timing (char const *method, char const *mode, unsigned long nnz, float t)
+void print_timing (char const *method, char const *mode, unsigned long nnz, double t)
 {
     printf("Execution time %s (%s): %.6f\n", method, mode, t);
     printf("MFLOP/s        %s (%s): %.0f\n", method, mode, mflops(nnz, t));
-- 
2.43.0


From 505e96ef235f5da947b6cd2c47621ec7525ef0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 25/66] fix: tools truncated or overran long file names

---
 src/tools/convert.cpp    | 17 +++++++----------
 src/tools/double2float.c | 11 ++++++++---
 src/tools/expanded.cpp   | 13 +++++--------
 src/tools/one2zero.c     | 11 ++++++++---
 src/tools/permute.cpp    | 18 ++++++++----------
 src/tools/prepare.cpp    | 33 ++++++++++++++-------------------
 src/tools/sort.cpp       | 28 ++++++++++++----------------
 7 files changed, 62 insertions(+), 69 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..82251e2 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <string>
 
 #include "typedefs.h"
 #include "utils.h"
@@ -11,7 +12,6 @@
 
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
-#define FNBUFL 128
 
 /*
  * This executable reads a matrix in COO format (as Coo3) and an array of block
@@ -21,7 +21,6 @@
 int main(int argc, char * argv[])
 {
   Coo2<VALUETYPE, INDEXTYPE> A;
-  char buf[FNBUFL];
   int ret;
   double t;
   bool bin = false, mtx = false;
@@ -63,11 +62,10 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".mtx");
-    printf("Writing to file %s ...", buf); fflush(stdout);
+    std::string name = std::string(argv[4]) + ".mtx";
+    printf("Writing to file %s ...", name.c_str()); fflush(stdout);
     tick();
-    ret = write_mm_COO(&A, buf);
+    ret = write_mm_COO(&A, name.c_str());
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
@@ -78,11 +76,10 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
-    strncpy(buf, argv[4], FNBUFL-10);
-    strcat(buf, ".bin");
-    printf("Writing to file %s ...", buf); fflush(stdout);
+    std::string name = std::string(argv[4]) + ".bin";
+    printf("Writing to file %s ...", name.c_str()); fflush(stdout);
     tick();
-    ret = write_bin_COO(A, buf);
+    ret = write_bin_COO(A, name.c_str());
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..27a8865 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -4,7 +4,6 @@
 #include <string.h>
 
 #define SUFFIX ".float"
-#define FNBUFL 128
 
 #define OLDTYPE double
 #define NEWTYPE float
@@ -12,7 +11,7 @@
 int main(int argc, char * argv[])
 {
   unsigned long size;
-  char buf[FNBUFL];
+  char *buf;
   OLDTYPE v;
   NEWTYPE v_new;
   FILE *f_in, *f_out;
@@ -25,7 +24,12 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
+    buf = (char *) malloc(strlen(argv[i]) + strlen(SUFFIX) + 1);
+    if (buf == NULL) {
+      fprintf(stderr, "Could not allocate memory for filename.\n");
+      return 1;
+    }
+    strcpy(buf, argv[i]);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
 
@@ -47,6 +51,7 @@ int main(int argc, char * argv[])
     fclose(f_in);
     fclose(f_out);
 
+    free(buf);
     printf("Conversion complete : %lu values\n", size);
   }
 
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..d8b8be3 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <string>
 
 #include "typedefs.h"
 #include "utils.h"
@@ -9,8 +10,7 @@
 #include "io/input.h"
 #include "io/output.h"
 
-#define SUFFIX ".exp%lu"
-#define FNBUFL 256
+#define SUFFIX ".exp"
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 
@@ -20,7 +20,6 @@ int main(int argc, char * argv[]){
   INDEXTYPE *block_size, *block_offset;
   int i, ret;
   size_t blocks;
-  char buf[FNBUFL], buf2[FNBUFL];
   double t;
 
   if (argc < 6){
@@ -72,13 +71,11 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  strncpy(buf, argv[5], FNBUFL-10);
-  sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
-  strcat(buf, buf2);
-  printf("Output file : %s\n", buf);
+  std::string name = std::string(argv[5]) + SUFFIX + std::to_string(new_block_size);
+  printf("Output file : %s\n", name.c_str());
 
   // Write result to disk
-  ret = write_bin_COO(A, buf);
+  ret = write_bin_COO(A, name.c_str());
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
   }else{
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..decd5ec 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -4,13 +4,12 @@
 #include <string.h>
 
 #define SUFFIX ".zero"
-#define FNBUFL 128
 #define INDEXTYPE uint32_t
 
 int main (int argc, char * argv[])
 {
   unsigned long size;
-  char buf[FNBUFL];
+  char *buf;
   INDEXTYPE *indeces, n;
   FILE *f_in, *f_out;
 
@@ -22,7 +21,12 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
-    strncpy(buf, argv[i], FNBUFL-7);
+    buf = (char *) malloc(strlen(argv[i]) + strlen(SUFFIX) + 1);
+    if (buf == NULL) {
+      fprintf(stderr, "Could not allocate memory for filename.\n");
+      return 1;
+    }
+    strcpy(buf, argv[i]);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
 
@@ -63,6 +67,7 @@ int main (int argc, char * argv[])
     fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
     fclose(f_out);
 
+    free(buf);
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
   }
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..eb583ff 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <string>
 
 #include "utils.h"
 #include "permute.h"
@@ -9,7 +10,6 @@
 #include "io/output.h"
 
 #define SUFFIX ".permuted"
-#define FNBUFL 128
 #define INDEXTYPE uint32_t
 
 int main(int argc, char * argv[])
@@ -17,7 +17,7 @@ int main(int argc, char * argv[])
   INDEXTYPE *I, *permutation, *inv_permutation;
   int i, ret;
   size_t perm_size, size;
-  char buf[FNBUFL];
+  std::string name;
 
   if (argc != 4) {
     fprintf(stderr, "Usage: %s [rows] [columns] [permutation-vector]\n", argv[0]);
@@ -53,12 +53,11 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[2], FNBUFL-10);
-  strcat(buf, SUFFIX);
-  fprintf(stdout, "Output file : %s\n", buf);
+  name = std::string(argv[2]) + SUFFIX;
+  fprintf(stdout, "Output file : %s\n", name.c_str());
 
   // Write result to disk
-  ret = write_bin_array(buf, I, size);
+  ret = write_bin_array(name.c_str(), I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
   }else{
@@ -78,12 +77,11 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
-  strncpy(buf, argv[1], FNBUFL-10);
-  strcat(buf, SUFFIX);
-  fprintf(stdout, "Output file : %s\n", buf);
+  name = std::string(argv[1]) + SUFFIX;
+  fprintf(stdout, "Output file : %s\n", name.c_str());
 
   // Write result to disk
-  ret = write_bin_array(buf, I, size);
+  ret = write_bin_array(name.c_str(), I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
   }else{
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..a303dd1 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <assert.h>
+#include <string>
 
 #include "utils.h"
 #include "permute.h"
@@ -11,7 +12,6 @@
 #include "io/input.h"
 #include "io/output.h"
 
-#define FNBUFL 256
 #define VALUETYPE float
 #define INDEXTYPE uint32_t
 #define TMPROWS "/tmp/csbr_prepare/rows"
@@ -20,7 +20,7 @@
 int main(int argc, char * argv[])
 {
   int i, ret;
-  char buf[FNBUFL], ext[FNBUFL];
+  std::string name;
   double t;
   size_t perm_size, index_size, blocks;
 
@@ -135,12 +135,11 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".row");
-  printf("Writing to file %s ...", buf); fflush(stdout);
+  name = std::string(argv[6]) + ".row";
+  printf("Writing to file %s ...", name.c_str()); fflush(stdout);
 
   tick();
-  ret = write_bin_COO(A, buf);
+  ret = write_bin_COO(A, name.c_str());
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
@@ -162,12 +161,11 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".block");
+  name = std::string(argv[6]) + ".block";
 
-  printf("Writing to file %s ...", buf); fflush(stdout);
+  printf("Writing to file %s ...", name.c_str()); fflush(stdout);
   tick();
-  ret = write_bin_blocked(A, buf);
+  ret = write_bin_blocked(A, name.c_str());
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
@@ -183,12 +181,11 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
-  strncpy(buf, argv[6], FNBUFL-10);
-  strcat(buf, ".col");
+  name = std::string(argv[6]) + ".col";
 
-  printf("Writing to file %s ...", buf); fflush(stdout);
+  printf("Writing to file %s ...", name.c_str()); fflush(stdout);
   tick();
-  ret = write_bin_COO(A, buf);
+  ret = write_bin_COO(A, name.c_str());
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
@@ -204,15 +201,13 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
-  strncpy(buf, argv[6], FNBUFL-20);
-  snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
-  strcat(buf, ext);
+  name = std::string(argv[6]) + ".col.exp" + std::to_string(new_block_size);
   A.rows = new_block_size * A.blockrows;
   A.columns = new_block_size * A.blockcols;
 
-  printf("Writing to file %s ...", buf); fflush(stdout);
+  printf("Writing to file %s ...", name.c_str()); fflush(stdout);
   tick();
-  ret = write_bin_COO(A, buf);
+  ret = write_bin_COO(A, name.c_str());
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..ddc20a2 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <string>
 
 #include "typedefs.h"
 #include "utils.h"
@@ -9,14 +10,13 @@
 #include "io/output.h"
 
 #define SUFFIX ".sorted"
-#define FNBUFL 128
 
 int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
   uint32_t * block_sizes;
-  char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
+  std::string row, col, val, mtx;
 
   // Read files
   switch(argc){
@@ -65,30 +65,26 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
-      strncpy(buf_row, argv[1], FNBUFL-10);
-      strcat(buf_row, SUFFIX);
-      fprintf(stdout, "Output file for rows : %s\n", buf_row);
+      row = std::string(argv[1]) + SUFFIX;
+      fprintf(stdout, "Output file for rows : %s\n", row.c_str());
 
-      strncpy(buf_col, argv[2], FNBUFL-10);
-      strcat(buf_col, SUFFIX);
-      fprintf(stdout, "Output file for columns : %s\n", buf_col);
+      col = std::string(argv[2]) + SUFFIX;
+      fprintf(stdout, "Output file for columns : %s\n", col.c_str());
 
-      strncpy(buf_val, argv[3], FNBUFL-10);
-      strcat(buf_val, SUFFIX);
-      fprintf(stdout, "Output file for values : %s\n", buf_val);
+      val = std::string(argv[3]) + SUFFIX;
+      fprintf(stdout, "Output file for values : %s\n", val.c_str());
 
       // Write result to disk
-      ret1 = write_bin_COO(&A, buf_row, buf_col, buf_val);
+      ret1 = write_bin_COO(&A, row.c_str(), col.c_str(), val.c_str());
       break;
     case 3 :
     case 2 :
       // Create filename for output
-      strncpy(buf_mtx, argv[1], FNBUFL-10);
-      strcat(buf_mtx, SUFFIX);
-      fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
+      mtx = std::string(argv[1]) + SUFFIX;
+      fprintf(stdout, "Output file for rows : %s\n", mtx.c_str());
 
       // Write result to disk
-      ret1 = write_mm_COO(&A, buf_mtx);
+      ret1 = write_mm_COO(&A, mtx.c_str());
       break;
   }
 
-- 
2.43.0


From 499726c6e6416d827490ce5652e9741adb910865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 26/66] fix: tools exit with an error status when they cannot
 read their input or write their output

---
 src/tools/convert.cpp         |  2 ++
 src/tools/convert_blocked.cpp |  1 +
 src/tools/double2float.c      |  7 +++++--
 src/tools/expanded.cpp        |  7 ++++++-
 src/tools/one2zero.c          | 12 +++++++++---
 src/tools/permute.cpp         |  2 ++
 src/tools/prepare.cpp         |  4 ++++
 src/tools/sort.cpp            |  1 +
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 82251e2..53ebdbd 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -69,6 +69,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -83,6 +84,7 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      return 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..a83c40e 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -94,6 +94,7 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 27a8865..2c63561 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -45,11 +45,14 @@ int main(int argc, char * argv[])
     while(fread(&v, sizeof(OLDTYPE), 1, f_in) > 0){
       size++;
       v_new = (NEWTYPE) v;
-      fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
+      if (fwrite(&v_new, sizeof(NEWTYPE), 1, f_out) != 1) break;
     }
 
+    if (ferror(f_in) || ferror(f_out) || fclose(f_out) != 0) {
+      fprintf(stderr, "Error while converting values. Aborting.\n");
+      exit(1);
+    }
     fclose(f_in);
-    fclose(f_out);
 
     free(buf);
     printf("Conversion complete : %lu values\n", size);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index d8b8be3..4e48bdc 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -46,7 +46,11 @@ int main(int argc, char * argv[]){
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if (ret<0) {
+    fprintf(stderr, "Error while reading matrix.\n");
+    return 1;
+  }
   printf(" done\n");
 
   printf("Calculating block ids... "); fflush(stdout);
@@ -78,6 +82,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, name.c_str());
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index decd5ec..59a08be 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -43,7 +43,10 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    if (fread(indeces, sizeof(INDEXTYPE), n, f_in) != n) {
+        fprintf(stderr, "Could not read file\n");
+        return 1;
+    }
     fclose(f_in);
 
     // Convert and check
@@ -64,8 +67,11 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    size = fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
+    if (fclose(f_out) != 0 || size != n) {
+      fprintf(stderr, "Could not write output file. Aborting.\n");
+      return 1;
+    }
 
     free(buf);
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index eb583ff..7702bba 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -60,6 +60,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(name.c_str(), I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -84,6 +85,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(name.c_str(), I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index a303dd1..21e9b22 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -143,6 +143,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -169,6 +170,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -189,6 +191,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -211,6 +214,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    return 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index ddc20a2..d1a848d 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -91,6 +91,7 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    exit(1);
   }
 
   release(A);
-- 
2.43.0


From 72a1e5bce36e2916c9c53ad8bdb88084de60ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 27/66] fix: pprint stops when its input is missing or
 incomplete

---
 src/tools/pprint.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index ac73ef6..fa433c7 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -6,6 +6,17 @@
 #define INDEXTYPE uint32_t
 #define VALUETYPE float
 
+/*
+ * Read one item. Incomplete files are an error.
+ */
+static void read_or_die (void * item, size_t size, FILE * f)
+{
+    if (fread(item, size, 1, f) != 1) {
+        fprintf(stderr, "Unexpected end of file.\n");
+        exit(1);
+    }
+}
+
 /*
  * Tool to read binary files in some of the formats used in this project
  * WARNING : Always pipe results somewhere (eg. to 'less')
@@ -38,50 +49,51 @@ int main (int argc, char * argv[])
     f = fopen(argv[1], "rb");
     if(f==NULL){
         fprintf(stderr, "Could not open file.\n");
+        return 1;
     }
 
     switch(mode) {
         case 0:  // Binary triples file
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
+        read_or_die(&r, sizeof(INDEXTYPE), f);
+        read_or_die(&c, sizeof(INDEXTYPE), f);
+        read_or_die(&nnz, sizeof(INDEXTYPE), f);
         printf("%lu rows x %lu columns, %lu non-zeros\n",
                 (unsigned long) r, (unsigned long) c, (unsigned long) nnz);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_die(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_die(&n, sizeof(INDEXTYPE), f);
             printf("%12lu\n", (unsigned long) n);
         }
         printf("---------------------------------------\n");
 
         for (i=0; i<nnz; i++) {
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_or_die(&v, sizeof(VALUETYPE), f);
             printf("%12f\n", (double) v);
         }
         break;
 
         case 1: // Binary file with block info (.csbr)
-        fread(&r, sizeof(INDEXTYPE), 1, f);
-        fread(&c, sizeof(INDEXTYPE), 1, f);
-        fread(&nnz, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
-        fread(&n, sizeof(INDEXTYPE), 1, f);
+        read_or_die(&r, sizeof(INDEXTYPE), f);
+        read_or_die(&c, sizeof(INDEXTYPE), f);
+        read_or_die(&nnz, sizeof(INDEXTYPE), f);
+        read_or_die(&n, sizeof(INDEXTYPE), f);
+        read_or_die(&n, sizeof(INDEXTYPE), f);
+        read_or_die(&n, sizeof(INDEXTYPE), f);
 
         for (i=0; i<nnz; i++) {
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_die(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_die(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&n, sizeof(INDEXTYPE), 1, f);
+            read_or_die(&n, sizeof(INDEXTYPE), f);
             printf("%12u\t", n);
-            fread(&v, sizeof(VALUETYPE), 1, f);
+            read_or_die(&v, sizeof(VALUETYPE), f);
             printf("%12e\n", v);
         }
         break;
-- 
2.43.0


From 3094336f289ad308286219b41e40b22ffab6f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 28/66] fix: tools lost the dimensions given by the block sizes
 when reading a matrix

---
 src/tools/convert_blocked.cpp |  8 ++++++--
 src/tools/expanded.cpp        | 16 ++++++++++------
 src/tools/prepare.cpp         |  9 ++++++---
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index a83c40e..4ce5dad 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -52,8 +52,6 @@ int main(int argc, char * argv[]){
   }
   size_to_offset(block_offsets, block_sizes, A.blockrows);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
   free(block_sizes);  // Block sizes not needed anymore
 
   printf("Reading matrix from disk..."); fflush(stdout);
@@ -64,6 +62,12 @@ int main(int argc, char * argv[]){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix is larger than the sum of the block sizes.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
   printf(" done in %.3f sec\n", t);
 
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 4e48bdc..cd34ce7 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -36,23 +36,27 @@ int main(int argc, char * argv[]){
 
   block_offset = (INDEXTYPE *) malloc((blocks+1) * sizeof(INDEXTYPE));
   size_to_offset(block_offset, block_size, (INDEXTYPE) blocks);
-  A.rows = block_offset[blocks];
-  A.columns = block_offset[blocks];
   A.blockrows = (INDEXTYPE) blocks;
   A.blockcols = (INDEXTYPE) blocks;
 
-  printf("Matrix info :\n\t%lu rows x %lu columns\n\t%lu blocks\n",
-          (unsigned long) A.rows, (unsigned long) A.columns,
-          (unsigned long) A.blockrows);
-
   printf("Reading matrix from disk..."); fflush(stdout);
   ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
   if (ret<0) {
     fprintf(stderr, "Error while reading matrix.\n");
     return 1;
   }
+  if (A.rows > block_offset[blocks] || A.columns > block_offset[blocks]) {
+    fprintf(stderr, "Matrix is larger than the sum of the block sizes.\n");
+    return 1;
+  }
+  A.rows = block_offset[blocks];
+  A.columns = block_offset[blocks];
   printf(" done\n");
 
+  printf("Matrix info :\n\t%lu rows x %lu columns\n\t%lu blocks\n",
+          (unsigned long) A.rows, (unsigned long) A.columns,
+          (unsigned long) A.blockrows);
+
   printf("Calculating block ids... "); fflush(stdout);
   tick();
   calculate_block_id(A.elements, A.nnz, block_offset, A.blockrows, block_offset, A.blockcols);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 21e9b22..ca47088 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -109,14 +109,17 @@ int main(int argc, char * argv[])
   }
   size_to_offset(block_offsets, block_sizes, (INDEXTYPE) blocks);
 
-  A.rows = block_offsets[A.blockrows];
-  A.columns = block_offsets[A.blockcols];
-
   ret = read_bin_COO(&A, TMPROWS, TMPCOLS, argv[3]);
   if(ret<0){
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix is larger than the sum of the block sizes.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From 8365c01b8125b499720cb7879251a0732478cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 29/66] fix: sort tool read the block sizes of MatrixMarket
 files from a missing argument and used them as offsets

---
 src/tools/sort.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index d1a848d..7d770ba 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   std::string row, col, val, mtx;
 
   // Read files
@@ -27,7 +27,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -50,8 +50,16 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = new uint32_t[size + 1];
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      free(block_sizes);
+      if (A.rows > block_offsets[size] || A.columns > block_offsets[size]) {
+        fprintf(stderr, "Matrix is larger than the sum of the block sizes.\n");
+        exit(1);
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
+      delete [] block_offsets;
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From 1e1ff176f46793aa9bba62e8f190d54cfd1f8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 30/66] fix: ipermute released its permutation with the wrong
 function

---
 src/tools/permute.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 7702bba..eedc0d2 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -93,6 +93,10 @@ int main(int argc, char * argv[])
   free(I);
 
   // Clean up
+  #ifdef INVPERM
+  delete [] permutation;
+  #else
   free(permutation);
+  #endif
   return 0;
 }
-- 
2.43.0


From 4f384d85d8fa7cb25b04f495f614ad727e47eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 31/66] fix: drivers ignored the block size files they were
 given

---
 src/drivers/blocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..2203293 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -41,7 +41,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
-- 
2.43.0


From 82dde1e115e47d12d8d15759a0fb12f3a46260f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 32/66] fix: csr and cswr drivers refuse wrong arguments

---
 src/drivers/csr.cpp  | 2 +-
 src/drivers/cswr.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drivers/csr.cpp b/src/drivers/csr.cpp
index 0d99580..125a47d 100644
--- a/src/drivers/csr.cpp
+++ b/src/drivers/csr.cpp
@@ -18,7 +18,7 @@ int main (int argc, char * argv[])
   MATRIXTYPE A;
   Coo2<VALTYPE,ITYPE> B;
 
-  if (argc < 2){
+  if (argc != 2){
     fprintf(stderr, "Usage: %s [matrix]\n", argv[0]);
     return 1;
   }
diff --git a/src/drivers/cswr.cpp b/src/drivers/cswr.cpp
index dd78510..acedf9a 100644
--- a/src/drivers/cswr.cpp
+++ b/src/drivers/cswr.cpp
@@ -27,6 +27,10 @@ int main(int argc, char * argv[])
       width = DEFAULT_CSWR_WIDTH;
       break;
     case 3:
+      if (atoi(argv[2]) <= 0) {
+        fprintf(stderr, "Width should be a positive number.\n");
+        return 1;
+      }
       width = atoi(argv[2]);
       break;
     default:
-- 
2.43.0


From cc515dfb628a02ea0fac22ca2e1a099ef604e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 33/66] fix: permuting with a vector that is too short or not a
 permutation accessed memory out of bounds

---
 include/permute.h      | 14 ++++++++++++++
 src/drivers/pbench.cpp |  7 +++++++
 src/tools/permute.cpp  | 13 +++++++++++++
 src/tools/prepare.cpp  | 15 +++++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/include/permute.h b/include/permute.h
index decf97f..eb42e22 100644
--- a/include/permute.h
+++ b/include/permute.h
@@ -1,8 +1,22 @@
 #ifndef _PERMUTE_H_
 #define _PERMUTE_H_
 
+#include <cstddef>
 #include <omp.h>
 
+/*
+ * Check that all indeces are smaller than a limit. Permutation vectors can only
+ * be inverted and applied to indeces that are smaller than their size.
+ */
+template <typename IT>
+bool indeces_within (IT const * indeces, size_t size, size_t limit)
+{
+    for (size_t i=0; i<size; i++) {
+        if (size_t(indeces[i]) >= limit) return false;
+    }
+    return true;
+}
+
 // This function is copied and slightly modified from SuiteSParse library
 // http://faculty.cse.tamu.edu/davis/suitesparse.html
 template <typename IT>
diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..5d6083e 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -56,6 +56,13 @@ int main(int argc, char * argv[])
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
 
+    if (perm_size < coo.rows || perm_size < coo.columns ||
+        !indeces_within(permutation, perm_size, coo.rows) ||
+        !indeces_within(permutation, perm_size, coo.columns)) {
+        fprintf(stderr, "Not a permutation of the rows and columns of the matrix\n");
+        return 1;
+    }
+
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
     if (inv_permutation == NULL) {
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index eedc0d2..9df3c77 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -31,6 +31,11 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
+  if (!indeces_within(permutation, perm_size, perm_size)) {
+    fprintf(stderr, "Not a permutation vector\n");
+    return 1;
+  }
+
   #ifdef INVPERM
   inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   if (inv_permutation == NULL) {
@@ -50,6 +55,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  if (!indeces_within(I, size, perm_size)) {
+    fprintf(stderr, "Permutation vector is too short\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -75,6 +84,10 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  if (!indeces_within(I, size, perm_size)) {
+    fprintf(stderr, "Permutation vector is too short\n");
+    return 1;
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index ca47088..c23e3f8 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -45,6 +45,11 @@ int main(int argc, char * argv[])
   }
   printf("Loaded permutation vector of size %lu\n", perm_size);
 
+  if (!indeces_within(permutation_vec, perm_size, perm_size)) {
+    fprintf(stderr, "Not a permutation vector\n");
+    return 1;
+  }
+
   // Permute rows
   ret = read_bin_array(argv[1], &indeces, &index_size );
   if(ret<0){
@@ -53,6 +58,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!indeces_within(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Permutation vector is too short\n");
+    return 1;
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
@@ -74,6 +84,11 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  if (!indeces_within(indeces, index_size, perm_size)) {
+    fprintf(stderr, "Permutation vector is too short\n");
+    return 1;
+  }
+
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-- 
2.43.0


From 4b6ceee1b4f806768d85d17178b7d78ec23e4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 34/66] fix: stop when there are more blocks than the index
 type can number

---
 include/matrix/csbr.h | 3 +++
 include/utils.h       | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 987aef2..83541d2 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -108,6 +108,9 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
   IT bc, bc_offset, bc_size;
   IT block_nnz, nnz_blocks;
 
+  // All block numbers fit in the index type
+  assert(blockcols == 0 || blockrows <= std::numeric_limits<IT>::max() / blockcols);
+
   // Sort triplets according to block row and block column
   sort_triplets_blocks(B->triplets, nnz, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
diff --git a/include/utils.h b/include/utils.h
index 4f0965d..dcc9f13 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -314,6 +314,9 @@ template <class T, class IT>
 void calculate_block_id(Element<T, IT> * elements, IT size,
         IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
+    // All block ids fit in the index type
+    assert(blockcols == 0 || blockrows <= std::numeric_limits<IT>::max() / blockcols);
+
     for (IT i=0; i<size; i++)
     {
         IT br = index_to_blockindex(blockrow_offset, blockrows, elements[i].row );
@@ -330,6 +333,9 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
     {
         IT br = elements[i].row / blockrow_size;
         IT bc = elements[i].col / blockcol_size;
+
+        // Block id fits in the index type
+        assert(br < std::numeric_limits<IT>::max() / blockcols);
         elements[i].block = br * blockcols + bc;
     }
 }
-- 
2.43.0


From 382eb8880c95206c12306380fd89b985492b45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 35/66] fix: read_bin_array did not close the file after an
 error

---
 include/io/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/input.h b/include/io/input.h
index 9b89cbc..faaf0ea 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -29,9 +29,9 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   FILE * f = fopen(filename, "rb");
   if (f==NULL) return -2;
   size_t ret = fread( *data, sizeof(T), size, f);
+  fclose(f);
   if (ret < size) return -3;
 
-  fclose(f);
   return 0;
 }
 
-- 
2.43.0


From 22ec1652ddb6c461f136e03b7b75da2bdd7b740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 36/66] fix: BlockCoo::set_value assigned its argument to
 itself

---
 include/matrix/block_coo.1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index 98b28d9..a73063e 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -24,7 +24,7 @@ struct BlockCoo
     // Setters
     void set_row_index(IT index, IT row) { I[index] = row; }
     void set_column_index(IT index, IT column) { J[index] = column; }
-    void set_value(IT index, T val) { val[index] = val; }
+    void set_value(IT index, T value) { val[index] = value; }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
-- 
2.43.0


From 2af69dc8b9ce26d11de0e7fea12d4b0489057626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 37/66] fix: Morton order is exact for all indices of up to 32
 bits

The interleaved index was computed in 32 bits and truncated to the type of the
index, so that for 16 bit indices only the low byte of a row or column counted
and the order was not Morton order any more.
---
 include/utils.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index dcc9f13..a3883da 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -177,27 +177,30 @@ void sort_triplets(Point_t<Value_t, Index_t> * array, Index_t size)
 /*
  * Interleave bits by Binary Magic Numbers
  * https://graphics.stanford.edu/~seander/bithacks.html#InterleaveBMN
- * WARNING : This will not work for any index type. Use with caution.
+ * WARNING : This will not work for indices of more than 32 bits.
  */
 template <class IT>
-IT bit_interleave(IT row, IT col)
+uint64_t bit_interleave(IT row, IT col)
 {
-    static const uint32_t B[] = {0x55555555, 0x33333333, 0x0F0F0F0F, 0x00FF00FF};
-    static const uint32_t S[] = {1, 2, 4, 8};
-    uint32_t x = (uint32_t) row;
-    uint32_t y = (uint32_t) col;
+    static const uint64_t B[] = {0x5555555555555555, 0x3333333333333333, 0x0F0F0F0F0F0F0F0F,
+                                 0x00FF00FF00FF00FF, 0x0000FFFF0000FFFF};
+    static const uint32_t S[] = {1, 2, 4, 8, 16};
+    uint64_t x = (uint32_t) row;
+    uint64_t y = (uint32_t) col;
 
+    x = (x | (x << S[4])) & B[4];
     x = (x | (x << S[3])) & B[3];
     x = (x | (x << S[2])) & B[2];
     x = (x | (x << S[1])) & B[1];
     x = (x | (x << S[0])) & B[0];
 
+    y = (y | (y << S[4])) & B[4];
     y = (y | (y << S[3])) & B[3];
     y = (y | (y << S[2])) & B[2];
     y = (y | (y << S[1])) & B[1];
     y = (y | (y << S[0])) & B[0];
 
-    return (IT) (x | (y << 1));
+    return x | (y << 1);
 }
 
 /*
-- 
2.43.0


From 77af34c99760672f463abb33f54c42751af4d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 38/66] fix: refuse incomplete numbers in MatrixMarket entries

---
 include/io/input.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index faaf0ea..beb982d 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -44,23 +44,28 @@ inline int read_mm_point(FILE * f, bool pattern, unsigned long rows, unsigned lo
                          unsigned long * r, unsigned long * c, double * val)
 {
   char line[MM_MAX_LINE_LENGTH];
-  int read = 0, end = -1;
+  int end = -1;
+  char * rest;
 
   do {
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) return -1;
   } while (line[strspn(line, " \t\r\n\v\f")] == '\0');
 
+  if (sscanf(line, "%lu%*1[ \t]%lu%n", r, c, &end) != 2 || end < 0) return -1;
+  rest = line + end;
+
   if (pattern) {
     *val = 1.0;
-    read = sscanf(line, "%lu%*1[ \t]%lu %n", r, c, &end);
-    if (read != 2) return -1;
   } else {
-    read = sscanf(line, "%lu%*1[ \t]%lu%*1[ \t]%lg %n", r, c, val, &end);
-    if (read != 3) return -1;
+    // strtod is used because scanf accepts incomplete numbers (e.g. "1e")
+    if (*rest != ' ' && *rest != '\t') return -1;
+    char * start = rest;
+    *val = strtod(start, &rest);
+    if (rest == start) return -1;
   }
 
   // There should be nothing else in this line
-  if (end < 0 || line[end] != '\0') return -1;
+  if (rest[strspn(rest, " \t\r\n\v\f")] != '\0') return -1;
 
   return (*r >= 1 && *r <= rows && *c >= 1 && *c <= columns) ? 0 : -1;
 }
-- 
2.43.0


From 27a1883d1af6c3a27cc0dd40006533125991fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 39/66] fix: refuse hermitian matrices of integers, the format
 has none

---
 dep/mm_io/mm_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index d29b898..0578352 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -37,7 +37,8 @@ int mm_is_valid ( MM_typecode matcode )
     return 0;
   }
 
-  if ( mm_is_real ( matcode ) && mm_is_hermitian ( matcode ) )
+  if ( ( mm_is_real ( matcode ) || mm_is_integer ( matcode ) ) &&
+      mm_is_hermitian ( matcode ) )
   {
     return 0;
   }
-- 
2.43.0


From d0e30577d9769b9416e5e9f83f142a07a5490c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 40/66] fix: the numbers of a MatrixMarket size line are
 separate words

---
 dep/mm_io/mm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 0578352..f480364 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -470,7 +470,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     }
   }
 
-  if (sscanf(line, "%d %d %d", M, N, nz) != 3)
+  if (sscanf(line, "%d%*1[ \t]%d%*1[ \t]%d", M, N, nz) != 3)
   {
     return MM_PREMATURE_EOF;
   }
-- 
2.43.0


From 3b2b9b0ded438078f8ead921b976107a78e9a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 41/66] fix: MatrixMarket sizes beyond the library's integers
 are refused, not truncated

---
 dep/mm_io/mm_io.c   | 10 ++++++++--
 include/io/output.h |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index f480364..0132bcd 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -2,6 +2,7 @@
 # include <string.h>
 # include <stdlib.h>
 # include <ctype.h>
+# include <limits.h>
 # include <time.h>
 
 # include "mm_io.h"
@@ -432,6 +433,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
+  long m, n, z;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -470,15 +472,19 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     }
   }
 
-  if (sscanf(line, "%d%*1[ \t]%d%*1[ \t]%d", M, N, nz) != 3)
+  if (sscanf(line, "%ld%*1[ \t]%ld%*1[ \t]%ld", &m, &n, &z) != 3)
   {
     return MM_PREMATURE_EOF;
   }
-  if (*M < 0 || *N < 0 || *nz < 0)
+  if (m < 0 || n < 0 || z < 0 || m > INT_MAX || n > INT_MAX || z > INT_MAX)
   {
     return MM_NOT_MTX;
   }
 
+  *M = (int) m;
+  *N = (int) n;
+  *nz = (int) z;
+
   return 0;
 }
 /******************************************************************************/
diff --git a/include/io/output.h b/include/io/output.h
index f7a2f37..0eb695f 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -1,5 +1,6 @@
 #ifndef _OUTPUT_H_
 #define _OUTPUT_H_
+#include <climits>
 #include <cstdio>
 #include <limits>
 
@@ -51,6 +52,13 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   unsigned long r, c;
   unsigned long size = A->nnz;
 
+  // Matrix Market library only works with ints
+  if ((unsigned long) A->rows > INT_MAX || (unsigned long) A->columns > INT_MAX ||
+      size > INT_MAX) {
+    fprintf(stderr, "Matrix is too large for a Matrix Market file.\n");
+    return -3;
+  }
+
   // Open file for writing
   FILE * f = fopen(filename, "w");
   if (f == NULL) {
-- 
2.43.0


From 4190f2affc7a89ea5747636702ce303e963843a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 42/66] fix: the size of a file that has none is an error

---
 src/common.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index 695a6fc..9655240 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -85,7 +85,7 @@ int string_ends_with(const char * str, const char * suffix)
  */
 size_t get_file_size(const char * filename)
 {
-  size_t size;
+  long size;
   FILE * f;
 
   f = fopen(filename, "rb");
@@ -93,11 +93,13 @@ size_t get_file_size(const char * filename)
     fprintf(stderr, "Cannot open file %s\n", filename);
     exit(1);
   }
-  fseek(f, 0, SEEK_END);
-  size = ftell(f);
+  if(fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0){
+    fprintf(stderr, "Cannot get size of file %s\n", filename);
+    exit(1);
+  }
   fclose(f);
 
-  return size;
+  return (size_t) size;
 }
 
 /*
-- 
2.43.0


From cf9763c43247a93ed077dd8b5c68cc5895e024e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 43/66] fix: binary arrays must hold whole elements

---
 include/io/input.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/io/input.h b/include/io/input.h
index beb982d..5c2cf38 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -20,6 +20,9 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
 {
   size_t size = get_file_size(filename) / sizeof(T);
 
+  // The file must hold whole elements
+  if (get_file_size(filename) != size * sizeof(T)) return -3;
+
   // Allocate memory
   *num = size;
   *data = (T *) malloc(size * sizeof(T));
-- 
2.43.0


From 42a464db71a05d66c618406905211877a8db92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 44/66] fix: block sizes of huge matrices overflowed the cache
 budget computation

---
 include/utils.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index a3883da..853fac8 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -37,7 +37,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
         // The matrix is too small to be cut in blocks for every worker. Use the
         // largest block size that respects the rest of the limits.
         uint64_t beta = std::min(roundrowup, roundcolup);
-        while (beta > 1 && (beta > (uint64_t(1) << logbeta) || beta * val_size > L2SIZE))
+        while (beta > 1 && (beta > (uint64_t(1) << logbeta) || beta > L2SIZE / val_size))
             beta /= 2;
         return beta;
     }
@@ -57,19 +57,15 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that suby occupies in L2 cache
-    uint64_t yL2 = (uint64_t(1) << rowlowbits) * val_size;
-    while(yL2 > L2SIZE)
+    while(rowlowbits > 0 && (uint64_t(1) << rowlowbits) > L2SIZE / val_size)
     {
-    	yL2 /= 2;
     	rowhighbits++;
     	rowlowbits--;
     }
 
     // calculate the space that subx occupies in L2 cache
-    uint64_t xL2 = (uint64_t(1) << collowbits) * val_size;
-    while(xL2 > L2SIZE)
+    while(collowbits > 0 && (uint64_t(1) << collowbits) > L2SIZE / val_size)
     {
-    	xL2 /= 2;
     	colhighbits++;
     	collowbits--;
     }
-- 
2.43.0


From 0c8c3b0be75f983078a4f854d899752c8cfba6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 45/66] fix: tools released their matrix with the wrong
 function

---
 src/tools/convert_blocked.cpp | 2 +-
 src/tools/expanded.cpp        | 2 +-
 src/tools/prepare.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 4ce5dad..561444e 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -103,6 +103,6 @@ int main(int argc, char * argv[]){
     printf(" done in %.3f sec\n", t);
   }
 
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index cd34ce7..2dba917 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -94,6 +94,6 @@ int main(int argc, char * argv[]){
   // Clean up
   free(block_size);
   free(block_offset);
-  free(A.elements);
+  release(A);
   return 0;
 }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index c23e3f8..92b1053 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -240,7 +240,7 @@ int main(int argc, char * argv[])
   // Memory clean up
   free(block_sizes);
   free(block_offsets);
-  free(A.elements);
+  release(A);
 
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
-- 
2.43.0


From 8d978f946883736a61d4fa2486f21e55da27cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 46/66] fix: tools refuse files that do not hold whole elements

---
 src/tools/double2float.c | 5 +++--
 src/tools/one2zero.c     | 6 +++++-
 src/tools/pprint.c       | 7 ++++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 2c63561..ace1e83 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -11,6 +11,7 @@
 int main(int argc, char * argv[])
 {
   unsigned long size;
+  size_t bytes;
   char *buf;
   OLDTYPE v;
   NEWTYPE v_new;
@@ -42,13 +43,13 @@ int main(int argc, char * argv[])
       exit(1);
     }
 
-    while(fread(&v, sizeof(OLDTYPE), 1, f_in) > 0){
+    while((bytes = fread(&v, 1, sizeof(OLDTYPE), f_in)) == sizeof(OLDTYPE)){
       size++;
       v_new = (NEWTYPE) v;
       if (fwrite(&v_new, sizeof(NEWTYPE), 1, f_out) != 1) break;
     }
 
-    if (ferror(f_in) || ferror(f_out) || fclose(f_out) != 0) {
+    if (bytes % sizeof(OLDTYPE) != 0 || ferror(f_in) || ferror(f_out) || fclose(f_out) != 0) {
       fprintf(stderr, "Error while converting values. Aborting.\n");
       exit(1);
     }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 59a08be..f542f5f 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -40,10 +40,14 @@ int main (int argc, char * argv[])
     fseek(f_in, 0, SEEK_END);
     size = ftell(f_in);
     n = size / sizeof(INDEXTYPE);
+    if (size % sizeof(INDEXTYPE) != 0) {
+        fprintf(stderr, "File does not hold whole indeces\n");
+        return 1;
+    }
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    if (fread(indeces, sizeof(INDEXTYPE), n, f_in) != n) {
+    if (fread(indeces, sizeof(INDEXTYPE), n, f_in) != n || fgetc(f_in) != EOF || ferror(f_in)) {
         fprintf(stderr, "Could not read file\n");
         return 1;
     }
diff --git a/src/tools/pprint.c b/src/tools/pprint.c
index fa433c7..3d4e800 100644
--- a/src/tools/pprint.c
+++ b/src/tools/pprint.c
@@ -27,6 +27,7 @@ int main (int argc, char * argv[])
     int mode;
     INDEXTYPE n, r, c, nnz;
     VALUETYPE v;
+    size_t bytes;
     FILE * f;
 
     if (argc < 2) {
@@ -99,7 +100,11 @@ int main (int argc, char * argv[])
         break;
 
         case 2: // Binary vector file (INDEXTYPE)
-        while(fread(&n, sizeof(INDEXTYPE), 1, f) > 0) printf("%12u\n", n);
+        while((bytes = fread(&n, 1, sizeof(INDEXTYPE), f)) == sizeof(INDEXTYPE)) printf("%12u\n", n);
+        if (bytes != 0 || ferror(f)) {
+            fprintf(stderr, "Unexpected end of file.\n");
+            return 1;
+        }
         break;
     }
 
-- 
2.43.0


From 619869e32ed45bb5ee12ba22042417b0c28d3404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 47/66] fix: memory of vectors is allocated in multiples of its
 alignment

---
 include/common.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/common.h b/include/common.h
index 49b07a3..d52f87b 100644
--- a/include/common.h
+++ b/include/common.h
@@ -23,13 +23,25 @@ int64_t highest_bit_set(int64_t v);
 unsigned int highest_bit_set(unsigned int v);
 int highest_bit_set(int v);
 
+/*
+ * Allocate memory for a vector, aligned to cache lines. The size given to
+ * aligned_alloc must be a multiple of the alignment.
+ */
+template <class T>
+T * vector_allocate (size_t size)
+{
+    const size_t alignment = 64;
+    size_t bytes = (size * sizeof(T) + alignment - 1) / alignment * alignment;
+    return static_cast<T*>(aligned_alloc(alignment, bytes));
+}
+
 /*
  * Vector initialization with random data
  */
 template <class T, class IT>
 void vector_random (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = vector_allocate<T>(size);
 
     for (IT i=0; i<size; i++)
     {
@@ -40,7 +52,7 @@ void vector_random (T **x, IT size)
 template <class T, class IT>
 void vector_zero (T **x, IT size)
 {
-    *x = static_cast<T*>(aligned_alloc(64, size * sizeof(T)));
+    *x = vector_allocate<T>(size);
 
     for (IT i=0; i<size; i++)
     {
-- 
2.43.0


From f2d516794cbd69fde897cbe80c6338c9d41765d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 48/66] fix: refuse binary matrix files with entries outside of
 the matrix

---
 include/io/input.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 5c2cf38..81cef7b 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -385,20 +385,25 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter = 0;
     for (IT i=0; i<A->nnz; i++)
     {
-        counter += fread(&buffer, sizeof(IT), 1, f);
+        if (fread(&buffer, sizeof(IT), 1, f) != 1) break;
+        if (buffer < 0 || buffer >= A->rows) break;  // Outside of the matrix
         A->set_row_index(i, buffer);
+        counter++;
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
-        counter += fread(&buffer, sizeof(IT), 1, f);
+        if (fread(&buffer, sizeof(IT), 1, f) != 1) break;
+        if (buffer < 0 || buffer >= A->columns) break;  // Outside of the matrix
         A->set_column_index(i, buffer);
+        counter++;
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
-        counter += fread(&vbuffer, sizeof(T), 1, f);
+        if (fread(&vbuffer, sizeof(T), 1, f) != 1) break;
         A->set_value(i, vbuffer);
+        counter++;
     }
 
     if (counter != 3 * (size_t) A->nnz)
@@ -476,6 +481,8 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
     count++;
   }
   count += fread(A->col_ind, sizeof(IT), nnz, f);
+  for(size_t i=0; i < (size_t) nnz && count == 2 * (size_t) nnz; i++)
+    if (A->col_ind[i] < 0 || A->col_ind[i] >= A->columns) count = 0;  // Outside of the matrix
   count += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
@@ -536,8 +543,11 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
     count++;
   }
 
-  for(IT i=0; i<nnz; i++)
-    count += fread(&(A->data[i].index), sizeof(IT), 1, f);
+  for(IT i=0; i<nnz; i++){
+    if (fread(&(A->data[i].index), sizeof(IT), 1, f) != 1) break;
+    if (A->data[i].index < 0 || A->data[i].index >= A->columns) break;  // Outside of the matrix
+    count++;
+  }
 
   for(IT i=0; i<nnz; i++)
     count += fread(&(A->data[i].val), sizeof(T), 1, f);
-- 
2.43.0


From 7938a3f8b380e16a61df9874a436949ba287e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 49/66] fix: inverting a vector that is not a permutation is
 refused, its inverse was partly uninitialized

---
 include/permute.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/permute.h b/include/permute.h
index eb42e22..8242eab 100644
--- a/include/permute.h
+++ b/include/permute.h
@@ -19,9 +19,12 @@ bool indeces_within (IT const * indeces, size_t size, size_t limit)
 
 // This function is copied and slightly modified from SuiteSParse library
 // http://faculty.cse.tamu.edu/davis/suitesparse.html
+// Returns NULL if p is not a permutation.
 template <typename IT>
 IT * invert_permutation (IT const * p, IT size)
 {
+    if (!indeces_within(p, size, size)) return NULL;
+
     IT * pinv = new IT[size];        /* allocate result */
 
     #pragma omp parallel for schedule(static,64)
@@ -29,6 +32,14 @@ IT * invert_permutation (IT const * p, IT size)
         pinv [p [k]] = k ;/* invert the permutation */
     }
 
+    // If an index appears more than once, only one of its positions was kept
+    for (IT k=0; k<size; k++) {
+        if (pinv[p[k]] != k) {
+            delete [] pinv;
+            return NULL;
+        }
+    }
+
     return pinv;
 }
 
-- 
2.43.0


From 20186351c91efb05df3d819ca48eae80c6734de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 50/66] fix: blocked files with block numbers outside of the
 matrix or with fewer blocks than declared are refused before they are used

---
 include/io/blocked.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index c198012..7b1199e 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -102,6 +102,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       return -4;
     }
 
+    // Make sure the block exists
+    assert(b >= 0 && b / blockcols < blockrows);
+
     // Check if this is the begining of a new block
     if( b != prev_b){
 
@@ -144,6 +147,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Reading data section done"));
 
+  // Make sure all blocks have been found
+  assert(IT(block_index + 1) == A->nnzblocks);
+
   // Get row pointers from row non-zero counters
   for (IT bi=0; bi<A->nnzblocks; bi++) {
     for (IT i=0; i<A->blocks[bi].rows; i++) {
@@ -206,6 +212,9 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       return -4;
     }
 
+    // Make sure the block exists
+    assert(b >= 0 && b / blockcols < blockrows);
+
     // Check if this is the begining of a new block
     if( b != prev_b){
 
@@ -323,6 +332,9 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
       return -4;
     }
 
+    // Make sure the block exists
+    assert(b >= 0 && b / blockcols < blockrows);
+
     // Check if this is the begining of a new block
     if( b != prev_b){
       assert(b > prev_b || prev_b == IT(-1));
@@ -422,6 +434,8 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
     j = i + 1;
     while(j<A->nnz && elements[j].block == b) j++;
 
+    // Make sure the block exists
+    assert(b >= 0);
     br = b / blockcols;
     bc = b % blockcols;
     assert(br < blockrows);
-- 
2.43.0


From 0523b99d6d99623a8ab64d003551ea0d4f8ef821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 51/66] fix: the density of a block with many cells overflowed
 the index type

---
 include/matrix/blocks.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index caf2a4e..62eda9a 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -96,7 +96,7 @@ class BlockFactoryDefault : public BlockFactory<T,IT>
             coo = float(nnz) * (2 * sizeof(SIT) + sizeof(T));
             csr = float(rows) * sizeof(IT) + nnz * (sizeof(SIT) + sizeof(T));
             dense = float(rows) * columns * sizeof(T);
-            density= float(nnz) / (rows * columns);
+            density= float(nnz) / (float(rows) * columns);
 
             if (coo < 1.0f * csr) {
                 // COO block
-- 
2.43.0


From 2e2147cf5de440a26292eb56877b239bf385e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 52/66] fix: binary matrix files with negative row indices are
 refused when reading into CSR

---
 include/io/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 81cef7b..aaa7400 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -476,7 +476,7 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   // Read data section
   count = 0;
   for(IT i=0; i<nnz; i++){
-    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows) break;
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row < 0 || current_row >= A->rows) break;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
     count++;
   }
@@ -538,7 +538,7 @@ int read_bin_CSR(Csr2<T, IT> * A, const char * filename)
   // Read data section
   count = 0;
   for(IT i=0; i<nnz; i++){
-    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows) break;
+    if (fread(&current_row, sizeof(IT), 1, f) != 1 || current_row < 0 || current_row >= A->rows) break;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
     count++;
   }
-- 
2.43.0


From 1696aa0e5ae98688dd0dc64056680e9d021dea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 53/66] fix: the MatrixMarket header and size writers reported
 every success as a failure

---
 dep/mm_io/mm_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 0132bcd..1f9700a 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -699,7 +699,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -719,7 +719,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -804,7 +804,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From 36a548c28b7464390650466313fa4ad3a4cdeafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 54/66] fix: type codes that are no matrix have no name and no
 MatrixMarket header

---
 dep/mm_io/mm_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 1f9700a..3721614 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -617,7 +617,6 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     char buffer[MM_MAX_LINE_LENGTH];
     char *types[4];
 	char *mm_strdup(const char *);
-    int error =0;
 
 /*
   check for MTX type
@@ -625,7 +624,7 @@ char *mm_typecode_to_str ( MM_typecode matcode )
     if (mm_is_matrix(matcode))
         types[0] = MM_MTX_STR;
     else
-        error=1;
+        return NULL;
 
 /*
   check for CRD or ARR matrix
@@ -697,6 +696,9 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
     char *str = mm_typecode_to_str(matcode);
     int ret_code;
 
+    if (str == NULL)
+        return MM_UNSUPPORTED_TYPE;
+
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
     if (ret_code < 0)
-- 
2.43.0


From 1d465e60661160348015b53fae2d349e942d4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 55/66] fix: reading the size of a MatrixMarket array never
 ended when the size was no number

---
 dep/mm_io/mm_io.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 3721614..a33e257 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -193,14 +193,15 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  int in_comment = 0;
+  long m, n;
 /*
   set return null parameter values, in case we exit with errors
 */
   *M = 0;
   *N = 0;
 /*
-  now continue scanning until you reach the end-of-comments
+  now continue scanning until you reach the end-of-comments and blank lines
 */
   do
   {
@@ -208,26 +209,30 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     {
       return MM_PREMATURE_EOF;
     }
-  } while ( line[0] == '%' );
 /*
-  line[] is either blank or has M,N, nz
+  comments may be longer than the line buffer
+*/
+    if ( in_comment || line[0] == '%' )
+    {
+      in_comment = ( strchr ( line, '\n' ) == NULL );
+      line[0] = '\0';
+    }
+  } while ( line[strspn ( line, " \t\r\n\v\f" )] == '\0' );
+/*
+  line[] has M,N
 */
-  if ( sscanf ( line, "%d %d", M, N ) == 2 )
+  if ( sscanf ( line, "%ld%*1[ \t]%ld", &m, &n ) != 2 )
   {
-    return 0;
+    return MM_PREMATURE_EOF;
   }
-  else
+  if ( m < 0 || n < 0 || m > INT_MAX || n > INT_MAX )
   {
-    do
-    {
-      num_items_read = fscanf ( f, "%d %d", M, N );
-      if ( num_items_read == EOF )
-      {
-        return MM_PREMATURE_EOF;
-      }
-    }
-    while ( num_items_read != 2 );
+    return MM_NOT_MTX;
   }
+
+  *M = (int) m;
+  *N = (int) n;
+
   return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From d744a6be56e565bf629f7acacf098b8613231de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 56/66] fix: mm_read_mtx_crd accepted matrices of integers
 without reading them and lost memory and files on errors

---
 dep/mm_io/mm_io.c | 51 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index a33e257..e7750b5 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -273,45 +273,46 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         return MM_COULD_NOT_READ_FILE;
 
 
-    if ((ret_code = mm_read_banner(f, matcode)) != 0)
-        return ret_code;
+    *I = NULL;
+    *J = NULL;
+    *val = NULL;
+
+    ret_code = mm_read_banner(f, matcode);
 
-    if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
+    if (ret_code == 0 && !(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
             mm_is_matrix(*matcode)))
-        return MM_UNSUPPORTED_TYPE;
+        ret_code = MM_UNSUPPORTED_TYPE;
 
-    if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-        return ret_code;
+    if (ret_code == 0)
+        ret_code = mm_read_mtx_crd_size(f, M, N, nz);
 
+    if (ret_code == 0)
+    {
+        *I = (int *)  malloc(*nz * sizeof(int));
+        *J = (int *)  malloc(*nz * sizeof(int));
 
-    *I = (int *)  malloc(*nz * sizeof(int));
-    *J = (int *)  malloc(*nz * sizeof(int));
-    *val = NULL;
+        if (mm_is_complex(*matcode))
+            *val = (double *) malloc(*nz * 2 * sizeof(double));
+        else if (mm_is_real(*matcode))
+            *val = (double *) malloc(*nz * sizeof(double));
 
-    if (mm_is_complex(*matcode))
-    {
-        *val = (double *) malloc(*nz * 2 * sizeof(double));
+        /* other types are refused here */
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                 *matcode);
-        if (ret_code != 0) return ret_code;
-    }
-    else if (mm_is_real(*matcode))
-    {
-        *val = (double *) malloc(*nz * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
-    else if (mm_is_pattern(*matcode))
+    if (ret_code != 0)
     {
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = NULL;
+        *J = NULL;
+        *val = NULL;
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 1d22facbc25a87be8fe5a9bb8057b7b184d87cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 57/66] fix: mm_read_unsymmetric_sparse returned undefined
 entries for files that end early and lost memory and files on errors

---
 dep/mm_io/mm_io.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index e7750b5..b6d6c94 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -525,6 +525,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
 
@@ -533,9 +534,11 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if ( !(mm_is_real(matcode) && mm_is_matrix(matcode) &&
             mm_is_sparse(matcode)))
     {
+        char *type = mm_typecode_to_str(matcode);
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        fprintf(stderr, "Market Market type: [%s]\n", type ? type : "?");
+        free(type);
+        fclose(f);
         return -1;
     }
 
@@ -546,6 +549,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
 
@@ -559,9 +563,6 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     J = (int *) malloc(nz * sizeof(int));
     val = (double *) malloc(nz * sizeof(double));
 
-    *val_ = val;
-    *I_ = I;
-    *J_ = J;
 /*
   NOTE: when reading in doubles, ANSI C requires the use of the "l"
   specifier as in "%lg", "%lf", "%le", otherwise errors will occur
@@ -570,7 +571,15 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
 
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): entry missing or malformed.\n");
+            free(I);
+            free(J);
+            free(val);
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
@@ -579,6 +588,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     }
     fclose(f);
 
+    *val_ = val;
+    *I_ = I;
+    *J_ = J;
+
     return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From a55725b2093be93f6e47459eae1fac24b8ef0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 58/66] fix: mm_write_mtx_crd lost digits of the values and
 memory, and did not notice that a file could not be written

---
 dep/mm_io/mm_io.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index b6d6c94..ba072bd 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -763,17 +763,29 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 {
     FILE *f;
     int i;
+    int failed;
+    char *type = mm_typecode_to_str(matcode);
+
+    if (type == NULL || !mm_is_sparse(matcode) || mm_is_integer(matcode))
+    {
+        free(type);
+        return MM_UNSUPPORTED_TYPE;
+    }
 
     if (strcmp(fname, "stdout") == 0)
         f = stdout;
     else
     if ((f = fopen(fname, "w")) == NULL)
+    {
+        free(type);
         return MM_COULD_NOT_WRITE_FILE;
+    }
 /*
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    fprintf(f, "%s\n", type);
+    free(type);
 
 /*
   print matrix sizes and nonzeros.
@@ -788,23 +800,23 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i],
+            fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2*i],
                         val[2*i+1]);
-    else
-    {
-        if (f != stdout) fclose(f);
-        return MM_UNSUPPORTED_TYPE;
-    }
+
+  failed = ( fflush ( f ) != 0 || ferror ( f ) );
 
   if ( f !=stdout )
   {
-    fclose(f);
+    if ( fclose ( f ) != 0 )
+    {
+      failed = 1;
+    }
   }
-  return 0;
+  return failed ? MM_COULD_NOT_WRITE_FILE : 0;
 }
 /******************************************************************************/
 
-- 
2.43.0


From 2f8e7acb84c08b18082bead97e6b0593ebdf1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:11 +0000
Subject: [PATCH 59/66] fix: the numbers of a MatrixMarket entry are separate
 words

---
 dep/mm_io/mm_io.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index ba072bd..3d753a2 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -7,6 +7,16 @@
 
 # include "mm_io.h"
 
+/* Whether the number just read ends there, rather than running into more text. */
+static int mm_word_ends ( FILE *f )
+{
+  int c = getc ( f );
+
+  if ( c != EOF ) ungetc ( c, f );
+
+  return c == EOF || isspace ( c );
+}
+
 /******************************************************************************/
 
 int mm_is_valid ( MM_typecode matcode )
@@ -343,15 +353,15 @@ int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
     if (mm_is_complex(matcode))
     {
         for (i=0; i<nz; i++)
-            if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2*i], &val[2*i+1])
-                != 4) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d%*1[ \t\r\n]%lg%*1[ \t\r\n]%lg", &I[i], &J[i], &val[2*i], &val[2*i+1])
+                != 4 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
     }
     else if (mm_is_real(matcode))
     {
         for (i=0; i<nz; i++)
         {
-            if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i])
-                != 3) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d%*1[ \t\r\n]%lg", &I[i], &J[i], &val[i])
+                != 3 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
 
         }
     }
@@ -359,8 +369,8 @@ int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
     else if (mm_is_pattern(matcode))
     {
         for (i=0; i<nz; i++)
-            if (fscanf(f, "%d %d", &I[i], &J[i])
-                != 2) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d", &I[i], &J[i])
+                != 2 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
     }
     else
         return MM_UNSUPPORTED_TYPE;
@@ -390,19 +400,19 @@ int mm_read_mtx_crd_entry(FILE *f, int *I, int *J,
 {
     if (mm_is_complex(matcode))
     {
-            if (fscanf(f, "%d %d %lg %lg", I, J, real, imag)
-                != 4) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d%*1[ \t\r\n]%lg%*1[ \t\r\n]%lg", I, J, real, imag)
+                != 4 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
     }
     else if (mm_is_real(matcode))
     {
-            if (fscanf(f, "%d %d %lg\n", I, J, real)
-                != 3) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d%*1[ \t\r\n]%lg", I, J, real)
+                != 3 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
 
     }
 
     else if (mm_is_pattern(matcode))
     {
-            if (fscanf(f, "%d %d", I, J) != 2) return MM_PREMATURE_EOF;
+            if (fscanf(f, "%d%*1[ \t\r\n]%d", I, J) != 2 || !mm_word_ends(f)) return MM_PREMATURE_EOF;
     }
     else
         return MM_UNSUPPORTED_TYPE;
@@ -571,7 +581,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
 
     for (i=0; i<nz; i++)
     {
-        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        if (fscanf(f, "%d%*1[ \t\r\n]%d%*1[ \t\r\n]%lg", &I[i], &J[i], &val[i]) != 3 || !mm_word_ends(f))
         {
             fprintf(stderr, "read_unsymmetric_sparse(): entry missing or malformed.\n");
             free(I);
-- 
2.43.0


From b0d4503bb536c260812572b3165816e4148b087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 60/66] fix: number of wide rows for widths near the limit of
 the index type

---
 include/matrix/cswr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 4c478e0..8ca2c4f 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -54,7 +54,7 @@ void Coo_to_Cswr (
     A->columns = columns;
     A->nnz = nnz;
     A->width = width;
-    A->nwrows = (rows + width - 1) / width;
+    A->nwrows = rows / width + (rows % width != 0); // rows + width may not fit
     A->val = new T[nnz];
     A->row = new SIT[nnz];
     A->col = new IT[nnz];
-- 
2.43.0


From f4a9a7d11a94fcf59cd01888c87a890c6e12e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:43 +0000
Subject: [PATCH 61/66] fix: dense matrices whose number of cells does not fit
 in the index type

---
 include/matrix/dense.h   | 17 +++++++----------
 include/spmv/dense.h     |  2 +-
 include/spmv/omp/dense.h |  2 +-
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 1eb09e3..366b308 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -2,6 +2,7 @@
 #define _DENSE_H_
 
 #include <cassert>
+#include <cstddef>
 
 #include "typedefs.h"
 #include "matrix/coo.2.h"
@@ -21,13 +22,13 @@ struct DenseSerial : public BlockBase<T,IT>
     DenseSerial(Element<T,IT> * array, IT _rows, IT _columns, IT nnz)
         : rows(_rows), columns(_columns), BlockBase<T,IT>(nnz)
     {
-        IT pos;
+        size_t pos;     // Number of cells may not fit in the index type
 
-        val = new T[rows * columns]();
+        val = new T[(size_t) rows * columns]();
 
         for (IT i=0; i<nnz; i++)
         {
-            pos = array[i].row * columns + array[i].col;
+            pos = (size_t) array[i].row * columns + array[i].col;
             val[pos] += array[i].val; // Duplicates are added up
         }
     }
@@ -102,17 +103,13 @@ template <class NONZERO, class T, class IT,
           template <typename, typename> class DENSE>
 void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT nnz)
 {
-    IT pos, N;
-
-    // Watch out for integer overflow
-    N = rows * columns;
-    assert(N >= rows);
+    size_t pos;     // Number of cells may not fit in the index type
 
     allocate(A, rows, columns);
 
     for (IT i=0; i<nnz; i++)
     {
-        pos = nonzeros[i].row * columns + nonzeros[i].col;
+        pos = (size_t) nonzeros[i].row * columns + nonzeros[i].col;
         A->val[pos] += nonzeros[i].val; // Duplicates are added up
     }
 }
@@ -137,7 +134,7 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
 {
     A->rows = rows;
     A->columns = columns;
-    A->val = new T[rows*columns](); // Zero-initialize
+    A->val = new T[(size_t) rows * columns](); // Zero-initialize
 }
 
 /*
diff --git a/include/spmv/dense.h b/include/spmv/dense.h
index 09b85b2..4014533 100644
--- a/include/spmv/dense.h
+++ b/include/spmv/dense.h
@@ -13,7 +13,7 @@ inline void spmv_dense_serial (
         T temp = y[i];
         for (IT j=0; j<N; j++)
         {
-            temp += val[i*N + j] * x[j];
+            temp += val[(size_t) i * N + j] * x[j];
         }
         y[i] = temp;
     }
diff --git a/include/spmv/omp/dense.h b/include/spmv/omp/dense.h
index 0bdd452..3acf4ef 100644
--- a/include/spmv/omp/dense.h
+++ b/include/spmv/omp/dense.h
@@ -10,7 +10,7 @@ inline void spmv_dense(T const * const val, IT const M, IT const N,
     for (IT i=0; i<M; i++) {
         T temp = y[i];
         for (IT j=0; j<N; j++) {
-            temp += val[i*N + j] * x[j];
+            temp += val[(size_t) i * N + j] * x[j];
         }
         y[i] = temp;
     }
-- 
2.43.0


From e0da780fc22be0c029d1049a814b48f733647d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:05 +0000
Subject: [PATCH 62/66] fix: block sizes whose sum does not fit in the index
 type were taken silently

---
 include/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils.h b/include/utils.h
index 853fac8..8a51cff 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -129,6 +129,7 @@ void size_to_offset(IT * offsets, const IT * sizes, IT size)
 {
     offsets[0] = 0;
     std::partial_sum(sizes, sizes + size, offsets + 1);
+    assert(std::is_sorted(offsets, offsets + size + 1)); // Watch out for integer overflow
 }
 
 /*
-- 
2.43.0


From 555b356385ef0849a4ae4ce8e04cfdb63904d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:05 +0000
Subject: [PATCH 63/66] fix: block expansions whose dimension does not fit in
 the index type wrapped around

---
 include/expand.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/expand.h b/include/expand.h
index 60782c7..d6d00d1 100644
--- a/include/expand.h
+++ b/include/expand.h
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <assert.h>
 #include <omp.h>
+#include <limits>
 
 #include "typedefs.h"
 #include "common.h"
@@ -22,7 +23,11 @@ IT expand_block_size(IT * block_size, IT size)
     if(block_size[i] > max_block)
       max_block = block_size[i];
 
-  return (IT) next_power_of_two(max_block);
+  // The expanded dimension must fit in the index type
+  uint64_t new_block_size = next_power_of_two(max_block);
+  assert(size <= 0 || new_block_size <= (uint64_t) std::numeric_limits<IT>::max() / size);
+
+  return (IT) new_block_size;
 }
 
 /*
-- 
2.43.0


From 87ff5876fc6449850985e704af7c064fc4c340dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:11 +0000
Subject: [PATCH 64/66] fix: number of blocks of a CSBR3 matrix for block sizes
 near the limit of the index type

---
 include/matrix/csbr.3.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/matrix/csbr.3.h b/include/matrix/csbr.3.h
index c94f492..f73d888 100644
--- a/include/matrix/csbr.3.h
+++ b/include/matrix/csbr.3.h
@@ -66,8 +66,9 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
     A->rows = B->rows;
     A->columns = B->columns;
     A->nnz = B->nnz;
-    A->blockrows = (B->rows + block_size - 1) / block_size;
-    A->blockcols = (B->columns + block_size - 1) / block_size;
+    // rows + block_size and columns + block_size may not fit in the index type
+    A->blockrows = B->rows / block_size + (B->rows % block_size != 0);
+    A->blockcols = B->columns / block_size + (B->columns % block_size != 0);
     A->block_size = block_size;
 
     // Sort triplets according to block-row, block-column, row, column
@@ -110,9 +111,9 @@ void Coo_to_Csbr (Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT block_size)
         }
 
         assert(B->elements[i].row >= br_offset);
-        assert(B->elements[i].row < br_offset + block_size);
+        assert(B->elements[i].row - br_offset < block_size);
         assert(B->elements[i].col >= bc_offset);
-        assert(B->elements[i].col < bc_offset + block_size);
+        assert(B->elements[i].col - bc_offset < block_size);
 
         A->row_ind[i] = B->elements[i].row - br_offset;
         A->col_ind[i] = B->elements[i].col - bc_offset;
-- 
2.43.0


From 267fc4ccb5896d99090b3db66038ed90084740f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:31 +0000
Subject: [PATCH 65/66] fix: signed block sizes whose sum does not fit are
 found before they are added

---
 include/utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 8a51cff..e96953f 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -128,8 +128,12 @@ template <class IT>
 void size_to_offset(IT * offsets, const IT * sizes, IT size)
 {
     offsets[0] = 0;
-    std::partial_sum(sizes, sizes + size, offsets + 1);
-    assert(std::is_sorted(offsets, offsets + size + 1)); // Watch out for integer overflow
+    for (IT i=0; i<size; i++)
+    {
+        // Sum of block sizes fits in the index type
+        assert(sizes[i] <= std::numeric_limits<IT>::max() - offsets[i]);
+        offsets[i + 1] = offsets[i] + sizes[i];
+    }
 }
 
 /*
-- 
2.43.0


From b082dc1676149a0d9330bb5094c77d6e0cd5de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:07 +0000
Subject: [PATCH 66/66] fix: negative block sizes were accepted

---
 include/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utils.h b/include/utils.h
index e96953f..5ca07cb 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -133,6 +133,7 @@ void size_to_offset(IT * offsets, const IT * sizes, IT size)
         // Sum of block sizes fits in the index type
         assert(sizes[i] <= std::numeric_limits<IT>::max() - offsets[i]);
         offsets[i + 1] = offsets[i] + sizes[i];
+        assert(offsets[i + 1] >= offsets[i]);   // Sizes are not negative
     }
 }
 
-- 
2.43.0

