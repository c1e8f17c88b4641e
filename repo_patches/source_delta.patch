From e68e66e1293e962052a181706b9b5f78897c9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 01/23] fix: sort_triplets_blocks reads past the end of the
 array while locating block rows

---
 include/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index ea1ea56..1cc8fd1 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
-- 
2.43.0


From 2865ff2beb0b34bfeaf40fe482508918799b5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 02/23] fix: count_blocks reads array[0] and reports one block
 for an empty array

---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index 1cc8fd1..56eddb3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From b52c4f7341425653a40010c2b1eaf46527336367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 03/23] fix: blocking a small matrix with the block size 0 that
 pick_block_size returns divides by zero

---
 include/generic/gsb.h | 5 +++--
 include/matrix/csbr.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index f6bf3b3..fb32709 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -15,8 +15,9 @@ template <class T, class IT, class MATRIX,
           template <typename, typename> class COO>
 void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
 {
-    IT blockrows = B->rows / br_size;
-    IT blockcols = B->columns / bc_size;
+    // pick_block_size() returns 0 if a matrix is too small to be blocked
+    IT blockrows = br_size ? B->rows / br_size : 1;
+    IT blockcols = bc_size ? B->columns / bc_size : 1;
     if (blockrows == 0) blockrows = 1;
     if (blockcols == 0) blockcols = 1;
     IT * blockrow_offset = new IT[blockrows + 1];
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..80f7437 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -307,8 +307,9 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
 template <class T, class IT, class COOTYPE>
 void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 {
-  IT blockrows = B->rows / br_size;
-  IT blockcols = B->columns / bc_size;
+  // pick_block_size() returns 0 if a matrix is too small to be blocked
+  IT blockrows = br_size ? B->rows / br_size : 1;
+  IT blockcols = bc_size ? B->columns / bc_size : 1;
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-- 
2.43.0


From a87ac58c1496178d702d5ebb0ee0df2cac74a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 04/23] fix: dense constructors drop all but the last of
 several entries for one position

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..017c03f 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -108,7 +108,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From 55754db3b57c5d2a1e1b50107432f935e854a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 05/23] fix: Coo_to_CrCsr counts row entries in an
 uninitialised array

---
 include/matrix/crcsr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..3b8e8eb 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,7 +38,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1](); // Initialize to zero!
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
-- 
2.43.0


From 47ffb421f193d2f91cad5de81e1c26b24feea4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 06/23] fix: Coo_to_CrCsr counts non-empty rows before the
 entries are sorted

---
 include/matrix/crcsr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 3b8e8eb..b7c10aa 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -81,6 +81,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz);  // count_nnz_rows needs sorted input
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
-- 
2.43.0


From a3ed7b13115721b12b0570e1c113d87f82bfef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 07/23] fix: Cgbr2::balanced is read by spmv and print_info but
 never set

---
 include/matrix/cgbr.2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..f6c7083 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -25,7 +25,7 @@ struct Cgbr2 : public BlockBase<T,IT>
 
     // Partitioning information
     BlockRowPartition<IT> * partition;
-    bool balanced;
+    bool balanced {false};
 
     // Block size information
     IT * blockrow_offset;
-- 
2.43.0


From 3f1699f43c9dae418942bd4caf2092808dbc94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 08/23] fix: write_mm_COO rounds values to six decimals

---
 include/io/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..fdf0cd6 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -66,7 +66,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.17g\n", r+1, c+1, (double) val);
   }
 
   // Close file
-- 
2.43.0


From d3d3429cdfb3720a6023c7939ee62932710f3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 09/23] fix: read_mm_COO accepts pattern, skew-symmetric and
 hermitian files and misreads them

---
 include/io/input.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..303aca8 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -62,7 +62,8 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ||
+      mm_is_pattern(matcode) || mm_is_skew(matcode) || mm_is_hermitian(matcode)){
       fprintf(stderr, "Sorry, this program does not support ");
       fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
       return -3;
-- 
2.43.0


From c923540bbe565822b1bac22f338c0780f9e2bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 10/23] fix: read_bin_blocked(Cgbr) loses an element of the
 first block

---
 include/io/blocked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..1ee8277 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -420,7 +420,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       A->blockcol_ind[block_index] = bc;
 
       // Read new block in memory
-      block_nnz = i - block_start;
+      block_nnz = i + 1 - block_start;   // one element was read before the loop
       temp_array = new Element<T,IT>[block_nnz];
       if(fr == 4)
         fseek(f, - ((long) ((block_nnz + 1) * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
@@ -452,7 +452,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
       delete [] temp_array;
       fseek(f, (long)  (3*sizeof(IT) + sizeof(T)), SEEK_CUR);
       block_index++;
-      block_start = i;
+      block_start = i + 1;
       prev_b = b;
     }
   }
-- 
2.43.0


From 96eadbe269253d6360c0fbed6b97b42037bca67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 11/23] fix: read_bin_blocked(Cgbr) leaves the balanced flag
 unset

---
 include/io/blocked.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 1ee8277..0d74ea0 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -467,7 +467,12 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
-  partition_init(A);
+  A->balanced = A->is_balanced();
+
+  if (!A->balanced) {
+      // Unbalanced block-rows. We need within-block-row parallelism.
+      partition_init(A);
+  }
 
   return 0;
 }
-- 
2.43.0


From b49587dd2004f04e72f80c6e56f73c7a5ade7406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 12/23] fix: read_bin_COO of three files closes the column file
 twice, leaves dimensions unset and ignores short files

---
 include/io/input.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 303aca8..c8718ba 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -137,7 +137,7 @@ template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T val;
-  IT size, r, c;
+  IT size, counter = 0;
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
@@ -154,7 +154,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  counter += fread(A->I, sizeof(IT), size, fr);
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -168,7 +168,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  counter += fread(A->J, sizeof(IT), size, fc);
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -177,13 +177,18 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  counter += fread(A->val, sizeof(T), size, fv);
+  fclose(fv);
+
+  if (counter != 3 * size) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -2;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
@@ -204,8 +209,8 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, counter = 0, buffer = 0;
+  IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
@@ -225,6 +230,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
   }
 
   fclose(fr);
@@ -241,6 +247,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
   }
 
   fclose(fc);
@@ -259,7 +266,13 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  fclose(fv);
+
+  if (counter != 3 * size)
+  {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -2;
+  }
 
   // Set number or rows and columns
   A->rows = max_row + 1;
-- 
2.43.0


From c12b47479fd8a80dbdaf7782e0ec9453118abee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 13/23] fix: row pointers of Csbr blocks are allocated with
 calloc but released with delete[]

---
 include/io/blocked.h  | 6 +-----
 include/matrix/csbr.h | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 0d74ea0..53b546a 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -125,11 +125,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
-      if(A->blocks[block_index].row_ptr == NULL){
-        fprintf(stderr, "Could not allocate memory for block.\n");
-        return -5;
-      }
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(cur_row >= br_offset);
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 80f7437..83fdc73 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -262,7 +262,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
       A->blocks[block_index].rows = br_size;
       A->blocks[block_index].val = A->val + i;
       A->blocks[block_index].col_ind = A->col_ind + i;
-      A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
+      A->blocks[block_index].row_ptr = new IT[br_size + 1]();
     }
 
     assert(B->elements[i].row >= br_offset);
-- 
2.43.0


From 391d88d7e9e82210b41a54c90452f680fb0059d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 14/23] fix: block offsets allocated with new[] in
 Coo_to_Blocked are released with free()

---
 include/generic/gsb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index fb32709..8bd74ad 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -1,6 +1,7 @@
 #ifndef _GSB_H_
 #define _GSB_H_
 #include <cstdio>
+#include <cstdlib>
 
 #include "spmv/omp/gsb.h"
 
@@ -20,8 +21,8 @@ void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
     IT blockcols = bc_size ? B->columns / bc_size : 1;
     if (blockrows == 0) blockrows = 1;
     if (blockcols == 0) blockcols = 1;
-    IT * blockrow_offset = new IT[blockrows + 1];
-    IT * blockcol_offset = new IT[blockcols + 1];
+    IT * blockrow_offset = (IT *) malloc((blockrows + 1) * sizeof(IT));
+    IT * blockcol_offset = (IT *) malloc((blockcols + 1) * sizeof(IT));
 
     // Calculate block-row offsets
     blockrow_offset[0] = 0;
-- 
2.43.0


From f831b0b3c608582f4fccc996efa17698b976528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 15/23] fix: release(Csbr) leaks the block-row partition

---
 include/matrix/csbr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 83fdc73..3c2045a 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -33,7 +33,7 @@ struct Csbr
     IT nnzblocks;
 
     // Partitioning information
-    BlockRowPartition<IT> * partition;
+    BlockRowPartition<IT> * partition {nullptr};
     bool balanced {true}; // TODO: Add heuristic
 
     // Original size
@@ -367,6 +367,8 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
-- 
2.43.0


From 2ce21409776bde865a0870e68abd77e168b63c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 16/23] fix: Coo arrays are freed twice by release() and the
 destructor, and freed uninitialised if never allocated

---
 include/matrix/coo.1.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..facdbdb 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -11,9 +11,9 @@
 template <typename T, typename IT, typename SIT>
 struct Coo : public BlockBase<T,IT>
 {
-    SIT *I;
-    SIT *J;
-    T *val;
+    SIT *I {nullptr};
+    SIT *J {nullptr};
+    T *val {nullptr};
     IT rows, columns;   // Not always used. Carefull
 
     Coo(Element<T,IT> * array, IT nnz) : BlockBase<T,IT>(nnz)
@@ -77,6 +77,10 @@ void release(Coo<T,IT,SIT>& A)
     delete [] A.I;
     delete [] A.J;
     delete [] A.val;
+
+    // Destructor should not release the arrays again
+    A.I = A.J = nullptr;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 147b4e67be50dd57f7b8a716f4eed92ead83df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 17/23] fix: dense blocks of Cgbr2 are never released

---
 include/matrix/dense.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 017c03f..721a400 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -15,7 +15,7 @@
 template <typename T, typename IT>
 struct DenseSerial : public BlockBase<T,IT>
 {
-    T * val;
+    T * val {nullptr};
     IT rows, columns;
 
     DenseSerial(Element<T,IT> * array, IT _rows, IT _columns, IT nnz)
@@ -34,6 +34,11 @@ struct DenseSerial : public BlockBase<T,IT>
 
     DenseSerial() {} // For testing. Should go.
 
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
+
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
      * y should already be allocated and initialized. In this case A, is not
@@ -140,9 +145,10 @@ void allocate(DENSE<T,IT> * A, IT rows, IT columns)
  */
 template <class T, class IT,
           template <typename, typename> class DENSE>
-void release(DENSE<T,IT> A)
+void release(DENSE<T,IT>& A)
 {
     delete [] A.val;
+    A.val = nullptr;
 }
 
 #endif
-- 
2.43.0


From 35da4cbc9b9076469608d2fef8063bfb5e0ef2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 18/23] fix: reading a Matrix Market file without a numeric
 size line loops forever

---
 dep/mm_io/mm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..5adafb4 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -460,7 +460,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     {
       num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
+      if (num_items_read == EOF || num_items_read == 0)
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From 63da596971935a6e0084d8765573d7c916490c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 19/23] fix: a long word in the banner of a Matrix Market file
 overflows the token buffers

---
 dep/mm_io/mm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index 5adafb4..26ab52c 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -85,7 +85,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
-- 
2.43.0


From a92957007fa881b6f59cb5b5a544fcc76156e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 20/23] fix: bit_interleave cut the result to the index type,
 so Morton sorting of 16-bit indices was wrong

---
 include/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index 56eddb3..59a7e08 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -173,7 +173,7 @@ void sort_triplets(Point_t<Value_t, Index_t> * array, Index_t size)
  * WARNING : This will not work for any index type. Use with caution.
  */
 template <class IT>
-IT bit_interleave(IT row, IT col)
+uint32_t bit_interleave(IT row, IT col)
 {
     static const uint32_t B[] = {0x55555555, 0x33333333, 0x0F0F0F0F, 0x00FF00FF};
     static const uint32_t S[] = {1, 2, 4, 8};
@@ -190,7 +190,7 @@ IT bit_interleave(IT row, IT col)
     y = (y | (y << S[1])) & B[1];
     y = (y | (y << S[0])) & B[0];
 
-    return (IT) (x | (y << 1));
+    return x | (y << 1);
 }
 
 /*
-- 
2.43.0


From c02fb84024ed724cb2258f0e667d8b16cd7623fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 21/23] fix: BlockCoo::set_value did not compile, its parameter
 hid the array

---
 include/matrix/block_coo.1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..78a1117 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -24,7 +24,7 @@ struct BlockCoo
     // Setters
     void set_row_index(IT index, IT row) { I[index] = row; }
     void set_column_index(IT index, IT column) { J[index] = column; }
-    void set_value(IT index, T val) { val[index] = val; }
+    void set_value(IT index, T val_) { val[index] = val_; }
 
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
-- 
2.43.0


From 47643e2fc3e8a6ad7bfa876c113e559358ac5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:17 +0000
Subject: [PATCH 22/23] fix: three-file matrices whose value file exceeds the
 index type in bytes are read whole

---
 include/io/input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index c8718ba..fb6f21c 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -142,7 +142,7 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
   FILE *fr, *fc, *fv;
 
   // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -214,7 +214,7 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
-- 
2.43.0


From 40e197bc6669c1e5a5b418892bfac6ce7df7be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:23 +0000
Subject: [PATCH 23/23] fix: a row-sorted file that ends early is not read as
 compressed rows successfully

---
 include/io/input.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index fb6f21c..129ab05 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -367,7 +367,7 @@ int read_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
-  IT current_row, nnz;
+  IT current_row, nnz, counter = 0;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -377,9 +377,13 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter += fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if (counter != 3) {
+    fprintf(stderr, "Failed to read matrix header.\n");
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
@@ -391,14 +395,21 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
+  counter = 0;
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if (fread(&current_row, sizeof(IT), 1, f) != 1) break;
+    counter++;
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  counter += fread(A->col_ind, sizeof(IT), nnz, f);
+  counter += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
 
+  if (counter != 3 * nnz) {
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data done"));
 
   // Get row pointers from row non-zero counters
-- 
2.43.0

