From 2b2bac0942a6f5d710e601ac53d4923c457010f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:21 +0000
Subject: [PATCH 01/41] fix: keep a matrix or vector usable when reinit is
 given an invalid size

reinit cleared the initialization flag before checking the new dimensions, so a refused call left the object uninitialized.
---
 linalg/src/matrix.rs | 3 +++
 linalg/src/vector.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 94b4187..3c44661 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -63,6 +63,9 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check that the number of rows does not exceed M_MAX.
+        is_valid_cols_number(cols)?;    // Check that the number of columns does not exceed N_MAX.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows, cols)?;     // Reinitialize the matrix.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c92fad8..c4a367b 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -49,6 +49,8 @@ impl<T: Default + Copy> Vector<T> {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
+        is_valid_rows_number(rows)?;    // Check that the number of rows does not exceed M_MAX.
+
         self.initialized = false;   // Set the initialization flag to false.
 
         self.init(rows)?;           // Reinitialize the vector.
-- 
2.43.0


From 5ece77fd7b3ea71ab1d1b53d68b80e9ddcb78acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:01 +0000
Subject: [PATCH 02/41] fix: refuse operations on uninitialized matrices and
 vectors

Filling, scaling, powers, norms, products, printing and the triangular tests looped over zero rows and reported success on an object that was never initialized.
---
 linalg/src/matrix.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++
 linalg/src/vector.rs | 42 +++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 3c44661..78b7bf4 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -232,6 +232,12 @@ impl Matrix {
     #[cfg(feature = "std")]
     /// This method is used to diplay a matrix of size m x n (not available in no_std environment).
     pub fn print(self: &Self) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and print it and move to the next row with a newline character.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -464,6 +470,12 @@ impl Matrix {
 
     /// This method is used to fill an entire matrix of size m x n with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Assign the value to each element of the matrix.
         for row in 0..self.rows {                   // Iterate for each row of the matrix.
             for col in 0..self.cols {               // Iterate for each column of the matrix.
@@ -664,6 +676,12 @@ impl Matrix {
 
     // This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the matrix.
         for row in 0..self.rows {
             // Iterate for each column of the matrix.
@@ -782,6 +800,12 @@ impl Matrix {
 
     // This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the matrix.
         for row in 0..self.rows {
             // Iterate for each column of the matrix.
@@ -814,6 +838,12 @@ impl Matrix {
     /// This method is used to perform the matrix multiplication operation on two matrices of sizes m x n and (n x k) respectively.
     // Naive implementation, as it is not very efficient for large matrices (for larger matrices, use the "divide and conquer" strategy).
     pub fn mul(self: &mut Self, matrix1: &Self, matrix2: &Self) -> Result<(), LinalgError> {
+        // Check that the matrices are initialized.
+        if !self.initialized || !matrix1.initialized || !matrix2.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         if matrix1.cols != matrix2.rows || self.rows != matrix1.rows || self.cols != matrix2.cols {
             return Err(LinalgError::InvalidSize)    // Return an error.
         }
@@ -940,6 +970,12 @@ impl Matrix {
 
     /// This method is used to multiply by a scalar all elements of a matrix of size m x n.
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and multiply it by the scalar.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -953,6 +989,12 @@ impl Matrix {
 
     /// This method is used to apply an exponent to all elements of a matrix of size m x n.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and apply exponent.
         for row in 0..self.rows {
             for col in 0..self.cols {
@@ -1219,6 +1261,12 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is upper triangular.
     pub fn is_upper_triangular(self: &Self) -> Result<bool, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.rows {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
@@ -1235,6 +1283,12 @@ impl Matrix {
 
     /// This method is used to check if a matrix of size m x n is lower triangular.
     pub fn is_lower_triangular(self: &Self) -> Result<bool, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Loops on every row except the last (which doesn't need to have null elements).
         for row in 0..self.rows - 1 {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
@@ -1251,6 +1305,12 @@ impl Matrix {
 
     /// This method is used to calculate the frobenius norm of a matrix of size m x n.
     pub fn calculate_frobenius_norm(self: &Self) -> Result<f32, LinalgError> {
+        // Check that the matrix is initialized.
+        if !self.initialized {
+            // The matrix is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let mut frobenius_norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index c4a367b..3fb0fa2 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -164,6 +164,12 @@ impl Vector<f32> {
     #[cfg(feature = "std")]
     /// This method is used to diplay a vector of size m x 1.
     pub fn print(self: &Self) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and print it and move to the next row with a newline character.
         for row in 0..self.rows {
             let element = self.get_element(row)?;   // Retrieve the value of the specified element from the vector.
@@ -177,6 +183,12 @@ impl Vector<f32> {
 
     /// This method is used to fill an entire vector of size m x 1 with a given value.
     pub fn fill(self: &mut Self, value: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Assign the value to each element of the vector.
         for row in 0..self.rows {
             self.set_element(row, value)?;  // Set the value.
@@ -321,6 +333,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn add_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the vector.
         for row in 0..self.rows {
             let element = self.get_element(row)? + scalar;  // Perform addition.
@@ -419,6 +437,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn sub_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate for each row of the vector.
         for row in 0..self.rows {
             let element = self.get_element(row)? - scalar;  // Perform subtraction.
@@ -447,6 +471,12 @@ impl Vector<f32> {
 
     /// This method is used to calculate the norm of a vector of size m x 1.
     pub fn calculate_norm(self: &Self) -> Result<f32, LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         let mut norm: f32 = 0.0;
 
         // Iterate through each element, square it, and accumulate the sum.
@@ -502,6 +532,12 @@ impl Vector<f32> {
 
     /// This method is used to ...
     pub fn mul_by_scalar_in_place(self: &mut Self, scalar: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and multiply it by the scalar.
         for row in 0..self.rows {
             let element = self.get_element(row)? * scalar;  // Peform multiplication.
@@ -635,6 +671,12 @@ impl Vector<f32> {
 
     /// This method is used to apply an exponent to all elements of a vector of size m x 1.
     pub fn power_elements(self: &mut Self, exponent: f32) -> Result<(), LinalgError> {
+        // Check that the vector is initialized.
+        if !self.initialized {
+            // The vector is not initialized.
+            return Err(LinalgError::NotInit);   // Return an error.
+        }
+
         // Iterate through each element and apply exponent.
         for row in 0..self.rows {
             let element = powf(self.get_element(row)?, exponent);
-- 
2.43.0


From 3994d9aba1a47c65ba32ea0646c27cc5233dbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:03 +0000
Subject: [PATCH 03/41] fix: check the arguments of add_row and add_col before
 growing the matrix

A vector of the wrong length or a position beyond the end was only detected after the matrix had been resized, and a position of 255 overflowed.
---
 linalg/src/matrix.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 78b7bf4..2129a49 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -339,9 +339,16 @@ impl Matrix {
 
     /// This method is used to add a row to a matrix of size m x n from a vector of size n x 1. The result is a matrix of size m+1 x n.
     pub fn add_row(self: &mut Self, vect: &Vector<f32>, row: u8) -> Result<(), LinalgError> {
+        // Check that the number of columns in the matrix is the same as the number of rows in the vector.
+        if self.get_cols()? != vect.get_rows()? {
+            // The number of columns in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         let rows = self.rows + 1;   // Calculate the new rows number.
 
         is_valid_rows_number(rows)?;    // Check that the new number of rows does not exceed M_MAX.
+        is_valid_row(row, rows)?;       // Check that the new row is inside the new matrix.
 
         self.set_rows(rows)?;   // Update it.
 
@@ -359,9 +366,16 @@ impl Matrix {
 
     /// This method is used to add a column to a matrix of size m x n from a vector of size m x 1. The result is a matrix of size m x n+1.
     pub fn add_col(self: &mut Self, vect: &Vector<f32>, col: u8) -> Result<(), LinalgError> {
+        // Check that the number of rows in the matrix is the same as the number of rows in the vector.
+        if self.get_rows()? != vect.get_rows()? {
+            // The number of rows in the matrix is not the same as the number of rows in the vector.
+            return Err(LinalgError::InvalidSize);   // Return an error.
+        }
+
         let cols = self.cols + 1;   // Calculate the new columns number.
 
         is_valid_cols_number(cols)?;    // Check that the new number of columns does not exceed N_MAX.
+        is_valid_col(col, cols)?;       // Check that the new column is inside the new matrix.
 
         self.set_cols(cols)?;   // Update it.
 
-- 
2.43.0


From 5c8bc95f264b981e0cddb7dddd16b9b08d5baff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:05 +0000
Subject: [PATCH 04/41] fix: report an error when deleting a row of an
 uninitialized matrix

The row count was decremented before any check and underflowed.
---
 linalg/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 2129a49..00b5d5a 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -393,9 +393,10 @@ impl Matrix {
 
     /// This method is used to delete a row of a matrix of size m x n and save the deleted row into a vector of size n x 1. The result is a matrix of size m-1 x n.
     pub fn del_row(self: &mut Self, row: u8) -> Result<Vector<f32>, LinalgError> {
+        is_valid_row(row, self.get_rows()?)?;   // Check if the row you want to delete exists.
+
         let rows = self.rows - 1;   // Calculate the new rows number.
 
-        is_valid_row(row, self.rows)?;  // Check if the row you want to delete exists.
         is_valid_rows_number(rows)?;    // Check that the new number of rows is not zero.
 
         /*
-- 
2.43.0


From 353bced474448ecb5b4b8e75890d9e239a50314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:07 +0000
Subject: [PATCH 05/41] fix: leave a matrix unchanged when its inversion fails

Rows of the inverse overwrote the matrix while it was still being solved, so a singular matrix was reported as not inversible but already destroyed.
---
 linalg/src/matrix.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 00b5d5a..bcb914b 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -963,6 +963,8 @@ impl Matrix {
             Err(_) => return Err(LinalgError::NotInversible),
         };
 
+        let mut inverse = self.duplicate()?;    // Keep the matrix unchanged until its inverse is known.
+
         for row in 0..self.rows {
             tmp_vec.set_element(row, 1.0)?;
 
@@ -972,13 +974,14 @@ impl Matrix {
             };
 
             for col in 0..self.cols {
-                self.set_element(row, col, x.get_element(col)?)?;
+                inverse.set_element(row, col, x.get_element(col)?)?;
             }
 
             tmp_vec.set_element(row, 0.0)?;
         }
 
-        self.transpose()?;  // Transpose the result to get the inverse.
+        inverse.transpose()?;       // Transpose the result to get the inverse.
+        self.copy_from(&inverse)?;
 
         Ok(())
     }
-- 
2.43.0


From cfcb253065ab1306a4fd4097f2723a720a6ed0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:41 +0000
Subject: [PATCH 06/41] fix: choose the largest element of the current column
 as LU pivot

The pivot search compared signed values with the first column, so a zero or negative pivot was kept and invertible matrices were reported as singular.
---
 linalg/src/linalg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 7cf2635..ad91e6f 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -22,7 +22,7 @@ pub fn lup(mat: &Matrix) -> Result<(Matrix, Vector<u8>), LinalgError> {
         let mut row_max = row;
 
         for col in (row + 1)..mat.get_cols()? {
-            if lu.get_element(p.get_element(col)?, row)? > lu.get_element(p.get_element(row_max)?, 0)? {
+            if fabsf(lu.get_element(p.get_element(col)?, row)?) > fabsf(lu.get_element(p.get_element(row_max)?, row)?) {
                 row_max = col;
             }
         }
-- 
2.43.0


From ae44cb7d6421d37d466524ca8862d2f467830b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:43 +0000
Subject: [PATCH 07/41] fix: take the sign of the determinant from the parity
 of the permutation

Counting displaced rows gives the wrong sign when the pivoting swaps two separate pairs of rows.
---
 linalg/src/matrix.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index bcb914b..887b1ee 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1359,15 +1359,14 @@ impl Matrix {
             determinant *= lu.get_element(p.get_element(row)?, row)?;
         }
 
-        let mut col: u8 = 0;
+        let mut permutation: [usize; N_MAX] = [0; N_MAX];
 
         for row in 0..self.rows {
-            if p.get_element(row)? != row {
-                col += 1;
-            }
+            permutation[row as usize] = p.get_element(row)? as usize;
         }
 
-        if col != 0 && (col - 1) % 2 == 1 {
+        // An odd permutation of the rows changes the sign of the determinant.
+        if Self::count_inversions(&permutation, self.rows as usize) % 2 == 1 {
             determinant = -determinant;
         }
 
-- 
2.43.0


From 4c11629da73c8de9b102517192709a642aaa8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:44 +0000
Subject: [PATCH 08/41] fix: restart the sum for every element of the upper
 factor in lr

The accumulated products of one element leaked into the next ones, so the factors of matrices larger than 2x2 did not multiply back to the matrix.
---
 linalg/src/matrix.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 887b1ee..8e7dc2c 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1091,10 +1091,12 @@ impl Matrix {
         }
 
         // Perform LR decomposition (factorization).
-        let mut sum: f32 = 0.0;
+        let mut sum: f32;
 
         for col in 0..n {
             for j in col..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * r.get_element(k, j)?;
                 }
-- 
2.43.0


From 02763aaa948fd8fe3e43cce104db2592a7eba170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:46 +0000
Subject: [PATCH 09/41] fix: make lu_crout factorise non-singular matrices

The singularity test was inverted, so every regular matrix was refused, and the running sum was not restarted for each element.
---
 linalg/src/matrix.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 8e7dc2c..42cc125 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1160,11 +1160,13 @@ impl Matrix {
         l.fill_identity()?; // Set the diagonal elements of L to 1 (identity).
 
         // Perform LU factorization.
-        let mut sum: f32 = 0.0;
+        let mut sum: f32;
 
         for row in 0..n {
             // Step 1 - Find U.
             for col in row..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(row, k)? * u.get_element(k, col)?;
                 }
@@ -1174,10 +1176,10 @@ impl Matrix {
                 u.set_element(row, col, element)?;
             }
 
-            sum = 0.0;
-
             // Step 2 - Find L using U.
             for col in (row+1)..n {
+                sum = 0.0;
+
                 for k in 0..col {
                     sum += l.get_element(col, k)? * u.get_element(k, row)?;
                 }
@@ -1185,7 +1187,7 @@ impl Matrix {
                 let u_element = u.get_element(row, row)?;
 
                 // The matrix A may be singular (non-invertible) or poor conditionned (due to numerical errors).
-                if !allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+                if allclose(u_element, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Err(LinalgError::Singular);  // Return an error (avoid a division by 0).
                 }
 
-- 
2.43.0


From e505b121ed5c63049c2abe788f4023874bd63784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:47 +0000
Subject: [PATCH 10/41] fix: only compute the lower triangle in the Cholesky
 decomposition

The elements above the diagonal were filled with values divided by the tolerance, so the factor was not lower triangular and did not reproduce the matrix.
---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 42cc125..c5ce54d 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1621,7 +1621,7 @@ impl Matrix {
                 l.set_element(col, col, EPSILON)?;
             }
 
-            for row in 0..self.rows {
+            for row in col..self.rows {
                 let mut s2: f32 = 0.0;
 
                 for k in 0..col {
-- 
2.43.0


From 314b7d18dfd41a514a09dcaa3d3a2c0250b5ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:49 +0000
Subject: [PATCH 11/41] fix: do not call a matrix with a zero leading minor
 positive definite

---
 linalg/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index c5ce54d..e25e541 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1561,7 +1561,7 @@ impl Matrix {
             }
 
             // Check the determinant of the submatrix.
-            if tmp.det()? < 0.0 {
+            if tmp.det()? <= 0.0 {
                 return Ok(false);
             }
         }
-- 
2.43.0


From ff024dbfaaa22d1738db7cdc2552c19730196d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:50 +0000
Subject: [PATCH 12/41] fix: handle rectangular matrices in the triangular
 tests

The lower triangular test ignored the last row of a wide matrix, and the upper triangular test failed with an invalid column on a tall one.
---
 linalg/src/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index e25e541..09824e7 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1292,7 +1292,7 @@ impl Matrix {
         // Loops on every row except the first (which doesn't need to have null elements).
         for row in 1..self.rows {
             // We loop for the columns corresponding to the lower triangular matrix as a function of the current row.
-            for col in 0..row {
+            for col in 0..min(row, self.cols) {
                 // If the matrix is upper diagonal, the element must always be zero, otherwise the matrix cannot be upper diagonal.
                 if !allclose(self.get_element(row, col)?, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
                     return Ok(false);   // Return the result with no error.
@@ -1311,8 +1311,8 @@ impl Matrix {
             return Err(LinalgError::NotInit);   // Return an error.
         }
 
-        // Loops on every row except the last (which doesn't need to have null elements).
-        for row in 0..self.rows - 1 {
+        // Loops on every row (the last one of a square matrix has no element above the diagonal).
+        for row in 0..self.rows {
             // We loop for the columns corresponding to the upper triangular matrix as a function of the current row.
             for col in row + 1..self.cols {
                 // If the matrix is lower triangular, the element must always be zero, otherwise the matrix cannot be lower triangular.
-- 
2.43.0


From 09c1e80756b13296e69697001a707c6f9cfed920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:52 +0000
Subject: [PATCH 13/41] fix: return an orthogonal factor in the QR
 decomposition of singular matrices

The orthogonalisation stopped at the first dependent column and left the remaining columns as they were, so the factors did not multiply back to the matrix.
---
 linalg/src/matrix.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index 09824e7..f189761 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1263,7 +1263,28 @@ impl Matrix {
                     q.set_element(k, col, element)?;
                 }
             } else {
-                break;
+                // The column depends on the previous ones: complete the basis with the direction which is the furthest from them.
+                let mut best_norm: f32 = 0.0;
+
+                for axis in 0..self.rows {
+                    let mut direction: Vector<f32> = Vector::new();
+                    direction.init(self.rows)?;
+                    direction.set_element(axis, 1.0)?;
+
+                    for row in 0..col {
+                        let previous = q.col_to_vector(row)?;
+                        let projection = previous.mul_by_scalar_new(direction.dot_product(&previous)?)?;
+                        direction.sub_in_place(&projection)?;
+                    }
+
+                    let direction_norm = direction.calculate_norm()?;
+
+                    if direction_norm > best_norm {
+                        best_norm = direction_norm;
+                        direction.normalize()?;
+                        q.set_col(&direction, col)?;
+                    }
+                }
             }
         }
 
-- 
2.43.0


From c063f1e10d3ca1816c463041c476919af4a8b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:20 +0000
Subject: [PATCH 14/41] fix: report when the eigenvalue iteration does not
 converge

When the iterations ran out, zeros were returned as eigenvalues, and slowly moving diagonals were taken for convergence although the matrix was far from triangular.
---
 linalg/src/linalg.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index ad91e6f..8872a1a 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -192,21 +192,27 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
 
         // Calculate the relative variation in eigenvalues.
         delta_eigenvalues.sub(&eigenvalues, &previous_eigenvalues)?;
-        let relative_variation = delta_eigenvalues.calculate_norm()? / eigenvalues.calculate_norm()?;
+        let tolerance = EPSILON * eigenvalues.calculate_norm()?;
+
+        // Calculate the size of what remains below the diagonal.
+        let mut residual: f32 = 0.0;
+
+        for row in 1..m {
+            for col in 0..row {
+                residual += a.get_element(row, col)? * a.get_element(row, col)?;
+            }
+        }
 
         // Check for convergence.
-        if relative_variation < EPSILON {
-            break;
+        if delta_eigenvalues.calculate_norm()? <= tolerance && sqrtf(residual) <= tolerance {
+            return Ok((eigenvalues, eigenvectors)); // Return eigen values and eigen vectors of the matrix with no error.
         } else {
             // Update the previous eigenvalues for the next iteration.
-            for k in 0..m {
-                eigenvalues.set_element(k, 0.0)?;
-                previous_eigenvalues.set_element(k, a.get_element(k, k)?)?;
-            }
+            previous_eigenvalues.copy_from(&eigenvalues)?;
         }
     }
 
-    Ok((eigenvalues, eigenvectors)) // Return eigen values and eigen vectors of the matrix with no error.
+    Err(LinalgError::Unsolvable)    // The algorithm has not converged, return an error.
 }
 
 /*
-- 
2.43.0


From 4e9158c2a1db137d3e5ea76aae2f45e0f15560fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:21 +0000
Subject: [PATCH 15/41] fix: compute the Wilkinson shift of the eigenvalue
 iteration

The shift was not an eigenvalue of the trailing block, was undefined for a multiple of the identity and overflowed for a 1x1 matrix.
---
 linalg/src/linalg.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/linalg/src/linalg.rs b/linalg/src/linalg.rs
index 8872a1a..d5f85e3 100644
--- a/linalg/src/linalg.rs
+++ b/linalg/src/linalg.rs
@@ -137,21 +137,25 @@ pub fn eigen(mat: &Matrix, niter: u16, shifted: bool) -> Result<(Vector<f32>, Ma
         let mut tmp = Matrix::new();    // Create a new matrix.
         tmp.init(m, m)?;                // Initialize the new matrix with the same size as the input matrix.
 
-        if shifted {
+        if shifted && m > 1 {
             // Apply Wilkinson shift method to determine the shift.
             let a_ = a.get_element(m - 2, m - 2)?;
             let b = a.get_element(m - 2, m - 1)?;
             let c = a.get_element(m - 1, m - 1)?;
 
-            let delta = ((a_ - c) / 2.0) * ((a_ - c) / 2.0) + b * b;
+            let delta = (a_ - c) / 2.0;
+            let denominator = fabsf(delta) + sqrtf(delta * delta + b * b);
 
             #[allow(unused_assignments)]
-            let mut s: f32 = 0.0;
-
-            if a_ < c {
-                s = c - delta / (fabsf(b) + sqrtf(delta));
-            } else {
-                s = c + delta / (fabsf(b) + sqrtf(delta));
+            let mut s: f32 = c;
+
+            // The shift is the eigenvalue of the last 2 x 2 block that is the closest to c.
+            if denominator > 0.0 {
+                if a_ < c {
+                    s = c + b * b / denominator;
+                } else {
+                    s = c - b * b / denominator;
+                }
             }
 
             //Q, R = qr_decomposition(A - s*I)
-- 
2.43.0


From 5a4a3c1dde4ff852b2d2ffb22bc0616cc115b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:23 +0000
Subject: [PATCH 16/41] fix: compute the logarithm of the identity rotation

The identity led to 0/0, and rounding of the trace could push the argument of the arc cosine out of its domain.
---
 linalg/src/matrix.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index f189761..d09bed7 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1,7 +1,7 @@
 extern crate utils;
 extern crate libm;
 
-use utils::utils::{is_valid_value, allclose, min, factorial};
+use utils::utils::{is_valid_value, allclose, clip, min, factorial};
 use libm::{powf, sqrtf, fabsf, acosf, sinf};
 
 use crate::common::{M_MAX, N_MAX, EPSILON, LinalgError, is_valid_rows_number, is_valid_cols_number, is_valid_row, is_valid_col};
@@ -1801,6 +1801,18 @@ impl Matrix {
         Ok(vect)    // Return the diagonal as a vector with no error.
     }
 
+    /// This method is used to calculate the factor theta / (2 sin(theta)) of the logarithmic map of a rotation matrix.
+    fn log_factor(self: &Self) -> Result<f32, LinalgError> {
+        let theta = acosf(clip((self.trace()? - 1.0) / 2.0, -1.0, 1.0));
+
+        // The factor tends to 1/2 when the rotation vanishes.
+        if theta > EPSILON {
+            Ok(theta / (2.0 * sinf(theta))) // Return the factor with no error.
+        } else {
+            Ok(0.5) // Return the factor with no error.
+        }
+    }
+
     /// This method is used to calculate the logarithmic map of a rotation matrix or a Direct Cosine Matrix (DCM).
     /*
     It corresponds to the logarithm given by the Rodrigues rotation formula:
@@ -1820,13 +1832,13 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let factor = self.log_factor()?;
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         let mut result_mat = self.sub_new(&transposed_mat)?;
-        result_mat.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        result_mat.mul_by_scalar_in_place(factor)?;
 
         Ok(result_mat)  // Return the result matrix with no error.
     }
@@ -1845,13 +1857,13 @@ impl Matrix {
             //return Err(LinalgError::); // Return an error.
         }
 
-        let theta = acosf((self.trace()? - 1.0) / 2.0);
+        let factor = self.log_factor()?;
 
         let mut transposed_mat = self.duplicate()?; // Duplicate the actual matrix.
         transposed_mat.transpose()?;                // Tranpose it.
 
         self.sub_in_place(&transposed_mat)?;
-        self.mul_by_scalar_in_place(theta / (2.0 * sinf(theta)))?;
+        self.mul_by_scalar_in_place(factor)?;
 
         Ok(())  // Return no error.
     }
-- 
2.43.0


From 4b41c07d9b1092c87037496e7dffd09d0f16916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:25 +0000
Subject: [PATCH 17/41] fix: interpolate spherically between coinciding vectors

Identical vectors, or a dot product rounded above one, made slerp fail with a NaN.
---
 linalg/src/vector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linalg/src/vector.rs b/linalg/src/vector.rs
index 3fb0fa2..f212551 100644
--- a/linalg/src/vector.rs
+++ b/linalg/src/vector.rs
@@ -1,6 +1,6 @@
 extern crate utils;
 
-use utils::utils::{is_valid_value, in_range, allclose};
+use utils::utils::{is_valid_value, in_range, allclose, clip};
 use libm::{acosf, sinf, sqrtf, powf};
 
 use crate::common::{M_MAX, EPSILON, LinalgError};
@@ -617,7 +617,12 @@ impl Vector<f32> {
 
         // Perform scalar product.
         let scalar = vect1.dot_product(&vect2)?;
-        let theta = acosf(scalar);  // Angle between the axis of the first vector and the second one.
+        let theta = acosf(clip(scalar, -1.0_f32, 1.0_f32)); // Angle between the axis of the first vector and the second one.
+
+        // The arc between coinciding vectors is a straight line.
+        if theta <= EPSILON {
+            return self.lerp(vect1, vect2, alpha);
+        }
 
         // Create a copy of the first vector.
         let mut v1 = Self::new();
-- 
2.43.0


From 849ff880fcd31811f7d7c3b81df5fe1b50a21560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:43 +0000
Subject: [PATCH 18/41] fix: test the original quaternion for purity in the
 in-place exponential

The test was made on the partly computed result, so the factor e^w was dropped when the vector part was a quarter turn long.
---
 quaternion/src/quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 7d99291..10038de 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -458,6 +458,7 @@ impl Quaternion for Vector<f32> {
             return Ok(());  // Return no error.
         }
 
+        let pure = self.is_pure()?;             // Check if the quaternion is pure before overwriting it.
         let qw = self.get_element(0)?;          // Retrieve real part of the quaternion.
         let mut qv = self.get_vector_part()?;   // Retrieve vector part of the quaternion.
         let qv_norm = qv.calculate_norm()?;     // Calculate its norm.
@@ -468,7 +469,7 @@ impl Quaternion for Vector<f32> {
         self.fillq(cosf(qv_norm), qv.get_element(0)?, qv.get_element(1)?, qv.get_element(2)?)?;
 
         // Check if the quaternion is pure.
-        if self.is_pure()? {
+        if pure {
             return Ok(());  // Return no error.
         }
 
-- 
2.43.0


From bfb968f970e43f6051135bff4476192be6e50338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:44 +0000
Subject: [PATCH 19/41] fix: compute the exponential of real quaternions

The exponential of every real quaternion was one, whatever its value.
---
 quaternion/src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 10038de..e1e16c5 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -453,7 +453,7 @@ impl Quaternion for Vector<f32> {
     fn exp(self: &mut Self) -> Result<(), LinalgError> {
         // Check if the quaternion is real.
         if self.is_real()? {
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
+            self.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(());  // Return no error.
         }
@@ -484,7 +484,7 @@ impl Quaternion for Vector<f32> {
 
         // Check if the quaternion is real.
         if self.is_real()? {
-            q_exp.fillq(1.0, 0.0, 0.0, 0.0)?;
+            q_exp.fillq(powf(E, self.get_element(0)?), 0.0, 0.0, 0.0)?;
 
             return Ok(q_exp);   // Return the result with no error.
         }
-- 
2.43.0


From eeb54c4bcbea481993a9c35c51f13d71f87baa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:46 +0000
Subject: [PATCH 20/41] fix: do not truncate large components in Chiaverini's
 extraction

The terms under the square roots reach four, but were clipped to two.
---
 quaternion/src/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index e1e16c5..538a389 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -604,9 +604,9 @@ impl Quaternion for Vector<f32> {
         let dcm_12 = dcm.get_element(0, 1)?;
 
         let qw = 0.5 * sqrtf(trace + 1.0);
-        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 1.0) + 1.0);
-        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 1.0) + 1.0);
-        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 1.0) + 1.0);
+        let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
+        let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
+        let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
 
         // Fill the quaternion.
         self.set_element(0, qw)?;
-- 
2.43.0


From 71803575ea34e37bb957481eb34d77f243e99646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:47 +0000
Subject: [PATCH 21/41] fix: give the vector part its signs in Sarabandi's
 extraction

All components were returned as non-negative, so most rotations came back wrong.
---
 quaternion/src/quaternion.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 538a389..1c0fcea 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -709,6 +709,11 @@ impl Quaternion for Vector<f32> {
             qz = 0.5 * sqrtf(nominator / denominator);
         }
 
+        // Determine the signs of the vector part.
+        qx *= (r32 - r23).sign();
+        qy *= (r13 - r31).sign();
+        qz *= (r21 - r12).sign();
+
         // Fill the quaternion.
         self.set_element(0, qw)?;
         self.set_element(1, qx)?;
-- 
2.43.0


From 2f232a0fca7ddd29e12dcc8cfee5021f68353044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:49 +0000
Subject: [PATCH 22/41] fix: recover the rotation axis of half turns from a
 rotation matrix

The signs of the axis can not be read from the antisymmetric part of a half turn: Hughes's method always returned non-negative components and the two others a null or unsigned vector part.
---
 quaternion/src/quaternion.rs | 39 ++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 1c0fcea..545a9bb 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -77,6 +77,25 @@ pub trait Quaternion {
     //fn convert_from_euler(self: &mut Self, phi: f32, theta: f32, psi: f32) -> Result<(), LinalgError>;
 }
 
+/// This function is used to extract the rotation axis of a half turn, whose DCM is R = 2 n Tr(n) - I.
+fn half_turn_axis(dcm: &Matrix) -> Result<Vector<f32>, LinalgError> {
+    let mut col: u8 = 0;
+
+    // Find the largest component of the axis.
+    for k in 1..dcm.get_cols()? {
+        if dcm.get_element(k, k)? > dcm.get_element(col, col)? {
+            col = k;
+        }
+    }
+
+    // The columns of R + I are proportional to the axis.
+    let mut axis = dcm.col_to_vector(col)?;
+    axis.set_element(col, axis.get_element(col)? + 1.0)?;
+    axis.normalize()?;
+
+    Ok(axis)    // Return the axis with no error.
+}
+
 impl Quaternion for Vector<f32> {
     // This method is used to check if a vector can be used as a quaternion.
     fn is_quaternion(self: &Self) -> Result<bool, LinalgError> {
@@ -545,10 +564,7 @@ impl Quaternion for Vector<f32> {
         // Calculate the vector part of the quaternion.
         if allclose(n, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
             // The trace is -1, which implies that the real part of quaternion is null and therefore the quaternion is pure.
-            let mut e = dcm.diag(None)?;
-            e.add_scalar_in_place(1.0)?;
-            e.mul_by_scalar_in_place(0.5)?;
-            e.power_elements(0.5)?;
+            let e = half_turn_axis(dcm)?;
 
             qx = e.get_element(0)?;
             qy = e.get_element(1)?;
@@ -604,6 +620,14 @@ impl Quaternion for Vector<f32> {
         let dcm_12 = dcm.get_element(0, 1)?;
 
         let qw = 0.5 * sqrtf(trace + 1.0);
+
+        // The signs of the vector part can't be determined from a half turn.
+        if allclose(qw, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+            let e = half_turn_axis(dcm)?;
+
+            return self.fillq(qw, e.get_element(0)?, e.get_element(1)?, e.get_element(2)?);
+        }
+
         let qx = 0.5 * (dcm_32 - dcm_23).sign() * sqrtf(clip(dcm_11 - dcm_22 - dcm_33, -1.0, 3.0) + 1.0);
         let qy = 0.5 * (dcm_13 - dcm_31).sign() * sqrtf(clip(dcm_22 - dcm_33 - dcm_11, -1.0, 3.0) + 1.0);
         let qz = 0.5 * (dcm_21 - dcm_12).sign() * sqrtf(clip(dcm_33 - dcm_11 - dcm_22, -1.0, 3.0) + 1.0);
@@ -670,6 +694,13 @@ impl Quaternion for Vector<f32> {
             qw = 0.5 * sqrtf(nominator / denominator);
         }
 
+        // The signs of the vector part can't be determined from a half turn.
+        if allclose(qw, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+            let e = half_turn_axis(dcm)?;
+
+            return self.fillq(qw, e.get_element(0)?, e.get_element(1)?, e.get_element(2)?);
+        }
+
         // Calculate qx component (eq. 24 on p. 5).
         let dx = r11 - r22 - r33;
         let mut qx: f32 = 0.0;
-- 
2.43.0


From 86eafa592e7b69369b740ea5d5a387f9b1180959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:50 +0000
Subject: [PATCH 23/41] fix: return a finite pitch angle at vertical pitch

Rounding could push the argument of the arc sine slightly above one, which gave a NaN.
---
 quaternion/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 545a9bb..1dda1e0 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -774,7 +774,7 @@ impl Quaternion for Vector<f32> {
         let qz = self.get_qz()?;
 
         let phi = atan2f(2.0*(qw*qx + qy*qz), 1.0 - 2.0*(qx*qx + qy*qy));   // Calculate roll angle.
-        let theta = asinf(2.0*(qw*qy - qz*qx));                             // Calculate pitch angle.
+        let theta = asinf(clip(2.0*(qw*qy - qz*qx), -1.0, 1.0));            // Calculate pitch angle.
         let psi = atan2f(2.0*(qw*qz + qx*qy), 1.0 - 2.0*(qy*qy + qz*qz));   // Calculate yaw angle.
 
         // Store each angle in the vector.
-- 
2.43.0


From e28f1e04ad501a87e1c6d0d01d97d564214a0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:13 +0000
Subject: [PATCH 24/41] fix: place the soft-iron corrections like the other
 sensors do

The factors of the magnetometer were stored in the cells of other axis pairs: the xz factor for instance fed x into y.
---
 open_ahrs/src/magnetometer.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index def25da..c0d7b27 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -118,12 +118,12 @@ impl Magnetometer {
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
 
-        self.scale_and_soft_iron_correction.set_element(0, 1, config.xy_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 0, config.xz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(0, 2, config.yx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 0, config.yz_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(1, 2, config.zx_soft_iron_correction)?;
-        self.scale_and_soft_iron_correction.set_element(2, 1, config.zy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 0, config.xy_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 0, config.xz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 1, config.yx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(2, 1, config.yz_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(0, 2, config.zx_soft_iron_correction)?;
+        self.scale_and_soft_iron_correction.set_element(1, 2, config.zy_soft_iron_correction)?;
 
         self.hard_iron_biases.set_element(0, config.x_axis_hard_iron_bias)?;
         self.hard_iron_biases.set_element(1, config.y_axis_hard_iron_bias)?;
@@ -169,12 +169,12 @@ impl Magnetometer {
                 config.y_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(1, 1)?;
                 config.z_axis_scale_correction = self.scale_and_soft_iron_correction.get_element(2, 2)?;
 
-                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
-                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
-                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
-                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
-                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
-                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.xy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 0)?;
+                config.xz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 0)?;
+                config.yx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 1)?;
+                config.yz_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(2, 1)?;
+                config.zx_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(0, 2)?;
+                config.zy_soft_iron_correction = self.scale_and_soft_iron_correction.get_element(1, 2)?;
 
                 config.x_axis_hard_iron_bias = self.hard_iron_biases.get_element(0)?;
                 config.y_axis_hard_iron_bias = self.hard_iron_biases.get_element(1)?;
-- 
2.43.0


From 72cc144ca8c5f63e8295ab058fbb83b726785630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:14 +0000
Subject: [PATCH 25/41] fix: sum matrix powers in the series integration of the
 angular rate

The powers were taken element by element, and the factorial overflowed above order 20.
---
 open_ahrs/src/ar.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 4af493a..88d5a4a 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -8,7 +8,6 @@ use linalg::matrix::Matrix;
 use linalg::vector::Vector;
 use linalg::common::EPSILON;
 use libm::{cosf, sinf};
-use utils::utils::factorial;
 use crate::gyrometer::{GyrometerConfig, Gyrometer};
 use crate::common::{OpenAHRSError, NumericalIntegrationMethod as NIM, calculate_omega_matrix};
 
@@ -120,13 +119,13 @@ impl AR {
                 } else if self.method == NIM::TaylorSeries {
                     omega.mul_by_scalar_in_place(0.5 * self.ts)?;
 
+                    // S = 0.5 * dt * Omega
+                    let mut s = temp.duplicate()?;
+
                     for n in 1..=self.order {
-                        // S = 0.5 * dt * Omega
-                        let mut s = omega.duplicate()?;
                         // A' = S^n / !n
-                        s.power_elements(n as f32)?;
-                        let factor = factorial(n);
-                        s.mul_by_scalar_in_place(1.0 / factor as f32)?;
+                        s = s.mul_new(&omega)?;
+                        s.mul_by_scalar_in_place(1.0 / n as f32)?;
                         // A = A + A'
                         temp.add_in_place(&s)?;
                     }
-- 
2.43.0


From 3d6d7fdf5a9730fb74137e51372a77dc9c3d0420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:16 +0000
Subject: [PATCH 26/41] fix: integrate body rates in the Euler method

The rate was applied in the fixed frame, unlike in the other methods.
---
 open_ahrs/src/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index 88d5a4a..efdc16e 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -147,7 +147,7 @@ impl AR {
 
                 let mut delta: Vector<f32> = Vector::new();
                 delta.init(4)?;
-                delta.mul(&w, &self.attitude)?;
+                delta.mul(&self.attitude, &w)?;
 
                 qw += delta.get_qw()?;
                 qx += delta.get_qx()?;
-- 
2.43.0


From f61f601d84386804ef0f50e3272c53ed65f6e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:58 +0000
Subject: [PATCH 27/41] fix: let the angular-rate filter be initialised after a
 refused attempt

The gyrometer and the attitude of the refused attempt made every later attempt fail.
---
 open_ahrs/src/ar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/open_ahrs/src/ar.rs b/open_ahrs/src/ar.rs
index efdc16e..50591ca 100644
--- a/open_ahrs/src/ar.rs
+++ b/open_ahrs/src/ar.rs
@@ -58,6 +58,10 @@ impl AR {
                 return Err(OpenAHRSError::ARFilterAlreadyInit); // Return an error.
             }
 
+            // Start again from scratch if a previous initialization has been refused.
+            self.gyr = Gyrometer::new()?;
+            self.attitude = Vector::new();
+
             self.gyr.init(&gyrometer_config)?;      // Initialize the gyrometer.
             self.attitude.init(4)?;                 // Initialize the vector that will be used as quaternion.
             self.attitude.fillq(qw, qx, qy, qz)?;   // Set initial attitude.
-- 
2.43.0


From 52e1e57777f88ed410942fd7c9ab34852d84054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:00 +0000
Subject: [PATCH 28/41] fix: let the AQUA filter be initialised after a refused
 attempt

The sensors and the attitude of the refused attempt made every later attempt fail.
---
 open_ahrs/src/aqua.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2974d8c..dc9a151 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -107,6 +107,12 @@ impl Aqua {
             return Err(OpenAHRSError::AquaFilterAlreadyInit); // Return an error.
         }
 
+        // Start again from scratch if a previous initialization has been refused.
+        self.gyr = Gyrometer::new()?;
+        self.acc = Accelerometer::new()?;
+        self.mag = Magnetometer::new()?;
+        self.attitude = Vector::new();
+
         self.attitude.init(4)?;         // Initialize the attitude quaternion.
         self.attitude.fill_identity()?; // Fill it as identity quaternion.
 
-- 
2.43.0


From 2d942b15629e2838ab02a96dc731183f75fd9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:01 +0000
Subject: [PATCH 29/41] fix: let Davenport's filter be initialised after a
 refused attempt

The attitude of the refused attempt made every later attempt fail.
---
 open_ahrs/src/davenport.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/open_ahrs/src/davenport.rs b/open_ahrs/src/davenport.rs
index a180bd1..68d39a1 100644
--- a/open_ahrs/src/davenport.rs
+++ b/open_ahrs/src/davenport.rs
@@ -70,6 +70,7 @@ impl Davenport {
             return Err(OpenAHRSError::DavenportFilterAlreadyInit);  // Return an error.
         }
 
+        self.attitude = Vector::new();  // Start again from scratch if a previous initialization has been refused.
         self.attitude.init(4)?;         // Initialize the attitude quaternion.
         self.attitude.fill_identity()?; // Fill it as identity quaternion.
 
-- 
2.43.0


From a49093eea6912c0ea188f7669e5ab8ba9b49686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:02 +0000
Subject: [PATCH 30/41] fix: decrease the AQUA adaptive gain linearly between
 its thresholds

The gain was negative there, so that the sample was refused.
---
 open_ahrs/src/aqua.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index dc9a151..92c2fcc 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -250,7 +250,7 @@ impl Aqua {
 
         // Check if magnitude error falls within the specified thresholds.
         if self.t1 < norm_error && norm_error < self.t2 {
-			new_gain = gain*(self.t1 - norm_error)/self.t1;
+			new_gain = gain*(self.t2 - norm_error)/(self.t2 - self.t1);
 		}
 
         // If the magnitude error is below or equal to the first threshold, the gain doesn't change.
-- 
2.43.0


From 49903881584d39e06b6d1b62ed00fe3d62d00182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:04 +0000
Subject: [PATCH 31/41] fix: do not carry the AQUA adaptive gain over to the
 next sample

One disturbed sample reduced the gain for good.
---
 open_ahrs/src/aqua.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 92c2fcc..bec2572 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -405,11 +405,13 @@ impl Aqua {
 
             acc_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
+            let mut alpha = self.alpha;
+
             if self.adaptive {
-                self.alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
+                alpha = self.calculate_adaptative_gain(self.alpha, &a_local, self.g)?;
             }
 
-            let acc_quat_interpolated = Self::interpolate(&acc_quat, self.alpha, self.t_acc)?;
+            let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
             self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
-- 
2.43.0


From eddfcd38cfa890c09cbb6740885633ee11440a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:05 +0000
Subject: [PATCH 32/41] fix: correct the AQUA prediction with the direction of
 the acceleration

The correction formulas need a unit vector but got the raw acceleration.
---
 open_ahrs/src/aqua.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index bec2572..2f91ddb 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -378,7 +378,9 @@ impl Aqua {
             // Accelerometer-based correction step.
             let mut dcm_local_to_global = gyr_quat.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
-            temp.mul(&dcm_local_to_global, &a_local.convert_to_matrix()?)?;
+            let mut a_local_normalized = a_local.duplicate()?;
+            a_local_normalized.normalize()?;
+            temp.mul(&dcm_local_to_global, &a_local_normalized.convert_to_matrix()?)?;
             let a_global = temp.col_to_vector(0)?;
 
             // Retrieve vector components.
-- 
2.43.0


From 5042bfd53d73f24bd62075e62e32bfa247bafd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:06 +0000
Subject: [PATCH 33/41] fix: leave the AQUA attitude unchanged when a sample is
 refused

A sample without usable field changed the attitude before it was refused.
---
 open_ahrs/src/aqua.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 2f91ddb..6cc0199 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -416,10 +416,12 @@ impl Aqua {
             let acc_quat_interpolated = Self::interpolate(&acc_quat, alpha, self.t_acc)?;
 
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 17, eq. 53.
-            self.attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
+            let mut attitude: Vector<f32> = Vector::new();  // The attitude is only updated once both corrections are known.
+            attitude.init(4)?;
+            attitude.mul(&gyr_quat, &acc_quat_interpolated)?;
 
             // Magnetometer-based correction step.
-            let mut dcm_local_to_global = self.attitude.convert_to_dcm()?;
+            let mut dcm_local_to_global = attitude.convert_to_dcm()?;
             dcm_local_to_global.transpose()?;
             temp.mul(&dcm_local_to_global, &m_local.convert_to_matrix()?)?;
             // Global frame magnetic vector (Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 18, eq. 54).
@@ -462,7 +464,7 @@ impl Aqua {
 
             let mag_quat_interpolated = Self::interpolate(&mag_quat, self.beta, self.t_mag)?;
 
-            self.attitude.mul(&self.attitude.duplicate()?, &mag_quat_interpolated)?;
+            self.attitude.mul(&attitude, &mag_quat_interpolated)?;
         } else if self.mode == Mode::AM {
             // Determine the partial orientation as a quaternion from the accelerometer measurements.
             if az < 0.0 {
-- 
2.43.0


From 2c70a68cf388e5fa9ac7dfa706d9c016991b2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:08 +0000
Subject: [PATCH 34/41] fix: correct the AQUA heading when the field points
 away from north

The single formula divided by zero, or by a rounding error, around a heading error of a half turn.
---
 open_ahrs/src/aqua.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/open_ahrs/src/aqua.rs b/open_ahrs/src/aqua.rs
index 6cc0199..2b06ce7 100644
--- a/open_ahrs/src/aqua.rs
+++ b/open_ahrs/src/aqua.rs
@@ -433,24 +433,19 @@ impl Aqua {
             // Source: Roberto G. Valenti, Ivan Dryanovski and Jizhong Xiao. Keeping a Good Attitude: A Quaternion-Based Orientation Filter for IMUs and MARGs. New York: Sensors, 2015, p. 10, eq. 28.
             let gamma = lx*lx + ly*ly;
 
-            /*
             if lx >= 0.0 {
                 qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
                 qx = 0.0;
                 qy = 0.0;
                 qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
             } else {
-                qw = ly / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
+                // The opposite quaternion defines the same rotation, use the one closest to the identity quaternion.
+                let sign = if ly < 0.0 { -1.0 } else { 1.0 };
+                qw = sign * ly / (sqrtf(2.0) * sqrtf(gamma - lx * sqrtf(gamma)));
                 qx = 0.0;
                 qy = 0.0;
-                qz = sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
+                qz = sign * sqrtf(gamma - lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
             }
-            */
-
-            qw = sqrtf(gamma + lx * sqrtf(gamma)) / sqrtf(2.0 * gamma);
-            qx = 0.0;
-            qy = 0.0;
-            qz = ly / (sqrtf(2.0) * sqrtf(gamma + lx * sqrtf(gamma)));
 
             mag_quat.fillq(qw, qx, qy, qz)?;    // Fill it.
 
-- 
2.43.0


From 56796a3734a5ea91b351f9f7b0b558e795eb225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:09 +0000
Subject: [PATCH 35/41] fix: create complex numbers with the given parts

Both parts were set to zero.
---
 dsp/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/src/complex.rs b/dsp/src/complex.rs
index 866bac9..0fad197 100644
--- a/dsp/src/complex.rs
+++ b/dsp/src/complex.rs
@@ -34,8 +34,8 @@ impl Complex {
         is_valid_value(im)?;    // Check that the imaginary part value is valid.
 
         let z = Self {
-            re: 0.0,    // Default real part value of the complex number.
-            im: 0.0,    // Default imaginary part valueof the complex number.
+            re, // Real part value of the complex number.
+            im, // Imaginary part value of the complex number.
         };
 
         Ok(z)   // Return no error.
-- 
2.43.0


From 0fb77042395ad56e8b38bbbaaf66f1734aa7e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:10 +0000
Subject: [PATCH 36/41] fix: leave a sensor configuration unchanged when the
 new one is refused

The values before the invalid one were already applied.
---
 open_ahrs/src/accelerometer.rs | 10 +++++++++-
 open_ahrs/src/common.rs        | 11 +++++++++++
 open_ahrs/src/gyrometer.rs     | 10 +++++++++-
 open_ahrs/src/magnetometer.rs  | 10 +++++++++-
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index 2d6c917..c5b8f89 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -2,7 +2,7 @@ extern crate linalg;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
-use crate::common::OpenAHRSError;
+use crate::common::{OpenAHRSError, check_values};
 
 // Accelerometer configuration.
 #[derive(Copy, Clone)]
@@ -107,6 +107,14 @@ impl Accelerometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &AccelerometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all values first so that a refused configuration leaves the current one as it is.
+        check_values(&[
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_axes_misalignment_correction, config.xz_axes_misalignment_correction, config.yx_axes_misalignment_correction,
+            config.yz_axes_misalignment_correction, config.zx_axes_misalignment_correction, config.zy_axes_misalignment_correction,
+            config.x_axis_static_bias, config.y_axis_static_bias, config.z_axis_static_bias,
+        ])?;
+
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/common.rs b/open_ahrs/src/common.rs
index ae76e4f..90fdfab 100644
--- a/open_ahrs/src/common.rs
+++ b/open_ahrs/src/common.rs
@@ -1,5 +1,7 @@
 extern crate linalg;
+extern crate utils;
 
+use utils::utils::is_valid_value;
 use linalg::matrix::Matrix;
 use linalg::common::{LinalgError};
 
@@ -62,6 +64,15 @@ impl From<LinalgError> for OpenAHRSError {
     }
 }
 
+/// This function is used to check that all values of a configuration are valid before applying it.
+pub(crate) fn check_values(values: &[f32]) -> Result<(), OpenAHRSError> {
+    for value in values {
+        is_valid_value(*value).map_err(LinalgError::UtilsError)?;
+    }
+
+    Ok(())  // Return no error.
+}
+
 #[cfg(feature = "std")]
 use linalg::common::is_valid_cols_number;
 #[cfg(feature = "std")]
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index dbb6f2a..806fe76 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -2,7 +2,7 @@ extern crate linalg;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
-use crate::common::OpenAHRSError;
+use crate::common::{OpenAHRSError, check_values};
 
 // Gyrometer configuration.
 #[derive(Copy, Clone)]
@@ -107,6 +107,14 @@ impl Gyrometer {
 
     // This function sets the configuration privately
     fn private_set_config(self: &mut Self, config: &GyrometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all values first so that a refused configuration leaves the current one as it is.
+        check_values(&[
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_axes_misalignment_correction, config.xz_axes_misalignment_correction, config.yx_axes_misalignment_correction,
+            config.yz_axes_misalignment_correction, config.zx_axes_misalignment_correction, config.zy_axes_misalignment_correction,
+            config.x_axis_static_bias, config.y_axis_static_bias, config.z_axis_static_bias,
+        ])?;
+
         self.scale_and_axes_misalignment_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_axes_misalignment_correction.set_element(2, 2, config.z_axis_scale_correction)?;
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index c0d7b27..919fdde 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -2,7 +2,7 @@ extern crate linalg;
 
 use linalg::matrix::Matrix;
 use linalg::vector::Vector;
-use crate::common::OpenAHRSError;
+use crate::common::{OpenAHRSError, check_values};
 
 // Magnetometer configuration.
 #[derive(Copy, Clone)]
@@ -114,6 +114,14 @@ impl Magnetometer {
 
     // This function is used to initialize a magnetometer.
     fn private_set_config(self: &mut Self, config: &MagnetometerConfig) -> Result<(), OpenAHRSError> {
+        // Check all values first so that a refused configuration leaves the current one as it is.
+        check_values(&[
+            config.x_axis_scale_correction, config.y_axis_scale_correction, config.z_axis_scale_correction,
+            config.xy_soft_iron_correction, config.xz_soft_iron_correction, config.yx_soft_iron_correction,
+            config.yz_soft_iron_correction, config.zx_soft_iron_correction, config.zy_soft_iron_correction,
+            config.x_axis_hard_iron_bias, config.y_axis_hard_iron_bias, config.z_axis_hard_iron_bias,
+        ])?;
+
         self.scale_and_soft_iron_correction.set_element(0, 0, config.x_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(1, 1, config.y_axis_scale_correction)?;
         self.scale_and_soft_iron_correction.set_element(2, 2, config.z_axis_scale_correction)?;
-- 
2.43.0


From f7deec03b3b4bab036350a6a17889f8a44ec27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:12 +0000
Subject: [PATCH 37/41] fix: keep the last measurement when correcting a sample
 overflows

The reported measurement was partly overwritten before the error.
---
 open_ahrs/src/accelerometer.rs | 4 ++--
 open_ahrs/src/gyrometer.rs     | 4 ++--
 open_ahrs/src/magnetometer.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/open_ahrs/src/accelerometer.rs b/open_ahrs/src/accelerometer.rs
index c5b8f89..8958f59 100644
--- a/open_ahrs/src/accelerometer.rs
+++ b/open_ahrs/src/accelerometer.rs
@@ -190,8 +190,8 @@ impl Accelerometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/gyrometer.rs b/open_ahrs/src/gyrometer.rs
index 806fe76..84fff04 100644
--- a/open_ahrs/src/gyrometer.rs
+++ b/open_ahrs/src/gyrometer.rs
@@ -190,8 +190,8 @@ impl Gyrometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.static_biases)?;                                      // Remove static biases from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.static_biases)?;                                      // Remove static biases from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                                  // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_axes_misalignment_correction, &corrected_measurements.duplicate()?)?;    // Correct scale error and axes misalignment and non-orthonormality.
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                               // Perform matrix-to-vector conversion to store the corrected measurements.
 
diff --git a/open_ahrs/src/magnetometer.rs b/open_ahrs/src/magnetometer.rs
index 919fdde..13de040 100644
--- a/open_ahrs/src/magnetometer.rs
+++ b/open_ahrs/src/magnetometer.rs
@@ -197,8 +197,8 @@ impl Magnetometer {
 
     // This function is used to correct the raw measurements.
     fn correct(self: &mut Self) -> Result<(), OpenAHRSError> {
-        self.corrected_measurements.sub(&self.raw_measurements, &self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
-        let mut corrected_measurements = self.corrected_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
+        let unbiased_measurements = self.raw_measurements.sub_new(&self.hard_iron_biases)?;                           // Remove static biases (hard-iron effects) from raw measurements.
+        let mut corrected_measurements = unbiased_measurements.convert_to_matrix()?;                          // Convert this vector into a matrix to perform matrix operations.
         corrected_measurements.mul(&self.scale_and_soft_iron_correction, &corrected_measurements.duplicate()?)?;    // Correct measurement distorsions (soft-iron effects, scale factors, axes misalignments and non-orthogonality).
         corrected_measurements.get_col(&mut self.corrected_measurements, 0)?;                                       // Perform matrix-to-vector conversion to store the corrected measurements.
 
-- 
2.43.0


From 269540691b33239aefac3f57f0ca3ef22fd86876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:23 +0000
Subject: [PATCH 38/41] fix: recognise half turns whose trace is off by
 rounding errors

The real part obtained from the trace of a rounded half turn exceeds the tolerance, and Hughes's and Chiaverini's methods then returned a null or an identity quaternion.
---
 quaternion/src/quaternion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index 1dda1e0..d49ebe3 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -562,7 +562,8 @@ impl Quaternion for Vector<f32> {
         let qz: f32;
 
         // Calculate the vector part of the quaternion.
-        if allclose(n, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+        // Below this tolerance, the real part obtained from the trace is dominated by rounding errors.
+        if allclose(n, 0.0, 10.0 * EPSILON).map_err(LinalgError::UtilsError)? {
             // The trace is -1, which implies that the real part of quaternion is null and therefore the quaternion is pure.
             let e = half_turn_axis(dcm)?;
 
@@ -622,7 +623,8 @@ impl Quaternion for Vector<f32> {
         let qw = 0.5 * sqrtf(trace + 1.0);
 
         // The signs of the vector part can't be determined from a half turn.
-        if allclose(qw, 0.0, EPSILON).map_err(LinalgError::UtilsError)? {
+        // Below this tolerance, the real part obtained from the trace is dominated by rounding errors.
+        if allclose(qw, 0.0, 10.0 * EPSILON).map_err(LinalgError::UtilsError)? {
             let e = half_turn_axis(dcm)?;
 
             return self.fillq(qw, e.get_element(0)?, e.get_element(1)?, e.get_element(2)?);
-- 
2.43.0


From cba165ccbf53fcb292983d622e3a9c64632db571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:46 +0000
Subject: [PATCH 39/41] fix: Draw random attitudes from the whole unit interval

The integer division rounded every draw down to zero, so all generated
attitudes turned about the same axis.
---
 open_ahrs/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/open_ahrs/src/common.rs b/open_ahrs/src/common.rs
index 90fdfab..84f44a3 100644
--- a/open_ahrs/src/common.rs
+++ b/open_ahrs/src/common.rs
@@ -106,9 +106,9 @@ pub fn generate_random_attitudes(number: u8) -> Result<Matrix, LinalgError> {
 
     for n in 0..number {
         // Warning  here.
-        let u1: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u2: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
-        let u3: f32 = (small_rng.next_u64() / u64::MAX) as f32; // Generates a random number between 0 and 1.
+        let u1: f32 = (small_rng.next_u64() as f64 / u64::MAX as f64) as f32; // Generates a random number between 0 and 1.
+        let u2: f32 = (small_rng.next_u64() as f64 / u64::MAX as f64) as f32; // Generates a random number between 0 and 1.
+        let u3: f32 = (small_rng.next_u64() as f64 / u64::MAX as f64) as f32; // Generates a random number between 0 and 1.
 
         let s1 = sqrtf(1.0_f32 - u1);
         let s2 = sqrtf(u1);
-- 
2.43.0


From c31e2ebed2d9bfeba949248ed4b14b473d3ac144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:55 +0000
Subject: [PATCH 40/41] fix: Keep small rotations in Hughes's extraction

---
 quaternion/src/quaternion.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/quaternion/src/quaternion.rs b/quaternion/src/quaternion.rs
index d49ebe3..e71cc1f 100644
--- a/quaternion/src/quaternion.rs
+++ b/quaternion/src/quaternion.rs
@@ -546,14 +546,6 @@ impl Quaternion for Vector<f32> {
         let mut trace = dcm.trace()?;
         trace = clip(trace, -1.0, 3.0);
 
-        // Check if the rotation is null.
-        if allclose(trace, 3.0, EPSILON).map_err(LinalgError::UtilsError)? {
-            // The trace is 3, which implies that the DCM is the identity matrix and therefore the rotation is null.
-            self.fillq(1.0, 0.0, 0.0, 0.0)?;
-
-            return Ok(());  // Return no error.
-        }
-
         // Calculate the real part of the quaternion.
         let n = 0.5 * sqrtf(1.0 + trace);  // eq. 15 on p. 18 of "Spacecraft Attitude Dynamics".
 
-- 
2.43.0


From df90c415afdf4e4f7bc0980e1b2534d351ee9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:09 +0000
Subject: [PATCH 41/41] fix: Orthogonalise the columns of the QR decomposition
 twice

---
 linalg/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linalg/src/matrix.rs b/linalg/src/matrix.rs
index d09bed7..fd134a6 100644
--- a/linalg/src/matrix.rs
+++ b/linalg/src/matrix.rs
@@ -1235,7 +1235,8 @@ impl Matrix {
 
         // Apply the Gram-Schmidt method to orthogonalise the columns and obtain the Q matrix.
         for col in 0..self.cols {
-            for row in 0..col {
+            // The second pass removes what rounding leaves of a column which depends on the previous ones.
+            for row in (0..col).chain(0..col) {
                 let mut dot_product: f32 = 0.0;
 
                 for k in 0..self.rows {
-- 
2.43.0

