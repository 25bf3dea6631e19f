From d538df33e82fa53c99f56b7b32a6685d99d66591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 01/70] fix: difference of a sparse and a dense matrix has the
 wrong sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..d3ee2d7 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -287,8 +287,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        // Convert the sparse operand, because a difference can not be forwarded to the commuted operation.
+        BinaryOperationFunctor<Operation,Dense,T3,P3,Dense,T2,P2,Dense,T3,P3>()(Matrix<Dense,T3,P3>(A),B,C);
     }
 };
 
-- 
2.43.0


From 0641c8360b088511b33959fc76b6737e3f794277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 02/70] fix: zero matrix minus a matrix ignores the minus

---
 include/BlasBooster/Core/BinaryFunctors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index d3ee2d7..02c958c 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -309,6 +309,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (auto& value : C) UnaryOperation<Operation>()(value, value);
     }
 };
 
-- 
2.43.0


From c9fbf0934685ebe92a2d4c61873e07452f0eeb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/70] fix: difference of two multiple matrices adds the
 second part of the subtrahend

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 02c958c..d3cdd0e 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -555,9 +555,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
-- 
2.43.0


From be73d36ad50d1e59285ab73542e41539325f8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/70] fix: compound update of a multiple matrix changes both
 parts and so counts the operand twice

---
 include/BlasBooster/Core/BinaryFunctors.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index d3cdd0e..2056676 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -521,7 +521,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -530,9 +529,7 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
     A.getMatrix1() += B.getMatrix2();
-    A.getMatrix2() += B.getMatrix2();
     return A;
 }
 
@@ -573,7 +570,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -582,9 +578,7 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
     A.getMatrix1() -= B.getMatrix2();
-    A.getMatrix2() -= B.getMatrix2();
     return A;
 }
 
-- 
2.43.0


From 1011e00dc1b6371a045f876a9e216696cab20c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 05/70] fix: sparse sums, products and transposes keep
 uninitialised elements behind the last one

---
 include/BlasBooster/Core/BinaryFunctors.h        | 2 ++
 include/BlasBooster/Core/Multiplication_Native.h | 1 +
 include/BlasBooster/Core/SparseStorage.h         | 6 ++++++
 include/BlasBooster/Core/Storage.h               | 8 ++++++++
 include/BlasBooster/Core/Transposition.h         | 3 +++
 5 files changed, 20 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 2056676..b4fd2e5 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.truncate(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..16e3c6c 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,7 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+        C.truncate(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..14efd68 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,12 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first values and keys
+    void truncate(IndexType nbOfValues) {
+        value_.truncate(nbOfValues);
+        key_.truncate(nbOfValues);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..88bd5c3 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -370,6 +370,14 @@ public:
         size_ = size;
     }
 
+    /// Keep only the first elements
+    void truncate(size_t size) {
+        if (size >= size_) return;
+        Storage shrunk(size);
+        std::copy_n(begin(), size, shrunk.begin());
+        swap(*this, shrunk);
+    }
+
     /// Copy assignment
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..1d83479 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -83,6 +83,9 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
         }
     }
 
+    // storage for all elements is allocated if there are no significant elements
+    transposedMatrix.truncate(matrix.nnz());
+
     return transposedMatrix;
 }
 
-- 
2.43.0


From d9977f8284bf97f5d03d979060092f3d46e6b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 06/70] fix: adding a row-major sparse matrix to a dense one
 uses column-major positions

---
 include/BlasBooster/Core/BinaryFunctors.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index b4fd2e5..f977519 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -269,7 +269,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -373,7 +373,10 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                if constexpr (std::is_same<typename P2::orientation, RowMajor>::value)
+                    OperationAssignment<Operation>()(A(col,*iterKeyCur),*iterValueCur);
+                else
+                    OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
             }
         }
     }
-- 
2.43.0


From ed0466d3a479a5d6ca9747c42db403e246d96aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 07/70] fix: row-major sparse matrices get the number of
 offsets of a column-major one

---
 include/BlasBooster/Core/MatrixFiller.h | 4 ++--
 include/BlasBooster/Core/SparseMatrix.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFiller.h b/include/BlasBooster/Core/MatrixFiller.h
index 8dd30f0..71362ad 100644
--- a/include/BlasBooster/Core/MatrixFiller.h
+++ b/include/BlasBooster/Core/MatrixFiller.h
@@ -56,10 +56,10 @@ struct ContinuousNumberFiller
         typename P::IndexType offset(0), key;
         typename Matrix<Sparse,T,P>::index_iterator iterKeyCur(matrix.beginKey());
         typename Matrix<Sparse,T,P>::index_iterator iterOffsetCur(matrix.beginOffset()), iterOffsetEnd(matrix.endOffset() - 1);
-        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getNbRows())
+        for ( ; iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, offset += matrix.getMajorDimension())
         {
             key = 0;
-            while (key != matrix.getNbRows())
+            while (key != matrix.getMajorDimension())
             {
                 *iterKeyCur = key;
                 ++iterKeyCur;
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..a052359 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -266,7 +266,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 5882983bbd2792468682abc7350a6438d213672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 08/70] fix: conversion of a row-major dense matrix to sparse
 form transposes it

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a052359..2fe977d 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -194,7 +194,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From c7e681402def899c72f5c56b79ff8daf45a92fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 09/70] fix: conversion between sparse matrices ignores the
 requested magnitude range

---
 include/BlasBooster/Core/SparseMatrix.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 2fe977d..f1cc328 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -178,7 +178,25 @@ template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
    storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
-{}
+{
+    // Remove elements which are not significant
+    IndexType nnz(0), begin(0);
+    for (index_iterator iterOffsetCur(this->beginOffset() + 1), iterOffsetEnd(this->endOffset());
+        iterOffsetCur < iterOffsetEnd; ++iterOffsetCur)
+    {
+        const IndexType end(*iterOffsetCur);
+        for ( ; begin != end; ++begin)
+        {
+            if (valueChecker(this->begin()[begin])) {
+                this->begin()[nnz] = this->begin()[begin];
+                this->beginKey()[nnz] = this->beginKey()[begin];
+                ++nnz;
+            }
+        }
+        *iterOffsetCur = nnz;
+    }
+    this->truncate(nnz);
+}
 
 // Conversion from DenseMatrix
 template <class T, class P>
-- 
2.43.0


From 06d3dd19535adf4ff1850eea4a0296c99e0fb48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 10/70] fix: transposition of a sparse matrix without rows
 walks past the offsets

---
 include/BlasBooster/Core/Transposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 1d83479..c02ceef 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -59,7 +59,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 1),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-- 
2.43.0


From 1eac845537693232ea6eedaabdcca144ccbf89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 11/70] fix: OpenBLAS products with an empty dimension pass
 leading dimension zero

---
 include/BlasBooster/Core/Multiplication_OpenBLAS.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_OpenBLAS.h b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
index 58fe6cd..00ce5f7 100644
--- a/include/BlasBooster/Core/Multiplication_OpenBLAS.h
+++ b/include/BlasBooster/Core/Multiplication_OpenBLAS.h
@@ -4,6 +4,7 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/Multiplication.h"
 #include "BlasBooster/Utilities/Tracker.h"
+#include <algorithm>
 
 namespace BlasBooster {
 
@@ -25,9 +26,9 @@ struct MultiplicationFunctor<Dense,double,P,Dense,double,P,Dense,double,P,OpenBL
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         double *pA = const_cast<double*>(A.getDataPointer());
         double *pB = const_cast<double*>(B.getDataPointer());
@@ -55,9 +56,9 @@ struct MultiplicationFunctor<Dense,float,P,Dense,float,P,Dense,float,P,OpenBLAS>
         int M = A.getNbRows();
         int N = B.getNbColumns();
         int K = A.getNbColumns();
-        int LDA = A.getNbRows();
-        int LDB = A.getNbColumns();
-        int LDC = A.getNbRows();
+        int LDA = std::max(1, M);
+        int LDB = std::max(1, K);
+        int LDC = std::max(1, M);
 
         float *pA = const_cast<float*>(A.getDataPointer());
         float *pB = const_cast<float*>(B.getDataPointer());
-- 
2.43.0


From 6a5065420e82e6b9749a501ad11486b772c01db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 12/70] fix: native products of row-major matrices read the
 operands as column-major

---
 .../BlasBooster/Core/Multiplication_Native.h  | 43 ++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index 16e3c6c..90be0e4 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -72,6 +72,9 @@ struct GeneralDenseMultiplicationFunctorUsingCursor
         typedef Cursor<RowCursorA, Direction::Column> ColumnCursorA;
         typedef Cursor<ColumnCursorB, Direction::Row> RowCursorB;
 
+        [[maybe_unused]] Tracker<TrackerID::Native_GeneralDense> tracker;
+
+        assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(),B.getNbColumns());
 
         RowCursorA curRowA(A,0), endRowA(A,A.getNbRows());
@@ -101,7 +104,13 @@ template <class T1, class P1,
           class T2, class P2,
           class T3, class P3>
 struct MultiplicationFunctor<Dense,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
- : public GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>
+ : public std::conditional<
+       std::is_same<typename P1::orientation, ColumnMajor>::value and
+       std::is_same<typename P2::orientation, ColumnMajor>::value and
+       std::is_same<typename P3::orientation, ColumnMajor>::value,
+       GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>,
+       GeneralDenseMultiplicationFunctorUsingCursor<T1,P1,T2,P2,T3,P3>
+   >::type
 {};
 
 /// Matrix multiplication specialized for DynamicMatrix Dense, Dense.
@@ -159,6 +168,14 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Sparse,T2,P2> const& B, Matrix<Sparse,T3,P3>& C)
     {
+        static_assert(std::is_same<typename P3::orientation, ColumnMajor>::value, "Result must be column-major.");
+
+        if constexpr (!std::is_same<typename P1::orientation, ColumnMajor>::value) {
+            return MultiplicationFunctor<Sparse,T1,P3,Sparse,T2,P2,Sparse,T3,P3,Native>()(Matrix<Sparse,T1,P3>(A),B,C);
+        } else if constexpr (!std::is_same<typename P2::orientation, ColumnMajor>::value) {
+            return MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P3,Sparse,T3,P3,Native>()(A,Matrix<Sparse,T2,P3>(B),C);
+        }
+
         [[maybe_unused]] Tracker<TrackerID::Native_sparse> tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
@@ -218,21 +235,23 @@ struct MultiplicationFunctor<Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<T3>(0.0));
 
-        for (size_t col_A = 0; col_A != A.getNbColumns(); ++col_A)
+        constexpr bool isRowMajor = std::is_same<typename P1::orientation, RowMajor>::value;
+
+        for (size_t minor_A = 0; minor_A != A.getMinorDimension(); ++minor_A)
         {
-            auto&& iter_A_off = A.beginOffset() + col_A;
+            auto&& iter_A_off = A.beginOffset() + minor_A;
             auto&& iter_A_val = A.begin() + *iter_A_off;
             auto&& iter_A_key = A.beginKey() + *iter_A_off;
             auto&& iter_A_key_end = A.beginKey() + *(iter_A_off + 1);
 
             for (; iter_A_key != iter_A_key_end; ++iter_A_key, ++iter_A_val)
             {
-            	auto&& iter_B = B.begin() + col_A;
-            	auto&& iter_C = C.begin() + *iter_A_key;
+                size_t row_A = isRowMajor ? minor_A : *iter_A_key;
+                size_t col_A = isRowMajor ? *iter_A_key : minor_A;
 
-                for (size_t i = 0; i != B.getNbColumns(); ++i, iter_B += B.getNbRows(), iter_C += C.getNbRows())
+                for (size_t i = 0; i != B.getNbColumns(); ++i)
                 {
-                    *iter_C += (*iter_A_val) * (*iter_B);
+                    C(row_A, i) += (*iter_A_val) * B(col_A, i);
                 }
             }
         }
@@ -257,18 +276,20 @@ struct MultiplicationFunctor<Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3,Native>
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(), B.getNbColumns(), AllFiller<T3>(0.0));
 
-        size_t col(0);
+        constexpr bool isRowMajor = std::is_same<typename P2::orientation, RowMajor>::value;
+
+        size_t minor(0);
         typename Matrix<Sparse,T2,P2>::const_index_iterator curOffsetB(B.beginOffset()),
             endOffsetB(B.endOffset()-1);
-        for ( ; curOffsetB != endOffsetB; ++curOffsetB, ++col )
+        for ( ; curOffsetB != endOffsetB; ++curOffsetB, ++minor )
         {
             typename Matrix<Sparse,T2,P2>::const_iterator curValueB(B.begin() + *curOffsetB);
             typename Matrix<Sparse,T2,P2>::const_index_iterator curKeyB(B.beginKey() + *curOffsetB),
                         endKeyB(B.beginKey() + *(curOffsetB+1));
-            ColumnCursorC curColumnC(C,col);
             for ( ; curKeyB != endKeyB; ++curKeyB, ++curValueB )
             {
-                ColumnCursorA curColumnA(A,*curKeyB);
+                ColumnCursorC curColumnC(C,isRowMajor ? *curKeyB : minor);
+                ColumnCursorA curColumnA(A,isRowMajor ? minor : *curKeyB);
                 RowCursorA curRowA(A,curColumnA.begin()), endRowA(A,curColumnA.end());
                 RowCursorC curRowC(C,curColumnC.begin());
                 for ( ; curRowA != endRowA; ++curRowA, ++curRowC )
-- 
2.43.0


From d7cad25ea183bbf8d9e790474b40d890e3e6c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 13/70] fix: Eigen products of mixed precision do not compile

---
 include/BlasBooster/Core/Multiplication_Eigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Eigen.h b/include/BlasBooster/Core/Multiplication_Eigen.h
index 80f9b45..8c4220d 100644
--- a/include/BlasBooster/Core/Multiplication_Eigen.h
+++ b/include/BlasBooster/Core/Multiplication_Eigen.h
@@ -63,7 +63,7 @@ struct MultiplicationFunctor<Dense,float,P,Dense,double,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXd> eB(const_cast<double*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA.cast<double>() * eB;
     }
 };
 
@@ -83,7 +83,7 @@ struct MultiplicationFunctor<Dense,double,P,Dense,float,P,Dense,double,P,EigenI>
         Eigen::Map<Eigen::MatrixXf> eB(const_cast<float*>(B.getDataPointer()), B.getNbRows(), B.getNbColumns());
         Eigen::Map<Eigen::MatrixXd> eC(C.getDataPointer(), C.getNbRows(), C.getNbColumns());
 
-        eC = eA * eB;
+        eC = eA * eB.cast<double>();
     }
 };
 
-- 
2.43.0


From 2598b9d907ba6ccaf89e652fbf53785fb42595e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 14/70] fix: resizing a zero matrix keeps the old number of
 elements

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..d104c2f 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    dimension::resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From ca0de35c18a32faa142723213c410e72819ac736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 15/70] fix: cursor multiplication offsets the null pointer of
 an empty result

---
 include/BlasBooster/Core/Multiplication_Native.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index 90be0e4..4bc45ba 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -76,6 +76,7 @@ struct GeneralDenseMultiplicationFunctorUsingCursor
 
         assert(A.getNbColumns() == B.getNbRows());
         C.resize(A.getNbRows(),B.getNbColumns());
+        if (C.getSize() == 0) return;
 
         RowCursorA curRowA(A,0), endRowA(A,A.getNbRows());
         RowCursorC curRowC(C,0);
-- 
2.43.0


From 7f1f57dea24bad7a4149ca9a904dd5325937bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 16/70] fix: ranges of kinds outside the list compare as if of
 one kind

---
 .../Core/AbsoluteValueRangeChecker.h          | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..ee82742 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -4,6 +4,8 @@
 #include "BlasBooster/Core/CoreException.h"
 #include <cmath>
 #include <memory>
+#include <tuple>
+#include <typeinfo>
 
 namespace BlasBooster {
 
@@ -16,6 +18,20 @@ struct ValueCheckerBase
 	virtual ~ValueCheckerBase() = 0;
     virtual bool operator < (ValueCheckerBase const& other) const = 0;
     virtual size_t getID() const = 0;
+
+protected:
+
+    bool isSameKind(ValueCheckerBase const& other) const
+    {
+        return typeid(*this) == typeid(other);
+    }
+
+    /// Order of checkers of different kind
+    bool isKindLess(ValueCheckerBase const& other) const
+    {
+        if (getID() != other.getID()) return getID() < other.getID();
+        return typeid(*this).before(typeid(other));
+    }
 };
 
 inline ValueCheckerBase::~ValueCheckerBase()
@@ -65,10 +81,8 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,threshold_)
-            < std::tie(otherID,
-            static_cast<AbsoluteValueRangeChecker const&>(other).threshold_);
+        if (!isSameKind(other)) return isKindLess(other);
+        return threshold_ < static_cast<AbsoluteValueRangeChecker const&>(other).threshold_;
     }
 
     size_t getID() const { return id_; }
@@ -109,9 +123,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
+        if (!isSameKind(other)) return isKindLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
@@ -155,9 +169,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
+        if (!isSameKind(other)) return isKindLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
@@ -201,9 +215,9 @@ public:
 
     bool operator < (ValueCheckerBase const& other) const
     {
-        size_t otherID = other.getID();
-        return std::tie(id_,lowerThreshold_,upperThreshold_)
-            < std::tie(otherID,
+        if (!isSameKind(other)) return isKindLess(other);
+        return std::tie(lowerThreshold_,upperThreshold_)
+            < std::tie(
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
             static_cast<AbsoluteValueRangeChecker const&>(other).upperThreshold_);
     }
-- 
2.43.0


From 400be528da14d17148f4a81453b8d1e5d573748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 17/70] fix: one- and max-norm do not compile for zero and
 single-precision matrices, nor for runtime-typed ones

---
 include/BlasBooster/Core/Norm.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..2a8cd87 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -16,6 +16,26 @@ struct NormFunctor
     }
 };
 
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 /// Specialization for Matrix<Zero>
 template <class P>
 struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
@@ -133,7 +153,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max<double>(norm, std::abs(*iterCur));
         }
         return norm;
     }
-- 
2.43.0


From ab39564234ec34ac0a055a3014f188bac192e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 18/70] fix: one-norm of a multiple matrix takes the first part
 twice

---
 include/BlasBooster/Core/Norm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index 2a8cd87..7d15d66 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -92,8 +92,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
 {
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
-        //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From 59283946e4600d0da4e65307a695084a4de3ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 19/70] fix: norm and occupation of multiple and zero matrices,
 and so of runtime-typed ones, abort or do not compile

---
 .../BlasBooster/Core/DynamicMatrixFunctions.h |  2 +-
 include/BlasBooster/Core/MultipleMatrix.h     | 32 +++++++++----------
 include/BlasBooster/Core/Occupation.h         |  4 +--
 include/BlasBooster/Core/ZeroMatrix.h         | 24 ++++++++++++++
 4 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/include/BlasBooster/Core/DynamicMatrixFunctions.h b/include/BlasBooster/Core/DynamicMatrixFunctions.h
index 838e91d..bbf78ad 100644
--- a/include/BlasBooster/Core/DynamicMatrixFunctions.h
+++ b/include/BlasBooster/Core/DynamicMatrixFunctions.h
@@ -147,7 +147,7 @@ struct DynamicIsOccupationLargerThan
     template <class T>
     result_type operator () (T* = 0) const
     {
-        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(valueChecker_);
+        return std::static_pointer_cast<T>(dynMatrix_)->isOccupationLargerThan(value_,valueChecker_);
     }
 
     DynamicMatrix dynMatrix_;
diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index f3bce09..788dedb 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
 #include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DynamicMatrixTypeList.h"
 #include "BlasBooster/Core/MatrixBase.h"
@@ -64,36 +65,33 @@ struct MultipleMatrix
     T1& getMatrix1() const { return *ptrT1_; }
     T2& getMatrix2() const { return *ptrT2_; }
 
-    size_t getNbOfSignificantElements(double threshold = 0.0) const {
-        return ptrT1_->getNbOfSignificantElements(threshold) + ptrT2_->getNbOfSignificantElements(threshold);
+    /// Number of elements of the sum which fulfill the valueChecker
+    template <class ValueChecker = AbsoluteValueRangeChecker<double>>
+    size_t getNbOfSignificantElements(ValueChecker const& valueChecker = ValueChecker()) const
+    {
+        return (getMatrix1() + getMatrix2()).getNbOfSignificantElements(valueChecker);
     }
 
-    double getOccupation(double threshold = 0.0) const
+    template <class ValueChecker = AbsoluteValueRangeChecker<double>>
+    double getOccupation(ValueChecker const& valueChecker = ValueChecker()) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return 0.0;
+        return (getMatrix1() + getMatrix2()).getOccupation(valueChecker);
     }
 
-    bool isOccupationLargerThan(double value, double threshold = 0.0) const
+    template <class ValueChecker = AbsoluteValueRangeChecker<double>>
+    bool isOccupationLargerThan(double value, ValueChecker const& valueChecker = ValueChecker()) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return false;
+        return getOccupation(valueChecker) > value;
     }
 
     double getNorm() const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return 0.0;
+        return (getMatrix1() + getMatrix2()).getNorm();
     }
 
-    bool isNormLargerThan(double /*value*/) const
+    bool isNormLargerThan(double value) const
     {
-        // TODO
-        BLASBOOSTER_CORE_FAILURE("not implemented yet");
-        return false;
+        return getNorm() > value;
     }
 
     const std::type_info& getTypeInfo() const { return typeid(*this); }
diff --git a/include/BlasBooster/Core/Occupation.h b/include/BlasBooster/Core/Occupation.h
index 7c98008..1e4d3c7 100644
--- a/include/BlasBooster/Core/Occupation.h
+++ b/include/BlasBooster/Core/Occupation.h
@@ -51,7 +51,7 @@ inline size_t countDesiredElements(Matrix<M,T,P> const& A, ValueChecker const& v
 template <class ValueChecker>
 struct DynamicCountDesiredElementsFunctor
 {
-    typedef double result_type;
+    typedef size_t result_type;
 
     DynamicCountDesiredElementsFunctor(DynamicMatrix const& dynMatrix, ValueChecker const& valueChecker)
      : dynMatrix_(dynMatrix), valueChecker_(valueChecker)
@@ -70,7 +70,7 @@ struct DynamicCountDesiredElementsFunctor
 template <class ValueChecker>
 inline size_t countDesiredElements(DynamicMatrix const& dynMatrix, ValueChecker const& valueChecker)
 {
-    return exec_if<TypeList>(TypeChecker(dynMatrix->getTypeIndex()),DynamicCountDesiredElementsFunctor<ValueChecker>(dynMatrix,valueChecker));
+    return exec_if<DynamicMatrixTypeList>(TypeChecker(dynMatrix->getTypeIndex()),DynamicCountDesiredElementsFunctor<ValueChecker>(dynMatrix,valueChecker));
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index d104c2f..2c258d9 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -147,6 +147,30 @@ public:
     {
         return 0.0 < value;
     }
+
+    template <class ValueChecker>
+    size_t getNbOfSignificantElements(ValueChecker const&) const
+    {
+        return 0;
+    }
+
+    template <class ValueChecker>
+    double getOccupation(ValueChecker const&) const
+    {
+        return 0.0;
+    }
+
+    template <class ValueChecker>
+    bool isOccupationLargerThan(double value, ValueChecker const&) const
+    {
+        return 0.0 > value;
+    }
+
+    template <class ValueChecker>
+    bool isOccupationSmallerThan(double value, ValueChecker const&) const
+    {
+        return 0.0 < value;
+    }
 };
 
 } // namespace BlasBooster
-- 
2.43.0


From 542ef5fe184beeaf76a161c9beaec694ecec3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 20/70] fix: occupation of an empty matrix is not a number

---
 include/BlasBooster/Core/OccupationPolicy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..73688bd 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -32,8 +32,9 @@ public:
     template <class ValueChecker>
     double getOccupation(ValueChecker const& valueChecker) const
     {
-        return static_cast<double>(getNbOfSignificantElements(valueChecker))
-            / static_cast<const Derived*>(this)->getSize();
+        const size_t size = static_cast<const Derived*>(this)->getSize();
+        if (size == 0) return 0.0;
+        return static_cast<double>(getNbOfSignificantElements(valueChecker)) / size;
     }
 
     template <class ValueChecker>
-- 
2.43.0


From 238a1fa6b1bdc54603b1ba1dc7a9221bf195d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 21/70] fix: norm and occupation stay those of the old contents
 after assignment, swap, resize or update

---
 include/BlasBooster/Core/BinaryFunctors.h |  4 ++++
 include/BlasBooster/Core/DenseMatrix.h    | 14 ++++++++++++++
 include/BlasBooster/Core/NormPolicy.h     |  3 +++
 include/BlasBooster/Core/SparseMatrix.h   | 11 +++++++++++
 4 files changed, 32 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index f977519..19021aa 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -280,6 +280,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
                 OperationAssignment<Operation>()(*(iterCCur + *iterKeyBCur), *iterValueBCur);
             }
         }
+        C.resetCaches();
     }
 };
 
@@ -312,6 +313,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     {
         C = B;
         for (auto& value : C) UnaryOperation<Operation>()(value, value);
+        C.resetCaches();
     }
 };
 
@@ -343,6 +345,7 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Dense,T2,P2>
         {
             OperationAssignment<Operation>()(*curIterA,*curIterB);
         }
+        A.resetCaches();
     }
 };
 
@@ -379,6 +382,7 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
                     OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
             }
         }
+        A.resetCaches();
     }
 };
 
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..79f183e 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -217,6 +217,8 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCaches();
+        rhs.resetCaches();
         return *this;
     }
 
@@ -292,12 +294,20 @@ public: // member functions
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
         //swap(a.storage,b.storage);
+        a.resetCaches();
+        b.resetCaches();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
 
     static const std::string name() { return "Matrix<Dense," + TypeName<T>::value() + ">"; }
 
+    /// Forget cached norm and occupation, must be called if the elements have been changed
+    void resetCaches() {
+        this->resetNorm();
+        OccupationPolicy<self>::reset();
+    }
+
 private:
 
     template <class M2, class T2, class P2>
@@ -313,6 +323,7 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        if (Archive::is_loading::value) resetCaches();
     }
 
     template <class U = P>
@@ -683,6 +694,7 @@ Matrix<Dense,T,P>& Matrix<Dense,T,P>::operator = (T value)
     {
         *iterCur = value;
     }
+    resetCaches();
     return *this;
 }
 
@@ -694,6 +706,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
     filler(*this);
+    resetCaches();
 }
 
 template <class T, class P>
@@ -707,6 +720,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    resetCaches();
 }
 
 template <class T, class P>
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..250399e 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -37,6 +37,9 @@ public:
 
     bool isNormUpToDate() const { return isNormUpToDate_; };
 
+    /// Must be called if the elements have been changed
+    void resetNorm() { isNormUpToDate_ = false; }
+
     void updateNorm() const
     {
         if (!isNormUpToDate_) {
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index f1cc328..69e0bc2 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -107,6 +107,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        resetCaches();
+        rhs.resetCaches();
         return *this;
     }
 
@@ -130,6 +132,14 @@ public:
         swap(a.offset_,b.offset_);
         swap(a.nbRows_,b.nbRows_);
         swap(a.nbColumns_,b.nbColumns_);
+        a.resetCaches();
+        b.resetCaches();
+    }
+
+    /// Forget cached norm and occupation, must be called if the elements have been changed
+    void resetCaches() {
+        this->resetNorm();
+        OccupationPolicy<self>::reset();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -285,6 +295,7 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    resetCaches();
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 7f5cab0bccb5d1effe6b2b5c1e226d0ca177ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 22/70] fix: swap and move of matrices leave size, leading and
 unblocked dimension behind

---
 include/BlasBooster/Core/DenseMatrix.h  | 12 ++++++------
 include/BlasBooster/Core/SparseMatrix.h |  3 +--
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 79f183e..7a20736 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,6 +199,8 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
@@ -288,12 +290,10 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a), static_cast<storage&>(b));
         a.resetCaches();
         b.resetCaches();
     }
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 69e0bc2..f4b18d6 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -130,8 +130,7 @@ public:
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
         a.resetCaches();
         b.resetCaches();
     }
-- 
2.43.0


From afdae8bd109e8ae43236839efa2b95f39e7d09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 23/70] fix: resizing a blocked matrix keeps the old number of
 blocks

---
 include/BlasBooster/Core/DenseMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 7a20736..27aa5b5 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -715,8 +715,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
-- 
2.43.0


From 7665288b383cf797b10bb373292ae94b680e2049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 24/70] fix: views of row-major matrices and of views address
 wrong elements or do not compile

---
 include/BlasBooster/Core/DenseMatrix.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 27aa5b5..0420d11 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -440,10 +440,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
@@ -456,11 +456,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
-   storage(
-       const_cast<T2*>(other.getDataPointer()) + beginRow * other.getNbColumns() + beginColumn,
-       other.getSize() - beginRow * other.getNbColumns() - beginColumn
-   )
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
+   // TODO: avoid const_cast
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow * other.getLdColumns() + beginColumn),
+       nbColumns, nbRows, other.getLdColumns() - nbColumns)
 {}
 
 // Conversion from DenseMatrix with same orientation
@@ -520,15 +519,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(other.getSize())
 {
     typename storage::iterator iterCur(this->begin());
-    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
-
-    typename P2::IndexType leadingDifference(other.getLdColumns() - other.getNbColumns());
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin()), otherIterEnd(other.end());
 
-    for ( size_t rowCur(0), rowEnd(other.getNbRows()); rowCur != rowEnd; ++rowCur ) {
-        for ( size_t columnCur(0), columnEnd(other.getNbColumns()); columnCur != columnEnd; ++columnCur ) {
-            *iterCur++ = *otherIterCur++;
-        }
-        otherIterCur += leadingDifference;
+    for ( ; otherIterCur != otherIterEnd; ++otherIterCur, ++iterCur) {
+        *iterCur = valueChecker(*otherIterCur) ? *otherIterCur : 0.0;
     }
 }
 
-- 
2.43.0


From 96b5abc342378ae90a3e9604d41d821bdb173522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 25/70] fix: stepping back from the end of a view leaves the
 window

---
 include/BlasBooster/Core/Storage.h         | 17 +++++++++++------
 include/BlasBooster/Core/StripedIterator.h | 16 +++++++++-------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 88bd5c3..5e6a23e 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -602,27 +602,27 @@ public:
     }
 
     iterator rbegin() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + extent() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + extent() - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + extent(), continuousSize_, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + extent(), continuousSize_, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, -1, 0, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, -1, 0, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
@@ -645,6 +645,11 @@ protected:
     template <class T2>
     friend class StripedIterator;
 
+    /// Number of elements from the first to the last one, including the separators
+    size_t extent() const {
+        return size_ == 0 ? 0 : size_ + (nbBlocks_-1) * separatorSize_;
+    }
+
     friend class boost::serialization::access;
 
     template <class Archive>
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..145f13f 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -48,9 +48,10 @@ public:
 
     void increment()
     {
-        if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
-            else iter_ += separatorSizePlus1_;
+        // The position behind the last element belongs to the last block
+        if (position_ == continuousSizeMinus1_ and block_ + 1 != nbBlocks_) {
+            ++block_;
+            iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
             ++iter_;
@@ -60,9 +61,10 @@ public:
 
     void decrement()
     {
-        if (position_ == 0) {
-            if (--block_ == -1) --iter_;
-            else iter_ -= separatorSizePlus1_;
+        // The position before the first element belongs to the first block
+        if (position_ == 0 and block_ != 0) {
+            --block_;
+            iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
             --iter_;
@@ -76,7 +78,7 @@ public:
     size_t position_;
 
     // Current continuous memory space block
-    int block_;
+    size_t block_;
 
     size_t continuousSizeMinus1_;
 
-- 
2.43.0


From 68b162b797767723913e2aefaff10ab82d849d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 26/70] fix: conversion of a row-major zero matrix to dense
 does not compile

---
 include/BlasBooster/Core/DenseMatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0420d11..2b8c697 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -179,8 +179,8 @@ public: // member functions
     );
 
     /// Conversion from ZeroMatrix
-    template <class P2>
-    Matrix(Matrix<Zero,P2> const& other);
+    template <class T2, class P2>
+    Matrix(Matrix<Zero,T2,P2> const& other);
 
     /// Conversion from MultipleMatrix
     template <class X1, class X2>
@@ -647,8 +647,8 @@ Matrix<Dense,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other,
 
 // Conversion from ZeroMatrix
 template <class T, class P>
-template <class P2>
-Matrix<Dense,T,P>::Matrix(Matrix<Zero,P2> const& other)
+template <class T2, class P2>
+Matrix<Dense,T,P>::Matrix(Matrix<Zero,T2,P2> const& other)
  : dimension(other.getNbRows(), other.getNbColumns()), storage(other.getNbRows() * other.getNbColumns())
 {
    AllFiller<T>(0.0)(*this);
-- 
2.43.0


From 24a51be148578ab08ec615e6a528df944529a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 27/70] fix: conversion between dense matrices ignores the
 requested magnitude range

---
 .../Core/AbsoluteValueRangeChecker.h          | 10 ++++++++
 include/BlasBooster/Core/DenseMatrix.h        | 24 ++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index ee82742..a8ccd55 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -46,6 +46,16 @@ struct ValueCheckerLess
     }
 };
 
+/// Functor accepting every value
+struct AllValuesChecker
+{
+    template <class ValueType>
+    bool operator () (ValueType const&) const
+    {
+        return true;
+    }
+};
+
 /**
  * Functor returning true if the absolute value is within the range lowerThreshold < abs(value) <= upperThreshold
  * Throws if upperThreshold is not larger than lowerThreshold.
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 2b8c697..6ac57cc 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -21,6 +21,7 @@
 #include "BlasBooster/Utilities/TypeChecker.h"
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Utilities/TypeName.h"
+#include <algorithm>
 #include <fstream>
 #include <initializer_list>
 #include <iomanip>
@@ -115,7 +116,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValuesChecker>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -124,7 +125,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValuesChecker>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -133,7 +134,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValuesChecker>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, ColumnMajor>::value and
@@ -143,7 +144,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AllValuesChecker>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, RowMajor>::value and
@@ -471,8 +472,11 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
         !P2::isSubMatrix and !P2::isBlockedMatrix
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
-    storage(other)
-{}
+    storage(other.getSize())
+{
+    std::transform(other.begin(), other.end(), this->begin(),
+        [&valueChecker](T2 const& value) { return valueChecker(value) ? static_cast<T>(value) : T(); });
+}
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
@@ -483,8 +487,12 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
         !P2::isSubMatrix and !P2::isBlockedMatrix
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
-    storage(transpose(other))
-{}
+    storage(other.getSize())
+{
+    const auto transposed(transpose(other));
+    std::transform(transposed.begin(), transposed.end(), this->begin(),
+        [&valueChecker](T2 const& value) { return valueChecker(value) ? static_cast<T>(value) : T(); });
+}
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
-- 
2.43.0


From e3c3c792649bed4183413d32ae3c9b8d69e0d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 28/70] fix: range of a conversion between sparse matrices is
 applied to the rounded values

---
 include/BlasBooster/Core/SparseMatrix.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index f4b18d6..4a107d7 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -186,8 +186,11 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
+   storage()
 {
+    const Matrix<Sparse,T2,P2> source(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other));
+    storage::operator=(storage(source));
+
     // Remove elements which are not significant
     IndexType nnz(0), begin(0);
     for (index_iterator iterOffsetCur(this->beginOffset() + 1), iterOffsetEnd(this->endOffset());
@@ -196,7 +199,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const
         const IndexType end(*iterOffsetCur);
         for ( ; begin != end; ++begin)
         {
-            if (valueChecker(this->begin()[begin])) {
+            if (valueChecker(source.begin()[begin])) {
                 this->begin()[nnz] = this->begin()[begin];
                 this->beginKey()[nnz] = this->beginKey()[begin];
                 ++nnz;
-- 
2.43.0


From 6e76064b016fb7dd09ce22575347b16c7da50896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 29/70] fix: block size detection uses uninitialised border if
 no cut respects the minimum size

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..d8ea68f 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,8 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // No border left which respects the minimum block size
+            if (largest_min == 0) break;
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 52a395e06d047dbd6772d2d80cf1aa18735b134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 30/70] fix: block size detection compares column-major
 matrices as if row-major

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index d8ea68f..c1bd398 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -115,23 +115,16 @@ std::tuple<std::vector<T>, std::vector<T>> BlockSizeGenerator::get_detection_arr
     std::vector<T> row_detect(matrix.getNbRows() - 1, 0.0);
     std::vector<T> col_detect(matrix.getNbColumns() - 1, 0.0);
 
-    typename Matrix<Dense,T,P>::const_iterator iter1(matrix_log.begin()),
-        iter2(matrix_log.begin() + 1), iter3(matrix_log.begin() + matrix.getNbColumns());
-
-    for (size_t i = 0; i != matrix.getNbRows() - 1; ++i)
+    for (size_t i = 0; i + 1 < matrix.getNbRows(); ++i)
     {
-        for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2, ++iter3)
-        {
-            row_detect[i] += std::abs(*iter1 - *iter3);
-            col_detect[j] += std::abs(*iter1 - *iter2);
-        }
-        row_detect[i] += std::abs(*iter1 - *iter3);
-        ++iter1, ++iter2, ++iter3;
+        for (size_t j = 0; j != matrix.getNbColumns(); ++j)
+            row_detect[i] += std::abs(matrix_log(i, j) - matrix_log(i + 1, j));
     }
 
-    for (size_t j = 0; j != matrix.getNbColumns() - 1; ++j, ++iter1, ++iter2)
+    for (size_t i = 0; i != matrix.getNbRows(); ++i)
     {
-        col_detect[j] += std::abs(*iter1 - *iter2);
+        for (size_t j = 0; j + 1 < matrix.getNbColumns(); ++j)
+            col_detect[j] += std::abs(matrix_log(i, j) - matrix_log(i, j + 1));
     }
 
     return std::make_tuple(row_detect, col_detect);
-- 
2.43.0


From d6ad1343e1fc28af01168da636b35ebc0982c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 31/70] fix: inner block sizes of a product are detected on
 wrongly converted sums

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index c1bd398..3744d92 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -99,7 +99,7 @@ std::tuple<std::vector<size_t>, std::vector<size_t>, std::vector<size_t>> BlockS
     auto&& [row_detect_B, col_detect_B] = get_detection_arrays(B);
 
     std::transform(col_detect_A.begin(), col_detect_A.end(),
-        row_detect_B.begin(), col_detect_A.begin(), std::plus<size_t>());
+        row_detect_B.begin(), col_detect_A.begin(), std::plus<T>());
 
     return std::make_tuple(get_block_size(row_detect_A), get_block_size(col_detect_A), get_block_size(col_detect_B));
 }
-- 
2.43.0


From ce04502873d2a48e701160c1330fe55ee96d010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 32/70] fix: block counts start uninitialised

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From 2959427529f6d79f70fd0bed1ec16416dcc774a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 33/70] fix: zero matrices use the double-precision occupation
 limit for single precision

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From bfa456a5d875db49625fc66a2685025c60e87505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 34/70] fix: copy of a matrix over external memory never frees
 its memory

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 5e6a23e..09a5221 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From 9c3bf8d0c2b21a03db8ec30611e886f61edf9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 35/70] fix: loading a storage leaks its memory and frees
 external or fixed memory

---
 include/BlasBooster/Core/Storage.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 09a5221..fc540b6 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
@@ -275,7 +274,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
@@ -493,10 +491,12 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        // Keep the old memory until everything is read
+        size_t size;
+        ar >> size;
+        Storage loaded(size);
+        for ( size_t i(0); i != size; ++i ) ar >> loaded.data_[i];
+        swap(*this, loaded);
     }
 
     T* data_;
-- 
2.43.0


From 3e0fca688e7ab0dc06d501110ad1808bc5d75467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 36/70] fix: loading a damaged dense matrix ends in a matrix
 with inconsistent or half-read contents

---
 include/BlasBooster/Core/DenseMatrix.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 6ac57cc..df05a50 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -322,9 +322,18 @@ private:
     template <class Archive>
     void serialize(Archive & ar, const unsigned int version)
     {
-        ar & boost::serialization::base_object<dimension>(*this);
-        ar & boost::serialization::base_object<storage>(*this);
-        if (Archive::is_loading::value) resetCaches();
+        if constexpr (Archive::is_loading::value) {
+            // Keep the old contents until everything is read
+            self loaded;
+            ar & boost::serialization::base_object<dimension>(loaded);
+            ar & boost::serialization::base_object<storage>(loaded);
+            if (loaded.getNbRows() * loaded.getNbColumns() != loaded.size() or loaded.getSize() != loaded.size())
+                throw BlasBoosterException("Dimension does not match the number of elements.");
+            swap(*this, loaded);
+        } else {
+            ar & boost::serialization::base_object<dimension>(*this);
+            ar & boost::serialization::base_object<storage>(*this);
+        }
     }
 
     template <class U = P>
-- 
2.43.0


From 4745a68201fe2b980d9f9cde799591db21a89cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 37/70] fix: matrix import from a short file or with
 overflowing dimensions makes up elements

---
 include/BlasBooster/Core/MatrixFileIO.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..b12bc16 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -3,8 +3,10 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BrainTwister/Record.h"
+#include <algorithm>
 #include <iostream>
 #include <fstream>
+#include <limits>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -28,16 +30,22 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-    matrix.resize(settings.nbRows, settings.nbColumns);
 
-    // Some dimension checks
-    if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
-    if (settings.nbColumns + settings.columnOffset > settings.columnLeadingDimension) throw BlasBoosterException("");
+    // Some dimension checks, which must not overflow
+    if (settings.nbRows > settings.rowLeadingDimension or settings.rowOffset > settings.rowLeadingDimension - settings.nbRows)
+        throw BlasBoosterException("Rows exceed the row leading dimension.");
+    if (settings.nbColumns > settings.columnLeadingDimension or settings.columnOffset > settings.columnLeadingDimension - settings.nbColumns)
+        throw BlasBoosterException("Columns exceed the column leading dimension.");
+    if (settings.columnLeadingDimension != 0 and settings.rowLeadingDimension >
+        static_cast<size_t>(std::numeric_limits<std::streamsize>::max()) / sizeof(T) / settings.columnLeadingDimension)
+        throw BlasBoosterException("Matrix is too large.");
 
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
 
-    T* dataPointer = matrix.getDataPointer();
+    // Keep the old matrix until everything is read
+    Matrix<Dense,T,P> result(settings.nbRows, settings.nbColumns);
+    T* dataPointer = result.getDataPointer();
 
     if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
         is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
@@ -49,6 +57,10 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
     }
+    if (!is2) throw BlasBoosterException("Error reading file " + settings.filename);
+
+    matrix.resize(settings.nbRows, settings.nbColumns);
+    std::copy(result.begin(), result.end(), matrix.begin());
 
     return is;
 }
-- 
2.43.0


From df5062315817f2ddc08b51ff869e3a29f7f40b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 38/70] fix: import of a matrix with overflowing dimensions
 makes up elements

---
 src/MatrixFactory/MatrixFileImporter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MatrixFactory/MatrixFileImporter.cpp b/src/MatrixFactory/MatrixFileImporter.cpp
index 69f198a..ca1f00f 100644
--- a/src/MatrixFactory/MatrixFileImporter.cpp
+++ b/src/MatrixFactory/MatrixFileImporter.cpp
@@ -1,6 +1,7 @@
 #include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include <fstream>
+#include <limits>
 
 namespace BlasBooster {
 
@@ -12,6 +13,8 @@ MatrixFileImporter::MatrixFileImporter(filesystem::path const& file)
         throw BlasBoosterException("Can't open file " + file.string());
     if (!(is >> nbRows >> nbColumns >> dataFile))
         throw BlasBoosterException("Error reading file " + file.string());
+    if (nbColumns != 0 and nbRows > static_cast<size_t>(std::numeric_limits<std::streamsize>::max()) / sizeof(double) / nbColumns)
+        throw BlasBoosterException("Matrix is too large in file " + file.string());
 }
 
 Matrix<Dense,double> MatrixFileImporter::operator()() const
-- 
2.43.0


From 4864812355c5f75d11839e70b358a258aeba2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 39/70] fix: usage tracking loses counts if operations run on
 several threads

---
 include/BlasBooster/Utilities/Tracker.h | 6 ++++++
 src/Utilities/tracker.cpp               | 1 +
 2 files changed, 7 insertions(+)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e2373a7..9921579 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -5,6 +5,7 @@
 #include <chrono>
 #include <iostream>
 #include <iomanip>
+#include <mutex>
 
 #include "EnumParser.h"
 
@@ -76,12 +77,14 @@ enum class TrackerID {
     {
         static void add(TrackerID id, clock::duration const& duration)
         {
+            std::lock_guard<std::mutex> lock(mutex);
             time[static_cast<size_t>(id)] += duration;
             ++count[static_cast<size_t>(id)];
         }
 
         static std::ostream& print(std::ostream& os)
         {
+            std::lock_guard<std::mutex> lock(mutex);
             os << "\n"
                << std::setw(20) << "tracker"
                << std::setw(10) << "count"
@@ -101,6 +104,9 @@ enum class TrackerID {
 
         static std::array<clock::duration, static_cast<size_t>(TrackerID::size)> time;
         static std::array<size_t, static_cast<size_t>(TrackerID::size)> count;
+
+        /// Operations may run on several threads
+        static std::mutex mutex;
     };
 
     template <TrackerID ID>
diff --git a/src/Utilities/tracker.cpp b/src/Utilities/tracker.cpp
index 3e07e0a..82c20a7 100644
--- a/src/Utilities/tracker.cpp
+++ b/src/Utilities/tracker.cpp
@@ -5,4 +5,5 @@ using namespace BlasBooster;
 #ifdef BLASBOOSTER_USE_TRACKER
     std::array<clock::duration, static_cast<size_t>(TrackerID::size)> TrackerRegister::time;
     std::array<size_t, static_cast<size_t>(TrackerID::size)> TrackerRegister::count;
+    std::mutex TrackerRegister::mutex;
 #endif
-- 
2.43.0


From 1a32cd01a8309bcdea30cd50d1b3342b55744777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 40/70] fix: matrices with indices or of unsigned values cannot
 be compared within accuracy

---
 include/BlasBooster/Core/Storage.h               | 16 ++++++++--------
 .../Utilities/EqualWithinNumericalAccuracy.h     |  5 ++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index fc540b6..d2e7235 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -213,8 +213,8 @@ public:
         return data_ == rhs.data_ and ownMemory_ == rhs.ownMemory_;
     }
 
-    template < class T2, bool onStack2, bool isFixed2, size_t Size2 >
-    bool equal( const Storage<T2,onStack2,isFixed2,Size2>& rhs ) const {
+    template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
+    bool equal( Storage<T2,onStack2,isFixed2,Size2,Strided2> const& rhs ) const {
         if ( size_ != rhs.size_ ) return false;
         for ( size_t i(0); i != size_; ++i ) {
             if ( !equalWithinNumericalAccuracy(data_[i],rhs.data_[i]) ) return false;
@@ -222,8 +222,8 @@ public:
         return true;
     }
 
-    template < class T2, bool onStack2, bool isFixed2, size_t Size2 >
-    bool notEqual( const Storage<T2,onStack2,isFixed2,Size2>& rhs ) const {
+    template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
+    bool notEqual( Storage<T2,onStack2,isFixed2,Size2,Strided2> const& rhs ) const {
         return !equal(rhs);
     }
 
@@ -424,8 +424,8 @@ public:
             and ownMemory_ == rhs.ownMemory_;
     }
 
-    template <class T2, bool onStack2, bool isFixed2, size_t Size2>
-    bool equal(Storage<T2,onStack2,isFixed2,Size2> const& rhs) const
+    template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
+    bool equal(Storage<T2,onStack2,isFixed2,Size2,Strided2> const& rhs) const
     {
         if (size_ != rhs.size_) return false;
         for (size_t i(0); i != size_; ++i) {
@@ -434,8 +434,8 @@ public:
         return true;
     }
 
-    template <class T2, bool onStack2, bool isFixed2, size_t Size2>
-    bool notEqual(Storage<T2,onStack2,isFixed2,Size2> const& rhs) const
+    template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
+    bool notEqual(Storage<T2,onStack2,isFixed2,Size2,Strided2> const& rhs) const
     {
         return !equal(rhs);
     }
diff --git a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
index aaf7515..5ee9a0b 100644
--- a/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
+++ b/include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <complex>
+#include <type_traits>
 
 namespace BlasBooster {
 
@@ -17,7 +18,9 @@ template <> inline double numericalAccuracy< unsigned long >() { return 0.0; }
 template <class T1, class T2>
 bool equalWithinNumericalAccuracy(T1 const& v1, T2 const& v2)
 {
-    return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
+    // The difference of unsigned values has no sign
+    if constexpr (std::is_unsigned<T1>::value and std::is_unsigned<T2>::value) return v1 == v2;
+    else return std::abs(v1 - v2) <= std::max(numericalAccuracy<T1>(),numericalAccuracy<T2>());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 3db09e3a4493f83081c0472cef4752a3ffabc94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 41/70] fix: deviations of single-precision, sparse, empty or
 differently ordered matrices are wrong or do not compile

---
 .../Core/StatisticalErrorInformation.h        | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/BlasBooster/Core/StatisticalErrorInformation.h b/include/BlasBooster/Core/StatisticalErrorInformation.h
index 9dd55f8..7d421b5 100644
--- a/include/BlasBooster/Core/StatisticalErrorInformation.h
+++ b/include/BlasBooster/Core/StatisticalErrorInformation.h
@@ -1,30 +1,48 @@
 #pragma once
 
+#include "BlasBooster/Core/DenseMatrix.h"
+#include "BlasBooster/Core/SparseMatrix.h"
+#include <algorithm>
+#include <cmath>
+
 namespace BlasBooster {
 
+namespace detail {
+
+/// Elements are compared by row and column, independent of representation and storage order.
+template <class T, class P>
+Matrix<Dense,T,P> const& getElements(Matrix<Dense,T,P> const& matrix) { return matrix; }
+
+template <class T, class P>
+Matrix<Dense,T,P> getElements(Matrix<Sparse,T,P> const& matrix) { return Matrix<Dense,T,P>(matrix); }
+
+} // namespace detail
+
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getMaximalDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    auto&& a = detail::getElements(A);
+    auto&& b = detail::getElements(B);
+
     double maximalDeviation(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
-    for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
-    {
-        maximalDeviation = std::max(maximalDeviation, std::abs(*iterACur - *iterBCur));
-    }
+    for (size_t j = 0; j != A.getNbColumns(); ++j)
+        for (size_t i = 0; i != A.getNbRows(); ++i)
+            maximalDeviation = std::max(maximalDeviation, std::abs(static_cast<double>(a(i,j)) - b(i,j)));
     return maximalDeviation;
 }
 
 template <class M1, class T1, class P1, class M2, class T2, class P2>
 double getRootMeanSquareDeviation(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
 {
+    if (A.getNbRows() == 0 or A.getNbColumns() == 0) return 0.0;
+
+    auto&& a = detail::getElements(A);
+    auto&& b = detail::getElements(B);
+
     double meanSquare(0.0);
-    typename Matrix<M1,T1,P1>::const_iterator iterACur(A.begin()), iterAEnd(A.end());
-    typename Matrix<M2,T2,P2>::const_iterator iterBCur(B.begin());
-    for ( ; iterACur != iterAEnd; ++iterACur, ++iterBCur )
-    {
-        meanSquare += std::pow(*iterACur - *iterBCur, 2);
-    }
+    for (size_t j = 0; j != A.getNbColumns(); ++j)
+        for (size_t i = 0; i != A.getNbRows(); ++i)
+            meanSquare += std::pow(static_cast<double>(a(i,j)) - b(i,j), 2);
     return std::sqrt(meanSquare/(A.getNbRows()*A.getNbColumns()));
 }
 
-- 
2.43.0


From 3be75ac2359c62cce8c5cd9cc95bbafb4280cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 42/70] fix: complex dot products of OpenBLAS pass a hidden
 result which the library does not expect

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp         | 17 +++++++++++++----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre     | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..ffa6311 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// Whether a complex result of a Fortran function is returned or passed as hidden
+// argument depends on the compiler, therefore the C interface is used.
+extern "C" {
+    void cblas_cdotc_sub(int, const void*, int, const void*, int, void*);
+    void cblas_cdotu_sub(int, const void*, int, const void*, int, void*);
+    void cblas_zdotc_sub(int, const void*, int, const void*, int, void*);
+    void cblas_zdotu_sub(int, const void*, int, const void*, int, void*);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -938,7 +947,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -946,7 +955,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -954,7 +963,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -962,7 +971,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..1cf6b3c 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// Whether a complex result of a Fortran function is returned or passed as hidden
+// argument depends on the compiler, therefore the C interface is used.
+extern "C" {
+    void cblas_cdotc_sub(int, const void*, int, const void*, int, void*);
+    void cblas_cdotu_sub(int, const void*, int, const void*, int, void*);
+    void cblas_zdotc_sub(int, const void*, int, const void*, int, void*);
+    void cblas_zdotu_sub(int, const void*, int, const void*, int, void*);
+}
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -28,7 +37,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -36,7 +45,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -44,7 +53,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -52,7 +61,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
-- 
2.43.0


From 158b34193098a24419609e5f042aa874cb1eeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 43/70] fix: adaptive conversion to sparse drops elements
 significant in double precision

---
 include/BlasBooster/Core/MatrixConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..f779e90 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 5e26c7141c8d77db4ef35d7b2705bbdac1733ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 44/70] fix: huge minimum block sizes pass the check of the
 limits

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 3744d92..66d15d1 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -57,7 +57,7 @@ struct BlockSizeGenerator
     BlockSizeGenerator(size_t min_block_size, size_t max_block_size)
      : min_block_size(min_block_size), max_block_size(max_block_size)
     {
-        if (2*min_block_size > max_block_size) throw BlasBoosterException("BlockSizeGenerator: max_block_size must be at least twice as large as min_block_size.");
+        if (min_block_size > max_block_size / 2) throw BlasBoosterException("BlockSizeGenerator: max_block_size must be at least twice as large as min_block_size.");
     }
 
     template <class T, class P>
-- 
2.43.0


From 9211f1b8cb68d6fb3d51dce9681b5dea20edf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 45/70] fix: a failed allocation leaves a storage with its old
 memory

resize and copy assignment released the old memory first, which was released again by the destructor if the allocation of the new memory failed.
---
 include/BlasBooster/Core/Storage.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index d2e7235..93dd3cd 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -363,8 +363,9 @@ public:
     void resize(size_t size) {
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
+        T* data = allocate<T>(size);
         if (data_) deallocate<T>(data_);
-        data_ = allocate<T>(size);
+        data_ = data;
         size_ = size;
     }
 
@@ -380,13 +381,13 @@ public:
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
-            if (ownMemory_) deallocate<T>(data_);
+            T* data = rhs.data_;
             if (rhs.ownMemory_) {
-                data_ = allocate<T>(rhs.size_);
-                std::copy(rhs.begin(),rhs.end(),begin());
-            } else {
-                data_ = rhs.data_;
+                data = allocate<T>(rhs.size_);
+                std::copy(rhs.begin(),rhs.end(),data);
             }
+            if (ownMemory_) deallocate<T>(data_);
+            data_ = data;
             size_ = rhs.size_;
             ownMemory_ = rhs.ownMemory_;
         }
-- 
2.43.0


From 06c94c5e90f2d46c8d965578075fc234eb88ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 46/70] fix: a moved-from matrix can be resized again

A moved-from storage is empty, but did not own its memory, so that resizing it was refused.
---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 93dd3cd..ca08ced 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -339,7 +339,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move constructor is called.");
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
     }
 
     /// Conversion constructor
@@ -406,7 +406,7 @@ public:
         // clean other resources
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
         return *this;
     }
 
-- 
2.43.0


From 5caa13d88e5c48388d960f8223fd37ebfb6b6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 47/70] fix: a refused resize leaves a matrix with its old
 shape

The new dimensions were set before the storage refused to resize memory it does not own, so that the matrix addressed elements outside of it.
---
 include/BlasBooster/Core/DenseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index df05a50..e79eb4c 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -714,8 +714,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     filler(*this);
     resetCaches();
 }
@@ -726,10 +726,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     resetCaches();
 }
 
-- 
2.43.0


From 91e3b72b1f810f4a03efff0b6ff740e11eb606f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 48/70] fix: loading a dense matrix compiles in every
 instantiation

---
 include/BlasBooster/Core/DenseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index e79eb4c..9310fee 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -327,7 +327,7 @@ private:
             self loaded;
             ar & boost::serialization::base_object<dimension>(loaded);
             ar & boost::serialization::base_object<storage>(loaded);
-            if (loaded.getNbRows() * loaded.getNbColumns() != loaded.size() or loaded.getSize() != loaded.size())
+            if (loaded.getNbRows() * loaded.getNbColumns() != loaded.storage::size() or loaded.getSize() != loaded.storage::size())
                 throw BlasBoosterException("Dimension does not match the number of elements.");
             swap(*this, loaded);
         } else {
-- 
2.43.0


From ef5bea0ca16b9d6d541fbabe6b9ea447eb0c9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 49/70] fix: walking along the lines of an empty matrix resized
 from nothing

---
 include/BlasBooster/Core/Storage.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ca08ced..4b20fbf 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -361,7 +361,8 @@ public:
     }
 
     void resize(size_t size) {
-        if (size_ == size) return;
+        // Also an empty storage needs an address, walkers step along the lines of empty matrices
+        if (size_ == size and (data_ or !ownMemory_)) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
         T* data = allocate<T>(size);
         if (data_) deallocate<T>(data_);
-- 
2.43.0


From abaf4d62e07ca04cea3c034af2aa1ede891764ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 50/70] fix: different seeds generate different matrices

---
 src/MatrixFactory/MatrixGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MatrixFactory/MatrixGenerator.cpp b/src/MatrixFactory/MatrixGenerator.cpp
index 0a5992f..aef7c7c 100644
--- a/src/MatrixFactory/MatrixGenerator.cpp
+++ b/src/MatrixFactory/MatrixGenerator.cpp
@@ -7,7 +7,8 @@ Matrix<Dense,double> MatrixGenerator::operator()() const
 {
     Matrix<Dense,double> matrix(nbRows,nbColumns);
 
-    std::default_random_engine e(settings.seed);
+    // Neighbouring seeds must not give the same numbers, as they do for a linear congruential engine
+    std::mt19937 e(settings.seed);
     std::uniform_real_distribution<> d1(settings.minValue, settings.maxValue);
     std::uniform_int_distribution<> d2(0, 1);
 
-- 
2.43.0


From 8311537f9e52038ce1503ae9dcf5a937b1d2e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 51/70] fix: comparing dense matrices of different storage
 order compares the wrong elements

---
 include/BlasBooster/Core/DenseMatrix.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 9310fee..ecff1ee 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -251,9 +251,12 @@ public: // member functions
 
     template <class T2, class P2>
     bool equal(Matrix<Dense,T2,P2> const& rhs) const {
-        return storage::equal(rhs)
-            and this->getNbRows() == rhs.getNbRows()
-            and this->getNbColumns() == rhs.getNbColumns();
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        // Elements are compared by row and column, the storage order may differ
+        for (size_t j = 0; j != this->getNbColumns(); ++j)
+            for (size_t i = 0; i != this->getNbRows(); ++i)
+                if (!equalWithinNumericalAccuracy((*this)(i,j), rhs(i,j))) return false;
+        return true;
     }
 
     template <class T2, class P2>
-- 
2.43.0


From 3f576d17de662901fba665f5f252d2e2e2a42ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 52/70] fix: sparse matrices of different shape compare as
 equal

---
 include/BlasBooster/Core/SparseMatrix.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 4a107d7..a19c01d 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -121,6 +121,18 @@ public:
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
 
+    template <class T2, class P2>
+    bool equal(Matrix<Sparse,T2,P2> const& rhs) const {
+        if (this->getNbRows() != rhs.getNbRows() or this->getNbColumns() != rhs.getNbColumns()) return false;
+        if constexpr (std::is_same<typename P::orientation, typename P2::orientation>::value) return storage::equal(rhs);
+        else return storage::equal(Matrix<Sparse,T2,P>(rhs));
+    }
+
+    template <class T2, class P2>
+    bool notEqual(Matrix<Sparse,T2,P2> const& rhs) const {
+        return !equal(rhs);
+    }
+
     const std::type_info& getTypeInfo() const { return typeid(*this); }
 
     size_t getTypeIndex() const { return typeIndex_; }
-- 
2.43.0


From b97669f3d117b3fa16597f9b07c27532a879d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 53/70] fix: tracked times get lost when the clock of the day
 is set back

---
 include/BlasBooster/Utilities/Tracker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index 9921579..847be8b 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -41,7 +41,7 @@ enum class TrackerID {
 };
 
 #ifdef BLASBOOSTER_USE_TRACKER
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock;
 
     template <>
     inline EnumParser<TrackerID>::EnumParser()
-- 
2.43.0


From 6dedf02b6addda004ca152f0c5cecc3c8cb42d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 54/70] fix: count and time run together in the tracker report

---
 include/BlasBooster/Utilities/Tracker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index 847be8b..5641f8a 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -88,7 +88,7 @@ enum class TrackerID {
             os << "\n"
                << std::setw(20) << "tracker"
                << std::setw(10) << "count"
-               << "time\n"
+               << " time\n"
                << std::string(60,'-')
                << std::endl;
 
@@ -96,7 +96,7 @@ enum class TrackerID {
                 if (count[i] == 0) continue;
                 os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
                    << std::setw(10) << count[i]
-                   << time[i].count() << " ns"
+                   << " " << time[i].count() << " ns"
                    << std::endl;
             }
             return os;
-- 
2.43.0


From 5c68e7569efcdbf596f80c6407f8b3edcd25f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 55/70] fix: writing to a full device is reported

---
 include/BlasBooster/Utilities/FileIO.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 3b32196..cd2dc75 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -27,8 +27,12 @@ void writeXML( T& settings, const std::string& name, const boost::filesystem::pa
 {
     if (!overwrite and exists(filename)) throw BlasBoosterException("writeXML: " + filename.string() + " exist");
     std::ofstream out(filename.string().c_str());
-    boost::archive::xml_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    {
+        boost::archive::xml_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+        if (!out.flush()) throw BlasBoosterException("writeXML: " + filename.string() + " can not be written");
+    } // archive writes the end of the document
+    if (!out.flush()) throw BlasBoosterException("writeXML: " + filename.string() + " can not be written");
 }
 
 template <class T>
@@ -48,6 +52,7 @@ void writeBinary( T& settings, const std::string& name, const boost::filesystem:
     std::ofstream out(filename.string().c_str());
     boost::archive::binary_oarchive oa(out);
     oa << boost::serialization::make_nvp(name.c_str(),settings);
+    if (!out.flush()) throw BlasBoosterException("writeBinary: " + filename.string() + " can not be written");
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From f1668e7cada9f8dd32ae138b865681016b0a47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 56/70] fix: dense matrices can be written as XML

---
 include/BlasBooster/Core/DenseMatrix.h   |  8 ++++----
 include/BlasBooster/Core/Dimension.h     |  7 ++++---
 include/BlasBooster/Core/SparseStorage.h |  6 +++---
 include/BlasBooster/Core/Storage.h       | 13 +++++++------
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index ecff1ee..653a212 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -328,14 +328,14 @@ private:
         if constexpr (Archive::is_loading::value) {
             // Keep the old contents until everything is read
             self loaded;
-            ar & boost::serialization::base_object<dimension>(loaded);
-            ar & boost::serialization::base_object<storage>(loaded);
+            ar & boost::serialization::make_nvp("dimension", boost::serialization::base_object<dimension>(loaded));
+            ar & boost::serialization::make_nvp("storage", boost::serialization::base_object<storage>(loaded));
             if (loaded.getNbRows() * loaded.getNbColumns() != loaded.storage::size() or loaded.getSize() != loaded.storage::size())
                 throw BlasBoosterException("Dimension does not match the number of elements.");
             swap(*this, loaded);
         } else {
-            ar & boost::serialization::base_object<dimension>(*this);
-            ar & boost::serialization::base_object<storage>(*this);
+            ar & boost::serialization::make_nvp("dimension", boost::serialization::base_object<dimension>(*this));
+            ar & boost::serialization::make_nvp("storage", boost::serialization::base_object<storage>(*this));
         }
     }
 
diff --git a/include/BlasBooster/Core/Dimension.h b/include/BlasBooster/Core/Dimension.h
index e9a61cd..7fc7267 100644
--- a/include/BlasBooster/Core/Dimension.h
+++ b/include/BlasBooster/Core/Dimension.h
@@ -2,6 +2,7 @@
 
 #include "BlasBooster/Utilities/Noexcept.h"
 #include <boost/serialization/access.hpp>
+#include <boost/serialization/nvp.hpp>
 #include <cstddef>
 #include <utility>
 
@@ -122,9 +123,9 @@ private:
     template <class Archive>
     void serialize(Archive & ar, const unsigned int version)
     {
-        ar & nbRows_;
-        ar & nbColumns_;
-        ar & full_size_;
+        ar & boost::serialization::make_nvp("nbRows", nbRows_);
+        ar & boost::serialization::make_nvp("nbColumns", nbColumns_);
+        ar & boost::serialization::make_nvp("size", full_size_);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 14efd68..58a582b 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -170,9 +170,9 @@ protected:
     template<class Archive>
     void serialize(Archive & ar, const unsigned int version)
     {
-        ar & value_;
-        ar & key_;
-        ar & offset_;
+        ar & boost::serialization::make_nvp("value", value_);
+        ar & boost::serialization::make_nvp("key", key_);
+        ar & boost::serialization::make_nvp("offset", offset_);
     }
 
     Storage<ValueType,false,false,0> value_;
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 4b20fbf..a990605 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -6,6 +6,7 @@
 #include "BlasBooster/Utilities/DebugPrint.h"
 #include "BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
 #include "BlasBooster/Utilities/Noexcept.h"
+#include <boost/serialization/nvp.hpp>
 #include <boost/serialization/split_member.hpp>
 #include <algorithm>
 #include <initializer_list>
@@ -267,13 +268,13 @@ protected:
     template < class Archive >
     void save(Archive & ar, const unsigned int version) const
     {
-        for ( size_t i(0); i != size_; ++i ) ar << data_[i];
+        for ( size_t i(0); i != size_; ++i ) ar << boost::serialization::make_nvp("element", data_[i]);
     }
 
     template < class Archive >
     void load(Archive & ar, const unsigned int version)
     {
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
+        for ( size_t i(0); i != size_; ++i ) ar >> boost::serialization::make_nvp("element", data_[i]);
     }
 
     T* data_;
@@ -486,8 +487,8 @@ protected:
     template <class Archive>
     void save(Archive & ar, const unsigned int version) const
     {
-        ar << size_;
-        for ( size_t i(0); i != size_; ++i ) ar << data_[i];
+        ar << boost::serialization::make_nvp("size", size_);
+        for ( size_t i(0); i != size_; ++i ) ar << boost::serialization::make_nvp("element", data_[i]);
     }
 
     template <class Archive>
@@ -495,9 +496,9 @@ protected:
     {
         // Keep the old memory until everything is read
         size_t size;
-        ar >> size;
+        ar >> boost::serialization::make_nvp("size", size);
         Storage loaded(size);
-        for ( size_t i(0); i != size; ++i ) ar >> loaded.data_[i];
+        for ( size_t i(0); i != size; ++i ) ar >> boost::serialization::make_nvp("element", loaded.data_[i]);
         swap(*this, loaded);
     }
 
-- 
2.43.0


From d20e8609ecf2d9d843d5d9b82a1cca1cbe19a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 57/70] fix: overflowing dimension of a loaded dense matrix is
 noticed

---
 include/BlasBooster/Core/DenseMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 653a212..c567300 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -330,7 +330,8 @@ private:
             self loaded;
             ar & boost::serialization::make_nvp("dimension", boost::serialization::base_object<dimension>(loaded));
             ar & boost::serialization::make_nvp("storage", boost::serialization::base_object<storage>(loaded));
-            if (loaded.getNbRows() * loaded.getNbColumns() != loaded.storage::size() or loaded.getSize() != loaded.storage::size())
+            const size_t size(loaded.storage::size()), nbColumns(loaded.getNbColumns());
+            if (loaded.getNbRows() * nbColumns != size or loaded.getSize() != size or (nbColumns and size / nbColumns != loaded.getNbRows()))
                 throw BlasBoosterException("Dimension does not match the number of elements.");
             swap(*this, loaded);
         } else {
-- 
2.43.0


From 4354ed9d7c3c4a0fc646b48a3582cb90b3eeb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 58/70] fix: reading an XML file without its end terminates the
 program

---
 include/BlasBooster/Utilities/FileIO.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index cd2dc75..8fec3c4 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -19,6 +19,13 @@ void readXML( T& settings, const std::string& name, const boost::filesystem::pat
     std::ifstream in(filename.string().c_str());
     boost::archive::xml_iarchive ia(in);
     ia >> boost::serialization::make_nvp(name.c_str(),settings);
+
+    // The archive reads the end of the document on destruction and must not fail then
+    const std::streampos position(in.tellg());
+    std::string end;
+    if (!std::getline(in >> std::ws, end, '>') or in.eof() or end != "</boost_serialization")
+        throw BlasBoosterException("readXML: " + filename.string() + " is incomplete");
+    in.seekg(position);
 }
 
 template <class T>
-- 
2.43.0


From 9fdc3f9cdb6c73f118ae020b15dfdbcaec492ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 59/70] fix: fixed storage releases its memory when it refuses
 values of another size

---
 include/BlasBooster/Core/Storage.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index a990605..032c938 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -146,7 +146,10 @@ public:
      : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Initializer list constructor is called.");
-        if ( values.size() != size_ ) throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
+        if ( values.size() != size_ ) {
+            delete [] data_;
+            throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
+        }
         size_t i(0);
         for ( auto val : values ) data_[i++] = val;
     }
@@ -174,7 +177,10 @@ public:
      : data_(new T[size_]), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Conversion constructor is called.");
-        if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
+        if ( rhs.size_ != size_ ) {
+            delete [] data_;
+            throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
+        }
         std::copy(rhs.begin(),rhs.end(),begin());
     }
 
-- 
2.43.0


From f969b921f6f01e6a54d15d69e19a58f646bedb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:15 +0000
Subject: [PATCH 60/70] fix: assignment of a fixed sparse storage copies the
 values

---
 include/BlasBooster/Core/SparseStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 58a582b..13fe5dd 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -36,7 +36,7 @@ public:
     /// Copy assignment operator
     SparseStorage& operator = ( const self& rhs ) {
 
-         if ( &rhs == this ) {
+         if ( &rhs != this ) {
              std::copy_n(rhs.begin(),rhs.size(),this->begin());
          }
 
-- 
2.43.0


From 97679e6fed913e74c00f6d9c9f6f2439917d730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 61/70] fix: leading dimensions of empty operands in Intel MKL
 products must be at least one

---
 include/BlasBooster/Core/Multiplication_IntelMKL.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index f162a06..a5c0a6d 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -32,6 +32,8 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char n = 'N';
         T alpha = 1.0;
         T beta = 0.0;
+        int LDA = std::max(1, static_cast<int>(A.getNbRows()));
+        int LDB = std::max(1, static_cast<int>(A.getNbColumns()));
 
         BlasInterface<IntelMKL, FuncType>()(
             &n,
@@ -41,12 +43,12 @@ struct MultiplicationFunctor<Dense,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             reinterpret_cast<const int*>(&A.nbColumns_),
             &alpha,
             const_cast<T*>(A.data_),
-            reinterpret_cast<const int*>(&A.nbRows_),
+            &LDA,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &LDB,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &LDA
         );
     }
 };
-- 
2.43.0


From f270bcdb406a3059a6fa1db53aa686471f470bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 62/70] fix: sparse times dense with Intel MKL must accept
 matrices without elements

---
 include/BlasBooster/Core/Multiplication_IntelMKL.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index a5c0a6d..0a52121 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -75,6 +75,8 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
         char matdescra[6] = {'G', 'L', 'N', 'F', 'X', 'X'};
         T alpha = 1.0;
         T beta = 0.0;
+        int LDB = std::max(1, static_cast<int>(A.getNbColumns()));
+        int LDC = std::max(1, static_cast<int>(A.getNbRows()));
 
         // TODO: Add parameter for index-base
         Matrix<Sparse, T, Parameter<size_t, RowMajor>> rmA(A);
@@ -97,14 +99,14 @@ struct MultiplicationFunctor<Sparse,T,P,Dense,T,P,Dense,T,P,IntelMKL>
             &alpha,
             matdescra,
             const_cast<T*>(rmA.value_.getDataPointer()),
-            &rmA_key[0],
-            &rmA_offset[0],
-            &rmA_offset[1],
+            rmA_key.data(),
+            rmA_offset.data(),
+            rmA_offset.data() + 1,
             const_cast<T*>(B.data_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
+            &LDB,
             &beta,
             C.data_,
-            reinterpret_cast<const int*>(&A.nbRows_)
+            &LDC
         );
     }
 };
-- 
2.43.0


From 78bf225ca052c50b0f1203b7caee8d8b89a06d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 63/70] fix: sparse times sparse with Intel MKL must compute
 the product of the compressed columns

---
 .../Core/Multiplication_IntelMKL.h            | 57 ++++++++++---------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index 0a52121..8467024 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -125,12 +125,11 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         >::type tracker;
 
         assert(A.getNbColumns() == B.getNbRows());
-        C.resize(A.getNbRows(), B.getNbColumns());
 
         char n = 'N';
         int request = 1;
         int sort = 8;
-        int info;
+        int info = 0;
 
         std::vector<int> A_key(A.key_.size());
         std::transform(A.key_.begin(), A.key_.end(), A_key.begin(), [](size_t value){
@@ -152,48 +151,54 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
             return ++value;
         });
 
-        std::vector<int> C_key(C.key_.size());
-        std::vector<int> C_offset(C.offset_.size());
+        // The compressed columns of a matrix are the compressed rows of its transpose: C^T = B^T * A^T
+        std::vector<int> C_offset(B.getNbColumns() + 1);
+        int nzmax = 0;
 
         BlasInterface<IntelMKL, FuncType>()(
             &n,
             &request,
             &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
             reinterpret_cast<const int*>(&B.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
+            reinterpret_cast<const int*>(&B.nbRows_),
+            reinterpret_cast<const int*>(&A.nbRows_),
             const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
+            B_key.data(),
+            B_offset.data(),
+            const_cast<T*>(A.value_.getDataPointer()),
+            A_key.data(),
+            A_offset.data(),
+            nullptr,
+            nullptr,
+            C_offset.data(),
+            &nzmax,
             &info
         );
         assert(info == 0);
 
+        nzmax = C_offset.back() - 1;
+        C.resize(A.getNbRows(), B.getNbColumns(), nzmax);
+        C.truncate(nzmax);
+        std::vector<int> C_key(nzmax);
+
         request = 2;
         BlasInterface<IntelMKL, FuncType>()(
             &n,
             &request,
             &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
             reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
+            reinterpret_cast<const int*>(&B.nbRows_),
+            reinterpret_cast<const int*>(&A.nbRows_),
             const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
-            const_cast<T*>(C.value_.getDataPointer()),
-            &C_key[0],
-            &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
+            B_key.data(),
+            B_offset.data(),
+            const_cast<T*>(A.value_.getDataPointer()),
+            A_key.data(),
+            A_offset.data(),
+            C.value_.getDataPointer(),
+            C_key.data(),
+            C_offset.data(),
+            &nzmax,
             &info
         );
         assert(info == 0);
-- 
2.43.0


From 4ea4f3b37afc7245a20151a4d52f14e8804b93c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 64/70] fix: copying elements into a matrix keeps its old norm
 and occupation

---
 include/BlasBooster/Core/Copy.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Copy.h b/include/BlasBooster/Core/Copy.h
index d89d740..c2d208d 100644
--- a/include/BlasBooster/Core/Copy.h
+++ b/include/BlasBooster/Core/Copy.h
@@ -26,6 +26,7 @@ void copy(Matrix<Dense,T1,P1> const& source, Matrix<Dense,T2,P2>& dest)
             *destColumnCur = *sourceColumnCur;
         }
     }
+    dest.resetCaches();
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 766951898772b50891de7f48f87073952d64143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 65/70] fix: a refused sum of two matrices replaces the old one

reset stored matrices of different shapes before it refused them.
---
 include/BlasBooster/Core/MultipleMatrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index 788dedb..f586627 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -48,14 +48,14 @@ struct MultipleMatrix
     void reset(std::shared_ptr<T1> const& ptrT1 = std::shared_ptr<T1>(),
         std::shared_ptr<T2> const& ptrT2 = std::shared_ptr<T2>()
     ){
-        ptrT1_ = ptrT1;
-        ptrT2_ = ptrT2;
-
-        if (ptrT1_ and ptrT2_)
+        if (ptrT1 and ptrT2)
         {
-            if (ptrT1_->getNbRows() != ptrT2_->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
-            if (ptrT1_->getNbColumns() != ptrT2_->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbRows() != ptrT2->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbColumns() != ptrT2->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
         }
+
+        ptrT1_ = ptrT1;
+        ptrT2_ = ptrT2;
     }
 
     typename T1::IndexType getNbRows() const { return ptrT1_->getNbRows(); }
-- 
2.43.0


From 9c5303b234cf46b05c34224fc38207e4ba80ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 66/70] fix: a dense matrix has a new shape and old elements
 after a failed assignment

The dimensions were assigned before the storage, whose memory may not be available, and reading the matrix then left its memory.
---
 include/BlasBooster/Core/DenseMatrix.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index c567300..6577611 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -210,8 +210,17 @@ public: // member functions
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (self const& other) = default;
+    /// Copy assignment operator
+    /// The storage is assigned first, because it is left unchanged if its memory can not be allocated.
+    Matrix& operator = (self const& other) {
+        storage::operator=(other);
+        dimension::operator=(other);
+        leadingDimension::operator=(other);
+        unblockedDimension::operator=(other);
+        NormPolicy<self, typename P::NormType>::operator=(other);
+        OccupationPolicy<self>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (self&& rhs) BLASBOOSTER_NOEXCEPT {
-- 
2.43.0


From c0200dbd9b7ed681df66fbbc3355bba34ac37993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:22 +0000
Subject: [PATCH 67/70] fix: a sparse matrix is torn after a failed assignment
 or resize

Dimensions, values, indices and offsets were replaced one after another, although the memory of a later one may not be available.
---
 include/BlasBooster/Core/SparseMatrix.h  | 18 ++++++++++++------
 include/BlasBooster/Core/SparseStorage.h | 18 +++++++++++++++---
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a19c01d..ff5ddb8 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -98,8 +98,15 @@ public:
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (Matrix const& other) = default;
+    /// Copy assignment operator
+    /// The storage is assigned first, because it is left unchanged if its memory can not be allocated.
+    Matrix& operator = (Matrix const& other) {
+        storage::operator=(other);
+        dimension::operator=(other);
+        NormPolicy<Matrix<Sparse,T,P>, typename P::NormType>::operator=(other);
+        OccupationPolicy<Matrix<Sparse,T,P>>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (Matrix&& rhs)
@@ -305,10 +312,9 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
-    this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1);
+    const dimension dim(nbRows, nbColumns);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, dim.getMinorDimension() + 1);
+    dimension::operator=(dim);
     resetCaches();
 }
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 13fe5dd..55ab40d 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -112,10 +112,22 @@ public:
        offset_(rhs.offset_)
     {}
 
+    SparseStorage(self const& rhs) = default;
+    SparseStorage(self&& rhs) = default;
+    SparseStorage& operator = (self&& rhs) = default;
+
+    /// Copy assignment, all arrays or none
+    SparseStorage& operator = (self const& rhs) {
+        if (this != &rhs) *this = self(rhs);
+        return *this;
+    }
+
+    /// Resize all arrays or none
     void resize(IndexType nbOfValues, IndexType nbOfOffsets) {
-        value_.resize(nbOfValues);
-        key_.resize(nbOfValues);
-        offset_.resize(nbOfOffsets);
+        self resized(nbOfValues, nbOfOffsets);
+        if (value_.size() != resized.value_.size() or nbOfValues == 0) swap(value_, resized.value_);
+        if (key_.size() != resized.key_.size() or nbOfValues == 0) swap(key_, resized.key_);
+        if (offset_.size() != resized.offset_.size()) swap(offset_, resized.offset_);
     }
 
     /// Keep only the first values and keys
-- 
2.43.0


From 51c2f2404c39405491d5bc8e926dacd91156ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:47 +0000
Subject: [PATCH 68/70] fix: sums and differences leave matrices over
 caller-owned memory alone

The result was assigned from an operand, which makes it a proxy of the
same memory, and then changed in place.
---
 include/BlasBooster/Core/BinaryFunctors.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 19021aa..2cd5663 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -265,7 +265,8 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyBCur, iterKeyBEnd;
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetBCur(B.beginOffset()), iterOffsetBEnd(B.endOffset() - 1);
 
-        C = A;
+        // A copy with memory of its own, because assignment shares the memory of a proxy matrix.
+        C = Matrix<Dense,T3,P3>(A);
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
@@ -301,7 +302,7 @@ struct BinaryOperationFunctor<Operation,M,T,P,Zero,NullType,P,M,T,P>
 {
     void operator () (Matrix<M,T,P> const& A, Matrix<Zero,NullType,P> const& B, Matrix<M,T,P>& C)
     {
-        C = A;
+        C = Matrix<M,T,P>(A);
     }
 };
 
@@ -311,7 +312,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
 {
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
-        C = B;
+        C = Matrix<M,T,P>(B);
         for (auto& value : C) UnaryOperation<Operation>()(value, value);
         C.resetCaches();
     }
-- 
2.43.0


From c592bc1d5a948c6b715dac9679120e5737588a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:27 +0000
Subject: [PATCH 69/70] fix: initializer lists with rows of different length
 are refused

---
 include/BlasBooster/Core/DenseMatrix.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 6577611..0fe33e1 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -404,9 +404,12 @@ template <class T, class P>
 template <class U>
 Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > values,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
- : dimension(values.size(),values.begin()->size()),
-   storage(values.size() * values.begin()->size())
+ : dimension(values.size(),values.size() ? values.begin()->size() : 0),
+   storage(this->getSize())
 {
+    for (auto const& row : values)
+        if (row.size() != this->getNbColumns()) throw std::runtime_error("wrong dimension");
+
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
 
-- 
2.43.0


From 822f94dbab16af9f7837fdbab63fa07648388f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:11 +0000
Subject: [PATCH 70/70] fix: initializer lists of blocks which do not form a
 grid are refused

---
 include/BlasBooster/Core/DenseMatrix.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0fe33e1..08cad74 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -429,9 +429,13 @@ template <class T, class P>
 template <class U>
 Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > values,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
- : dimension(values.size(),values.begin()->size()),
-   storage(values.size() * values.begin()->size())
+ : dimension(values.size(),values.size() ? values.begin()->size() : 0),
+   storage(this->getSize())
 {
+    for (auto const& row : values)
+        if (row.size() != this->getNbColumns()) throw std::runtime_error("wrong dimension");
+    if (this->getSize() == 0) return;
+
     typedef Cursor<Matrix<Dense,T,P>, Direction::Row> RowCursor;
     typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
 
@@ -448,6 +452,8 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
         {
             *columnCur = *val2;
             if (ubRowsTmp != getNbRows(*val2)) throw std::runtime_error("wrong sub-dimension");
+            // The blocks of a column have the same width
+            if (getNbColumns(values.begin()->begin()[val2 - val1->begin()]) != getNbColumns(*val2)) throw std::runtime_error("wrong sub-dimension");
             ubColumnsTmp += getNbColumns(*val2);
         }
         this->ubColumns_ = ubColumnsTmp;
-- 
2.43.0

