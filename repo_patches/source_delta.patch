From c89c4ecdc2048b20694d6c228b967256b518ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 01/56] fix: max() of vectors and matrices with only negative
 entries

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..1fd2748 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -761,7 +761,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 7fdc6d0bd097ead217b99df1d4827161a583c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/56] fix: left(), right() and mid() of dynamic vectors abort

---
 src/lib/Vector.inl | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..9affffa 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -92,25 +92,37 @@ Vector<T,DC> Vector<T,DC>::normalized() const
 }
 
 // Boolean set operations
-// NOT WORKING
+template<typename T>
+inline void resize_container(dynamic_container_t<T>& c, Dimension size)
+{
+	c.resize(size, (T)0);
+}
+
+// Fixed containers keep their size, unused entries are 0
+template<typename T, Dimension N>
+inline void resize_container(fixed_container_t<T,N>&, Dimension)
+{
+}
+
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::left(Index i) const
 {
 	NS_ASSERT(i < this->size());
-	Vector<T,DC> tmp;//Size i+1
+	Vector<T,DC> tmp;
+	resize_container(tmp.mData, i + 1);
 	for (Index j = 0; j < i + 1; ++j)
 		tmp.set(j, at(j));
 
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::right(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	
-	Vector<T,DC> tmp;//(this->size() - i)
+	Vector<T,DC> tmp;
+	resize_container(tmp.mData, this->size() - i);
 
 	for (Index j = i; j < this->size(); ++j)
 		tmp.set(j - i, at(j));
@@ -118,13 +130,14 @@ Vector<T,DC> Vector<T,DC>::right(Index i) const
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::mid(Index start, Index end) const
 {
 	NS_ASSERT(start < end);
 
-	Vector<T,DC> tmp;//(end-start)
+	Vector<T,DC> tmp;
+	const Index last = end < this->size() ? end : this->size();
+	resize_container(tmp.mData, start < last ? last - start : 0);
 	for (Index i = start; i < end && i < this->size(); ++i)
 		tmp.set(i - start, at(i));
 
-- 
2.43.0


From d479230e99f22125b0d1d0e15b8d75712650dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 03/56] fix: magnitude of complex vectors is not a norm
 (solvers stop too early)

---
 src/lib/Vector.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 9affffa..ce35eb7 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -82,7 +82,11 @@ T Vector<T,DC>::mag() const
 template<typename T, class DC>
 T Vector<T,DC>::magSqr() const
 {
-	return dot(*this);
+	T s = 0;
+	for (Index i = 0; i < this->size(); ++i)
+		s += complex_conj(at(i)) * at(i);// Hermitian, otherwise it would not be a norm
+
+	return s;
 }
 
 template<typename T, class DC>
-- 
2.43.0


From f45fecaf54c047fa41a61467107b0fb7ab24c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 04/56] fix: elementwise matrix operators accept operands of
 different shape

---
 src/lib/matrix/DenseMatrix.inl  | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 1fd2748..0085bb0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -644,6 +644,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -653,6 +656,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
@@ -662,6 +668,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 	{
 		bool found;
-- 
2.43.0


From ab291a25f1f02684ae694475919ef01384d60079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 05/56] fix: swap() of sparse matrices forgets the column count

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 0085bb0..80acdad 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -841,6 +841,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From d4e1e2b6a97aefb053eeb1992accaffa56d86ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 06/56] fix: column iteration of an empty column aborts

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 80acdad..d2cfab0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From 8f44ea55fd1199c6cce9253dd638112d9ef6cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 07/56] fix: erase() of sparse matrices returns a wrong row if
 rows become empty

---
 src/lib/matrix/SparseMatrix.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index d2cfab0..ea6752c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -622,8 +622,7 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 			{
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
-					nIt.mIndex1 = s1;// New row
-					break;
+					nIt.mIndex1 = s1;// New row (the last match, the others are empty)
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From ab8981fdf12fb873e681e74e1c001129f2637d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 08/56] fix: products of sparse matrices store zeros and poison
 the shared empty entry

---
 src/lib/matrix/SparseMatrix.inl | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index ea6752c..ac5c1dc 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -670,21 +670,19 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 	if (rows() != v2.rows() || columns() != v2.columns())
 		throw MatrixSizeMismatchException();
 
-	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
-	{
-		bool found;
-		Index tmp;
-		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
-
-		val *= *it;
-	}
-
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
-		if (!v2.has(it.row(), it.column()))// O(D2)
+		T val = (T)0;
+		if (v2.has(it.row(), it.column(), val))// O(D2)
+			val *= *it;
+
+		if (val == (T)0)
 			it = erase(it);// O(D1*D2)
 		else
+		{
+			*it = val;
 			++it;
+		}
 	}
 
 	return *this;
@@ -701,8 +699,14 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
-		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
+		for (auto it = begin(); it != end();)// O(D1*D2)
+		{
 			*it *= f; // O(1)
+			if (*it == (T)0)// Underflow
+				it = erase(it);
+			else
+				++it;
+		}
 	}
 
 	return *this;
-- 
2.43.0


From 957d3cc41e4dafa1ad824c879fcc3aa0f9bbb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/56] fix: subtracting a sparse matrix from itself

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index ac5c1dc..64e450e 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -658,6 +658,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 	if (rows() != v2.rows() || columns() != v2.columns())
 		throw MatrixSizeMismatchException();
 
+	if (this == &v2)// Entries get removed while iterating
+		return *this -= SparseMatrix<T>(v2);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 95cf663ee9cde5e3b1bef7991d3f59c610bec484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 10/56] fix: conjugate() and adjugate() of fixed matrices do
 not compile

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From a164dcc79bea2e8030004483c5d5103322a3d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 11/56] fix: matrix converter does not compile

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From fdd07646c7308d7e0e74b2ffbcaed10aa0ec6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 12/56] fix: inverse_permutation() is defined in every
 translation unit

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..60e2e3c 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -114,7 +114,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From fd2a19d394905ca94a099607491132e1fbcc91fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 13/56] fix: cuthill_mckee() drops empty rows and returns no
 permutation

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 60e2e3c..5e1eda1 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From 183526b0a3be1d5cab6aa0a23c55d0df2377f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 14/56] fix: permutate() applies the inverse permutation to
 vectors

---
 src/lib/matrix/MatrixOrder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 5e1eda1..1e7998b 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -143,7 +143,7 @@ DynamicVector<T> permutate(const DynamicVector<T>& m, const DynamicVector<Index>
 
 	DynamicVector<T> nm(m.size());
 	for(Index i = 0; i < m.size(); ++i)
-		nm.set(permutation[i], m[i]);
+		nm.set(i, m[permutation[i]]);// Same as permutation_matrix * m
 
 	return nm;
 }
-- 
2.43.0


From b02465f9d9fa08997f0874603c6b059ee52eb4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 15/56] fix: doolittle() leaks its row table on singular
 matrices

---
 src/lib/LU.inl | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..07ab032 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,7 +63,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -127,8 +127,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +144,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +209,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 8a9adc31b25bc6a3ef7d7c78fd021ac11b6c969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 16/56] fix: doolittle() keeps old content of dense output
 matrices (dense inverse is wrong)

---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 07ab032..7db70ea 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -66,6 +66,12 @@ namespace LU {
 			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
+				for (Index j = 0; j < n; ++j)// Previous content should not survive
+				{
+					L.set(i, j, (T)0);
+					P.set(i, j, (T)0);
+				}
+
 				L.set(i, i, (T)1);
 				rowTable[i] = i;
 			}
-- 
2.43.0


From 89b4c8f4d8c7b694b53c1b50b605f1f0135211fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 17/56] fix: doolittle() leaves rounding errors below the
 diagonal of U

---
 src/lib/LU.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 7db70ea..6df50dc 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -125,7 +125,8 @@ namespace LU {
 				{
 					L.set(j,k, U.at(j,k)*invMid);
 
-					for(Index t = k; t < n; ++t)
+					U.set(j,k, (T)0);// Eliminated, do not leave rounding errors below the diagonal
+					for(Index t = k+1; t < n; ++t)
 						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
 				}
 			}
@@ -206,7 +207,8 @@ namespace LU {
 				{
 					L.set(j,k, U.at(j,k)*invMid);
 
-					for(Index t = k; t < n; ++t)
+					U.set(j,k, (T)0);// Eliminated, do not leave rounding errors below the diagonal
+					for(Index t = k+1; t < n; ++t)
 						U.set(j,t, U.at(j,t) - L.at(j,k)*U.at(k,t));
 				}
 			}
-- 
2.43.0


From 12087ebb15d3e3b2f73716a6c0294de8234c8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 18/56] fix: inverse(L,U) scales only the diagonal

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From 198c32050066f25570a3b955957f43f8c9d6fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 19/56] fix: cholesky() of complex hermitian and semidefinite
 matrices, and with reused output

---
 src/lib/LU.inl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 6df50dc..163d3b6 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -27,19 +27,22 @@ namespace LU {
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!(std::real(s) > 0))
 					throw NotPositiveDefiniteException();
 
-				L.set(j, j, std::sqrt(s));
-				for (Index i = j; i < L.rows(); ++i)
+				for (Index i = 0; i < j; ++i)
+					L.set(i, j, (T)0);
+
+				L.set(j, j, std::sqrt(std::real(s)));
+				for (Index i = j + 1; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 9b1dd384454453b7f7640900e559ab032a83e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 20/56] fix: ainv_lu() divides by the diagonal twice, skips
 rows and depends on old output

---
 src/lib/LU.inl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 163d3b6..e74c53d 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -354,7 +354,7 @@ namespace LU {
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -367,11 +367,14 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
+				if(std::abs(U.at(k,k)) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
+					throw SingularException();
+
+				invU.set(k,k, (T)1/U.at(k,k));
 				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k; i-- > 0;)
 				{
-					T m = invU.at(i,k);
+					T m = (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
@@ -385,9 +388,6 @@ namespace LU {
 						throw SingularException();
 
 					invU.set(i,k, m/mid);
-
-					if(i == 0)
-						break;
 				}
 			}
 		}
-- 
2.43.0


From 1a50f1b6b8c141de0ad3b5ca5a1ec3f887628c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 21/56] fix: ilu0() keeps old content of the output matrices

---
 src/lib/LU.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index e74c53d..40522df 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -249,6 +249,8 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(M.rows(), M.columns());
+			U = SparseMatrix<T>(M.rows(), M.columns());
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
-- 
2.43.0


From b63cc314d7f8ad9832810383d44b9e2a57aab9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 22/56] fix: cg() builds the search direction from the residual

---
 src/lib/CG.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..f80d5e0 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -42,7 +42,7 @@ namespace CG {
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
-- 
2.43.0


From b1855ac1b81f5c6fb6a7c7cf3ca8656836ce7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 23/56] fix: cg() and pcg() return NaN for an exact initial
 guess and miscount zero iterations

---
 src/lib/CG.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index f80d5e0..5cb268a 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -27,6 +27,14 @@ namespace CG {
 
 			typename V2::value_type rs = r.magSqr();
 
+			if (maxIter == 0 || rs <= eps2)// Nothing to do
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
+
 			V2 l;
 			size_t k = 0;
 			for (; k < maxIter; ++k)
@@ -37,7 +45,7 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
+				if (ls <= eps2 || k == maxIter-1)
 					break;
 
 				const typename V2::value_type bk = ls / rs;
@@ -75,6 +83,15 @@ namespace CG {
 
 			V1 x = x0;
 			V2 r = b - a.mul(x0);
+
+			if (maxIter == 0 || r.magSqr() <= eps2)// Nothing to do
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
+
 			V2 z = c.mul(r);
 			V2 p = z;
 
@@ -88,7 +105,7 @@ namespace CG {
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
+				if (r.magSqr() <= eps2 || k == maxIter-1)
 					break;
 
 				z = c.mul(r);
-- 
2.43.0


From 906deea23843d0b123c18b8a2f77ba91cd890b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 24/56] fix: jacobi() and sor() return infinite values for a
 zero in the diagonal

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..4bf6d90 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -100,6 +103,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From 063ff2d5f2bc865c300ac55d462cea36d0db1703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 25/56] fix: sor() ignores the initial guess in the relaxation
 of the first sweep

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4bf6d90..ef9b9a0 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -85,7 +85,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From 74eba805dbff802b91e41bed218c7236ba8d510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 26/56] fix: clearing or destroying a mesh leaks its edges and
 keeps stale ones

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..e09048e 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From b905850d26d3d477f17002f53734d0f90be26134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 27/56] fix: self assignment of a mesh destroys it

---
 src/lib/mesh/Mesh.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e09048e..4a89737 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -77,6 +77,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -97,6 +100,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From a92c0bb8dd0b40a220648e01fd9e38f3f68d4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 28/56] fix: last vertex of a new mesh edge is uninitialized

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 4a89737..64b46e5 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From 4fab9739f4fe96d256a2d1f57af84b9109fee70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 29/56] fix: copies of a mesh handle race on the reference
 count

---
 src/lib/mesh/Mesh.h   | 3 ++-
 src/lib/mesh/Mesh.inl | 9 +++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lib/mesh/Mesh.h b/src/lib/mesh/Mesh.h
index 22d9775..1e84dc5 100644
--- a/src/lib/mesh/Mesh.h
+++ b/src/lib/mesh/Mesh.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Simplex.h"
+#include <atomic>
 #include <unordered_set>
 #include <unordered_map>
 
@@ -108,7 +109,7 @@ private:
 		MeshElementList Elements;
 		MeshVertexList Vertices;
 		MeshEdgeList Edges;
-		size_t Refs;
+		std::atomic<size_t> Refs;
 	}* mData;
 };
 
diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 64b46e5..d613534 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -65,8 +65,7 @@ Mesh<T,K>::~Mesh()
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
@@ -83,8 +82,7 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
@@ -106,8 +104,7 @@ Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-		mData->Refs--;
-		if(mData->Refs == 0)
+		if(--mData->Refs == 0)
 		{
 			clear();
 			delete mData;
-- 
2.43.0


From 46e9de66be59bbae298c366a84dd820f6abeb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 30/56] fix: center() of simplices is only right for unit
 triangles at the origin

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..768395e 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return mVertices[0] + v / ((T)2 * mDeterminant);
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From d295804e5ba0bcf7d186146dbc923f53f7867935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 31/56] fix: HyperCube swaps the element counts of non-square
 grids

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From da1f7d3da3cb481a93f32db8b69d9dbc809eb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 32/56] fix: binom(n,k) does not terminate for k > n and
 overflows for large n

---
 src/lib/Utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..98e8f06 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -45,7 +45,10 @@ namespace Math
 		if (k == 0)
 			return 1;
 
-		if (2 * (T)k > n)//Really cast to T? What is with signed?
+		if ((k_t)n < k)
+			return 0;
+
+		if (k > (k_t)n - k)
 			return binom(n, static_cast<k_t>(n - k));
 
 		T v = n - k + 1;
-- 
2.43.0


From 8d7bcfc2d3ad20c4f7cf883bd729a337ddbb6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 33/56] fix: components of the quadratic line element are not
 in the documented node order

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..01f279e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From 6d90a822f0e787d18add8211d48f1e354afc19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 34/56] fix: weighted gradient of linear triangles contains the
 weight of the constant term

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 01f279e..12aa32b 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From ca017ad364a05ae186d6bf7ddf2d5a7abe91ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 35/56] fix: second derivative in y of cubic triangles uses the
 wrong coordinate

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 12aa32b..495ebdc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 05e630c2a582dbd453799ae1fab6e1473c997575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 36/56] fix: wrong number of degrees of freedom aborts cubic
 triangles and quadratic tetrahedra

---
 src/lib/sf/PolyShapeFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..e38b63d 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,7 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	static constexpr Dimension DOF = Math::factorial(K+Order)/(Math::factorial(K)*Math::factorial(Order));
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 6bebf2f514bc19271febcd9603866a12c4e5f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 37/56] fix: exporting a mesh without point data dereferences
 the end of the map

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..231c68a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From b5606a5440d60fab86ed4a76c71af81cb2f93591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 38/56] fix: exported element gradients declare too many
 components

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 231c68a..bc227c0 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -157,7 +157,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From 338aa80e3b655fbb9e94137e6357a301f6b948b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 39/56] fix: Triangle loader accepts truncated and inconsistent
 files and reads out of bounds

---
 src/lib/loader/MeshTriangleLoader.h   |   8 +-
 src/lib/loader/MeshTriangleLoader.inl | 125 ++++++++++++++------------
 2 files changed, 71 insertions(+), 62 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..530ac76 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -24,11 +24,11 @@ private:
 		std::string::const_iterator end);
 	
 	template<typename T2>
-	static T2 extractFirstNumber(std::string::const_iterator& it,
-		std::string::const_iterator end);
+	static bool extractFirstNumber(std::string::const_iterator& it,
+		std::string::const_iterator end, T2& number);
 
-	static void setupNode(Mesh<T,2>& mesh, const std::string& nodeStr);
-	static void setupElement(Mesh<T,2>& mesh, const std::string& eleStr);
+	static size_t setupNode(Mesh<T,2>& mesh, const std::string& nodeStr);// Returns the index of the first node
+	static void setupElement(Mesh<T,2>& mesh, const std::string& eleStr, size_t indexShift);
 };
 
 NS_END_NAMESPACE
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..bfe7c33 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -20,18 +20,19 @@ Mesh<T,2> MeshTriangleLoader<T>::loadString(const std::string& nodeStr, const st
 {		
 	Mesh<T,2> mesh;
 
-	setupNode(mesh, nodeStr);
-	setupElement(mesh, eleStr);
+	const size_t indexShift = setupNode(mesh, nodeStr);
+	setupElement(mesh, eleStr, indexShift);
 	mesh.setupNeighbors();
 
 	return mesh;
 }
 
 template<typename T>
-void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeStr)
+size_t MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeStr)
 {
 	uint32 parseMode = 0;
-	uint32 indexShift = 1;
+	size_t indexShift = 1;
+	size_t nodes = 0;
 	size_t nextIndex = 0;
 
 	std::istringstream f(nodeStr);
@@ -46,54 +47,59 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			int dimension;
+			if(!extractFirstNumber(it, line.end(), nodes) || nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			if(!extractFirstNumber(it, line.end(), dimension) || dimension != 2)
 				throw LoadTriangleNodeErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveVertices(std::min(nodes, nodeStr.size()));// The given number can not be trusted
 			// Everything else is ignored!
 			parseMode = 1;
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index;
+			if(!extractFirstNumber(it, line.end(), index))
+				throw LoadTriangleNodeErrorException();
+
 			if(index == 0)
 				indexShift = 0;
 			
-			if(index-indexShift != nextIndex)
+			if(index-indexShift != nextIndex || nextIndex >= nodes)
 				throw LoadTriangleNodeErrorException();
-			nextIndex = index-indexShift + 1;
+			++nextIndex;
 			
+			T e1;
 			skipWS(it, line.end());
-			if(it == line.end())
+			if(!extractFirstNumber(it, line.end(), e1))
 				throw LoadTriangleNodeErrorException();
-			
-			T e1 = extractFirstNumber<T>(it, line.end());
 
+			T e2;
 			skipWS(it, line.end());
-			if(it == line.end())
+			if(!extractFirstNumber(it, line.end(), e2))
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
-
 			// Everything else is ignored
 
 			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});
 			mesh.addVertex(mv);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != nodes)
+		throw LoadTriangleNodeErrorException();
+
+	return indexShift;
 }
 
 template<typename T>
-void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& eleStr)
+void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& eleStr, size_t indexShift)
 {
 	uint32 parseMode = 0;
-	uint32 indexShift = 1;
+	size_t elements = 0;
 	size_t nextIndex = 0;
 
 	std::istringstream f(eleStr);
@@ -108,57 +114,55 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
-
-			if(nodes == 0)
+			int corners;
+			if(!extractFirstNumber(it, line.end(), elements) || elements == 0)
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			if(!extractFirstNumber(it, line.end(), corners) || corners != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveElements(std::min(elements, eleStr.size()));// The given number can not be trusted
 			// Everything else is ignored!
 			parseMode = 1;
 		}
-		else// Vertices
+		else// Elements
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
-			if(index == 0)
-				indexShift = 0;
-			
-			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
-			nextIndex = index-indexShift + 1;
+			size_t index;
+			if(!extractFirstNumber(it, line.end(), index))
+				throw LoadTriangleElementErrorException();
 			
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+			if(index-indexShift != nextIndex || nextIndex >= elements)
+				throw LoadTriangleElementErrorException();
+			++nextIndex;
 			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
-
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
-
-			skipWS(it, line.end());
-			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
-
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t vertices[3];
+			for(Index i = 0; i < 3; ++i)
+			{
+				skipWS(it, line.end());
+				if(!extractFirstNumber(it, line.end(), vertices[i]))
+					throw LoadTriangleElementErrorException();
+
+				vertices[i] -= indexShift;
+				if(vertices[i] >= mesh.vertices().size())
+					throw LoadTriangleElementErrorException();
+			}
+
+			if(vertices[0] == vertices[1] || vertices[1] == vertices[2] || vertices[2] == vertices[0])
+				throw LoadTriangleElementErrorException();
 
 			// Everything else is ignored
 
 			MeshElement<T,2>* me = new MeshElement<T,2>();
-			me->Vertices[0] = mesh.vertex(i1-indexShift);
-			me->Vertices[1] = mesh.vertex(i2-indexShift);
-			me->Vertices[2] = mesh.vertex(i3-indexShift);
+			for(Index i = 0; i < 3; ++i)
+				me->Vertices[i] = mesh.vertex(vertices[i]);
 
 			mesh.addElement(me);
 		}
     }
+
+	if(parseMode == 0 || nextIndex != elements)
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
@@ -181,15 +185,20 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 
 template<typename T>
 template<typename T2>
-T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
-	std::string::const_iterator end)
+bool MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
+	std::string::const_iterator end, T2& number)
 {
 	std::stringstream stream(std::string(start, end));
-	T2 ret = 0;
-	stream >> ret;
-	start += stream.tellg();
+	if(!(stream >> number))
+		return false;
+
+	if(stream.eof())
+		start = end;
+	else
+		start += stream.tellg();
 
-	return ret;
+	// The number has to be a word on its own
+	return start == end || *start == '#' || isspace(*start);
 }
 
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From a08c0c3b0364cf078ac3150a6364bb03f2d063ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 40/56] fix: OBJ loader aborts if the first shape has no
 triangle

---
 src/objloader/loader/MeshObjLoader.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..494abf8 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -46,6 +46,9 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 		const size_t vertexCount = shape.mesh.positions.size() / 3;
 		const size_t elementCount = shape.mesh.indices.size() / 3;
 
+		if(elementCount == 0)
+			break;
+
 		mesh.reserveVertices(vertexCount);
 		mesh.reserveElements(elementCount);
 
-- 
2.43.0


From d55cea639685322ced8822ed0f5755a7ffc4c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 41/56] fix: OBJ faces with less than two vertices are read out
 of bounds

---
 src/objloader/external/tiny_obj_loader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..21c51b8 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -628,6 +628,10 @@ static bool exportFaceGroupToShape(
   for (size_t i = 0; i < faceGroup.size(); i++) {
     const std::vector<vertex_index> &face = faceGroup[i];
 
+    if (face.size() < 2) {
+      continue; // Not a face
+    }
+
     vertex_index i0 = face[0];
     vertex_index i1(-1);
     vertex_index i2 = face[1];
-- 
2.43.0


From 7c24912b39e4ce3d48a70d3334d751f22a8ff6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 42/56] fix: OBJ faces with undefined vertices abort or are
 read out of bounds

---
 src/objloader/external/tiny_obj_loader.h | 35 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 21c51b8..e980ead 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -561,21 +561,19 @@ updateVertex(std::map<vertex_index, unsigned int> &vertexCache,
     return it->second;
   }
 
-  assert(in_positions.size() > static_cast<unsigned int>(3 * i.v_idx + 2));
-
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 0]);
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 1]);
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 2]);
 
   if ((i.vn_idx >= 0) &&
-      (static_cast<size_t>(i.vn_idx * 3 + 2) < in_normals.size())) {
+      (static_cast<size_t>(i.vn_idx) * 3 + 2 < in_normals.size())) {
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 0]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 1]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 2]);
   }
 
   if ((i.vt_idx >= 0) &&
-      (static_cast<size_t>(i.vt_idx * 2 + 1) < in_texcoords.size())) {
+      (static_cast<size_t>(i.vt_idx) * 2 + 1 < in_texcoords.size())) {
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 0]);
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 1]);
   }
@@ -609,6 +607,23 @@ static void InitMaterial(material_t &material) {
   material.unknown_parameter.clear();
 }
 
+// Checks if every face uses only already defined vertices
+static bool checkFaceGroup(
+    const std::vector<float> &in_positions,
+    const std::vector<std::vector<vertex_index> > &faceGroup, std::string &err) {
+  for (size_t i = 0; i < faceGroup.size(); i++) {
+    for (size_t j = 0; j < faceGroup[i].size(); j++) {
+      const int idx = faceGroup[i][j].v_idx;
+      if (idx < 0 || static_cast<size_t>(idx) >= in_positions.size() / 3) {
+        err += "Face with an undefined vertex.\n";
+        return false;
+      }
+    }
+  }
+
+  return true;
+}
+
 static bool exportFaceGroupToShape(
     shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
     const std::vector<float> &in_positions,
@@ -1114,6 +1129,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       }
 
       if (newMaterialId != material) {
+        if (!checkFaceGroup(v, faceGroup, err))
+          return false;
+
         // Create per-face material
         exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                material, name, true, flags, err );
@@ -1149,6 +1167,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // group name
     if (token[0] == 'g' && IS_SPACE((token[1]))) {
 
+      if (!checkFaceGroup(v, faceGroup, err))
+        return false;
+
       // flush previous face group.
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
@@ -1186,6 +1207,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // object name
     if (token[0] == 'o' && IS_SPACE((token[1]))) {
 
+      if (!checkFaceGroup(v, faceGroup, err))
+        return false;
+
       // flush previous face group.
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
@@ -1259,6 +1283,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // Ignore unknown command.
   }
 
+  if (!checkFaceGroup(v, faceGroup, err))
+    return false;
+
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
   if (ret) {
-- 
2.43.0


From 62b8e71100fb49f76efc4dbed845a836f042696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 43/56] fix: missing or very long names in OBJ and MTL files
 overflow the name buffers

---
 src/objloader/external/tiny_obj_loader.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index e980ead..1d12f1a 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -780,12 +780,12 @@ void LoadMtl(std::map<std::string, int> &material_map,
       InitMaterial(material);
 
       // set new mtl name
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       material.name = namebuf;
       continue;
@@ -1113,12 +1113,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // use mtl
     if ((0 == strncmp(token, "usemtl", 6)) && IS_SPACE((token[6]))) {
 
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       int newMaterialId = -1;
@@ -1144,12 +1144,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // load mtl
     if ((0 == strncmp(token, "mtllib", 6)) && IS_SPACE((token[6]))) {
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       std::string err_mtl;
@@ -1223,12 +1223,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       shape = shape_t();
 
       // @todo { multiple object name? }
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       name = std::string(namebuf);
 
@@ -1238,12 +1238,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 't' && IS_SPACE(token[1])) {
       tag_t tag;
 
-      char namebuf[4096];
+      char namebuf[4096] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       tag.name = std::string(namebuf);
 
@@ -1266,12 +1266,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_strings); ++i) {
-        char stringValueBuffer[4096];
+        char stringValueBuffer[4096] = "";
 
 #ifdef _MSC_VER
         sscanf_s(token, "%s", stringValueBuffer, (unsigned)_countof(stringValueBuffer));
 #else
-        sscanf(token, "%s", stringValueBuffer);
+        sscanf(token, "%4095s", stringValueBuffer);
 #endif
         tag.stringValues[i] = stringValueBuffer;
         token += tag.stringValues[i].size() + 1;
-- 
2.43.0


From 99aefe6b64fff5c7b9ccb589a7a76f9a2b224e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 44/56] fix: OBJ tags are read beyond the end of the line and
 allocate unchecked sizes

---
 src/objloader/external/tiny_obj_loader.h | 27 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 1d12f1a..05b7c45 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -490,6 +490,14 @@ static inline void parseFloat3(float &x, float &y, float &z,
   z = parseFloat(token);
 }
 
+// Skips the given amount of characters, but not the end of the string
+static inline void skipChars(const char *&token, size_t count) {
+  while (count > 0 && token[0] != '\0') {
+    token++;
+    count--;
+  }
+}
+
 static tag_sizes parseTagTriple(const char *&token) {
   tag_sizes ts;
 
@@ -508,7 +516,7 @@ static tag_sizes parseTagTriple(const char *&token) {
   token++;
 
   ts.num_strings = atoi(token);
-  token += strcspn(token, "/ \t\r") + 1;
+  skipChars(token, strcspn(token, "/ \t\r") + 1);
 
   return ts;
 }
@@ -1247,21 +1255,30 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 #endif
       tag.name = std::string(namebuf);
 
-      token += tag.name.size() + 1;
+      skipChars(token, tag.name.size() + 1);
 
       tag_sizes ts = parseTagTriple(token);
 
+      // Every value needs at least one character
+      if (ts.num_ints < 0 || ts.num_floats < 0 || ts.num_strings < 0 ||
+          static_cast<size_t>(ts.num_ints) > linebuf.size() ||
+          static_cast<size_t>(ts.num_floats) > linebuf.size() ||
+          static_cast<size_t>(ts.num_strings) > linebuf.size()) {
+        err += "Tag with invalid sizes.\n";
+        return false;
+      }
+
       tag.intValues.resize(static_cast<size_t>(ts.num_ints));
 
       for (size_t i = 0; i < static_cast<size_t>(ts.num_ints); ++i) {
         tag.intValues[i] = atoi(token);
-        token += strcspn(token, "/ \t\r") + 1;
+        skipChars(token, strcspn(token, "/ \t\r") + 1);
       }
 
       tag.floatValues.resize(static_cast<size_t>(ts.num_floats));
       for (size_t i = 0; i < static_cast<size_t>(ts.num_floats); ++i) {
         tag.floatValues[i] = parseFloat(token);
-        token += strcspn(token, "/ \t\r") + 1;
+        skipChars(token, strcspn(token, "/ \t\r") + 1);
       }
 
       tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
@@ -1274,7 +1291,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
         sscanf(token, "%4095s", stringValueBuffer);
 #endif
         tag.stringValues[i] = stringValueBuffer;
-        token += tag.stringValues[i].size() + 1;
+        skipChars(token, tag.stringValues[i].size() + 1);
       }
 
       tags.push_back(tag);
-- 
2.43.0


From c7eec9dd7b42985a224af2c2eac9163abfa42627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 45/56] fix: exponent of OBJ numbers overflows

---
 src/objloader/external/tiny_obj_loader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 05b7c45..69c5b6a 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -446,8 +446,10 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
 
     read = 0;
     while ((end_not_reached = (curr != s_end)) && IS_DIGIT(*curr)) {
-      exponent *= 10;
-      exponent += static_cast<int>(*curr - 0x30);
+      if (exponent < 10000) { // Out of the range of double anyway
+        exponent *= 10;
+        exponent += static_cast<int>(*curr - 0x30);
+      }
       curr++;
       read++;
     }
-- 
2.43.0


From d11b8934341cca7b8b7c0ba180e30f1503f021bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 46/56] fix: OBJ shapes without faces after their last material
 change are lost

---
 src/objloader/external/tiny_obj_loader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 69c5b6a..93ee3f5 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -1184,7 +1184,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1224,7 +1224,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || !shape.mesh.indices.empty()) {
         shapes.push_back(shape);
       }
 
@@ -1307,7 +1307,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
-  if (ret) {
+  if (ret || !shape.mesh.indices.empty()) {
     shapes.push_back(shape);
   }
   faceGroup.clear(); // for safety
-- 
2.43.0


From 05afa25ed5d277f14eea5f9dd88e63133728e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 47/56] fix: scaling or shifting by an element of the same
 vector or matrix used the already changed element

---
 src/lib/Vector.inl              | 9 ++++++---
 src/lib/matrix/DenseMatrix.inl  | 3 ++-
 src/lib/matrix/FixedMatrix.inl  | 3 ++-
 src/lib/matrix/SparseMatrix.inl | 3 ++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index ce35eb7..7fbc26f 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -174,8 +174,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator +=(const T& v)
 {
+	const T f = v;// v may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] += f;
 
@@ -195,8 +196,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator -=(const T& v)
 {
+	const T f = v;// v may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] -= f;
 
@@ -216,8 +218,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator *=(const T& v)
 {
+	const T f = v;// v may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] *= f;
 
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..ae78a85 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -95,8 +95,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 }
 
 template<typename T>
-DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
+DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& v)
 {
+	const T f = v;// v may be an element of this matrix
 	for (Index i = 0; i < this->size(); ++i)
 		this->mValues.Container[i] *= f;
 
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..2523aa5 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -74,8 +74,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 }
 
 template<typename T, Dimension K1, Dimension K2>
-FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
+FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& v)
 {
+	const T f = v;// v may be an element of this matrix
 	for (Index i = 0; i < this->size(); ++i)
 		this->mValues.Container[i] *= f;
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 64e450e..fa334d6 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -692,8 +692,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 }
 
 template<typename T>
-SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
+SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& v)
 {
+	const T f = v;// v may be an element of this matrix
 	if (f == (T)0)
 	{
 		mValues.clear();
-- 
2.43.0


From 833dd1e364c91613d818a3e3fbe8cf733f49b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 48/56] fix: average of integer matrices with a negative sum is
 computed unsigned

---
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..b73147f 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -398,7 +398,7 @@ T BaseMatrix<T,DC>::min() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::avg() const
 {
-	return sum() / size();
+	return sum() / (T)size();
 }
 
 template<typename T, class DC>
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index fa334d6..9123fa0 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -809,7 +809,7 @@ T SparseMatrix<T>::min() const
 template<typename T>
 T SparseMatrix<T>::avg() const
 {
-	return sum() / size();// Overflow?
+	return sum() / (T)size();// Overflow?
 }
 
 template<typename T>
-- 
2.43.0


From bdc83236ff575f67d343189d919186dea172a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 49/56] fix: maximum and minimum of content with only infinite
 entries

---
 src/lib/CountableSet.inl        | 6 ++++--
 src/lib/matrix/BaseMatrix.inl   | 6 ++++--
 src/lib/matrix/SparseMatrix.inl | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index d584ebf..5fab126 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,8 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::lowest();
+	_t s = std::numeric_limits<_t>::has_infinity ?
+		-std::numeric_limits<_t>::infinity() : std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
@@ -92,7 +93,8 @@ T CountableSet<T, DC>::min() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::max();
+	_t s = std::numeric_limits<_t>::has_infinity ?
+		std::numeric_limits<_t>::infinity() : std::numeric_limits<_t>::max();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index b73147f..635587c 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,8 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::has_infinity ?
+		-std::numeric_limits<typename get_complex_internal<T>::type>::infinity() : std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
@@ -385,7 +386,8 @@ T BaseMatrix<T,DC>::max() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::min() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::max();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::has_infinity ?
+		std::numeric_limits<typename get_complex_internal<T>::type>::infinity() : std::numeric_limits<typename get_complex_internal<T>::type>::max();
 	for (auto l : mValues.Container)
 	{
 		if (l < s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 9123fa0..05f5465 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -777,7 +777,8 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::has_infinity ?
+		-std::numeric_limits<typename get_complex_internal<T>::type>::infinity() : std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
@@ -793,7 +794,8 @@ T SparseMatrix<T>::max() const
 template<typename T>
 T SparseMatrix<T>::min() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::max();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::has_infinity ?
+		std::numeric_limits<typename get_complex_internal<T>::type>::infinity() : std::numeric_limits<typename get_complex_internal<T>::type>::max();
 	for (auto l : mValues)
 	{
 		if (l < s)
-- 
2.43.0


From 8430469740778790a6b547a5e26b47218f3d0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 50/56] fix: NaN and infinity tests of complex matrices do not
 compile

---
 src/lib/matrix/BaseMatrix.inl   | 4 ++--
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 635587c..983d2ae 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -408,7 +408,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -420,7 +420,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 05f5465..274378b 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -819,7 +819,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -831,7 +831,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From c3de0d3ba4f921b1b088c3099a83878793bd5e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 51/56] fix: quotients of integer vectors and scalars are
 truncated to zero

---
 src/lib/Vector.inl | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 7fbc26f..fb1c359 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -240,11 +240,11 @@ Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator /=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator /=(const T& v)
 {
-	T invF = (T)1 / f;// TODO: NAN?
+	const T f = v;// v may be an element of this vector
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= invF;
+		this->mData[i] /= f;
 
 	return *this;
 }
@@ -336,9 +336,11 @@ Vector<T,DC> operator /(const Vector<T,DC>& v1, T f)
 template<typename T, class DC>
 Vector<T,DC> operator /(T f, const Vector<T,DC>& v1)
 {
-	Vector<T,DC>tmp = v1;
-	tmp.do_reciprocal();
-	return (tmp *= f);
+	Vector<T,DC> tmp = v1;
+	for (Index i = 0; i < tmp.size(); ++i)
+		tmp.set(i, f / v1.at(i));
+
+	return tmp;
 }
 
 // Comparison
-- 
2.43.0


From 52f754d7f914d7127efd75e024325612ebf2c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 52/56] fix: negation of complex vectors does not compile

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index fb1c359..a831cef 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -296,7 +296,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 38ed006a86ac901df96832135b68a49f354942d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 53/56] fix: conjugate gradients return NaN if the residual
 underflows

---
 src/lib/CG.inl | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 5cb268a..a1cd361 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -40,7 +40,16 @@ namespace CG {
 			for (; k < maxIter; ++k)
 			{
 				const auto t = a.mul(p);
-				const typename M::value_type ak = rs / (t.dot(p));
+				const auto tp = t.dot(p);
+				if (tp == 0) // Residual too small for a further step
+				{
+					if (it_stat)
+						*it_stat = k;
+
+					return x;
+				}
+
+				const typename M::value_type ak = rs / tp;
 				x += ak*p;
 				l = r - ak*t;
 
@@ -101,7 +110,16 @@ namespace CG {
 			for (; k < maxIter; ++k)
 			{
 				const auto t = a.mul(p);
-				const typename M::value_type ak = l1 / (t.dot(p));
+				const auto tp = t.dot(p);
+				if (tp == 0 || l1 == 0) // Residual too small for a further step
+				{
+					if (it_stat)
+						*it_stat = k;
+
+					return x;
+				}
+
+				const typename M::value_type ak = l1 / tp;
 				x += ak*p;
 				r -= ak*t;
 
-- 
2.43.0


From 198b425dd624e9db987ae3e420f8d1acac85717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 54/56] fix: unreadable Triangle files raise a stream exception
 instead of a mesh exception

---
 src/lib/loader/MeshTriangleLoader.inl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index bfe7c33..758da60 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -10,9 +10,15 @@ Mesh<T,2> MeshTriangleLoader<T>::loadFile(const std::string& nodeFile, const std
 	std::ifstream f1(nodeFile);
 	std::ifstream f2(eleFile);
 
-	return loadString(
-		std::string(std::istreambuf_iterator<char>(f1), std::istreambuf_iterator<char>()),
-		std::string(std::istreambuf_iterator<char>(f2), std::istreambuf_iterator<char>()));
+	std::stringstream nodes;
+	nodes << f1.rdbuf();// Sets the stream state on read errors
+	if(nodes.bad())
+		throw LoadTriangleNodeErrorException();
+	std::stringstream elements;
+	elements << f2.rdbuf();
+	if(elements.bad())
+		throw LoadTriangleElementErrorException();
+	return loadString(nodes.str(), elements.str());
 }
 
 template<typename T>
-- 
2.43.0


From 99b2b81fcec9ecc935cc7fd5e6639c85c1dc54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 55/56] fix: OBJ numbers without leading digit are read as zero

---
 src/objloader/external/tiny_obj_loader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 93ee3f5..b96095f 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -342,7 +342,7 @@ static inline int parseInt(const char *&token) {
 //   END     = ? anything not in digit ?
 //   digit   = "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" ;
 //   integer = [sign] , digit , {digit} ;
-//   decimal = integer , ["." , integer] ;
+//   decimal = integer , ["." , integer] | [sign] , "." , digit , {digit} ;
 //   float   = ( decimal , END ) | ( decimal , ("E" | "e") , integer , END ) ;
 //
 //  Valid strings are for example:
@@ -393,7 +393,7 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
   if (*curr == '+' || *curr == '-') {
     sign = *curr;
     curr++;
-  } else if (IS_DIGIT(*curr)) { /* Pass through. */
+  } else if (IS_DIGIT(*curr) || *curr == '.') { /* Pass through. */
   } else {
     goto fail;
   }
@@ -407,7 +407,7 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
   }
 
   // We must make sure we actually got something.
-  if (read == 0)
+  if (read == 0 && !(end_not_reached && curr[0] == '.' && IS_DIGIT(curr[1])))
     goto fail;
   // We allow numbers of form "#", "###" etc.
   if (!end_not_reached)
-- 
2.43.0


From 529c76b3243014e2a035e40cc75c85cb91a4fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 56/56] fix: real binomial is only accurate to double precision
 for long double

---
 src/lib/Utils.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index 98e8f06..ceaa331 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -68,8 +68,7 @@ namespace Math
 		T v = (T)1;
 		for (uint32 i = 0; i < k; ++i)
 		{
-			double inv = 1.0 / (i + 1);
-			v *= (n - (T)i) * (T)inv;
+			v *= (n - (T)i) / (T)(i + 1);
 		}
 
 		return v;
-- 
2.43.0

