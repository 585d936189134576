From 8a034677067e2882cde3f57c5dfc6e6addb21be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/79] fix: do not form a reference to element 0 of an empty
 resizable vector

---
 TooN/internal/allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..8099857 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -314,11 +314,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 	protected:
 
 		Precision* data() {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 		const Precision* data()const  {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 	private:
-- 
2.43.0


From 86ccf3736d65cbbb3eb51deca47abe36f0b16a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 02/79] fix: views of a resizable vector have the vector's
 current size

---
 TooN/internal/vbase.hh | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..22ff2b1 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -207,39 +207,41 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 		return slice<Dynamic, Dynamic>(start, length);
 	}
 		
-	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	//Other slices below. Views of resizable vectors can not be resized, so they are dynamic.
+	static const int ViewSize = Size==Resizable?Dynamic:Size;
+
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 3b658bfaa0210bfd7ecb4d97455b2a763b0e036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 03/79] fix: slice checks neither overflow nor skip resizable
 vectors

---
 TooN/internal/slice_error.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..f103641 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -105,12 +105,12 @@ namespace Internal
 
 			BadSlice<(Size != Dynamic && Size != Resizable && Start != Dynamic && Length != Dynamic && Start + Length > Size)>::check();
 			#ifndef TOON_NDEBUG_MISMATCH
-				if(Start != Dynamic && Size != Resizable && Start != start)
+				if(Start != Dynamic && Start != start)
 				{
 					std::cerr << "TooN slice: mismatch between static and dynamic start.\n";
 					std::abort();
 				}
-				if(Length != Dynamic && Size != Resizable && Length != length)
+				if(Length != Dynamic && Length != length)
 				{
 					std::cerr << "TooN slice: mismatch between static and dynamic length.\n";
 					std::abort();
@@ -121,9 +121,10 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Written so that no intermediate result can overflow
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Start>::n(start) > N<Size>::n(size) - N<Length>::n(length))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 86c9f3b65e77d0dbcb611cb3b9667e8baa393d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 04/79] fix: Fill of a single-column matrix goes down the
 column

---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..8f8dcaf 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -133,7 +133,7 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			return m.num_cols() == 1 ? MatrixFiller<1, R, C, P, B>(m, 0, 1, 0) : MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
 
-- 
2.43.0


From 91a048518718ec42194a3197a39e3c0085466eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 05/79] fix: Fill accepts a vector of one element

---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index 8f8dcaf..83bdfa9 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
-- 
2.43.0


From f0cf5a08c451f20ad630ec3a9f1520322268475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 06/79] fix: Data fills run-time-sized matrices

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From de8014891d6b85fc5a1468964e8acc393e1fcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 07/79] fix: Fill accepts resizable vectors

---
 TooN/internal/overfill_error.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 3d83895..52a2cab 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -61,6 +61,9 @@ template<int N> struct CheckOverFill<N, -1>
 	};
 };
 
+//Resizable vectors are checked at run time, like dynamic ones
+template<int N> struct CheckOverFill<N, Resizable>: public CheckOverFill<N, Dynamic>{};
+
 
 template<int N, int R, int C, bool IsDynamic=(R==-1||C==-1)> struct CheckMOverFill
 {
-- 
2.43.0


From 178758792cf0021db2faf32515b79bdcb60a6daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 08/79] fix: gaussian_elimination checks the shapes of its
 vector form

---
 TooN/gaussian_elimination.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..558db71 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -44,6 +44,9 @@ namespace TooN {
 		using std::swap;
 		using std::abs;
 
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
+
 		int size=b.size();
 
 		for (int i=0; i<size; ++i) {
-- 
2.43.0


From 10cf5d4197327cd06b8048fa6c2e6312a7e5dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 09/79] fix: negation works for every element type

---
 TooN/internal/operators.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..f6ae239 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -184,7 +184,7 @@ struct Operator<Internal::VNegate<S, P, A> > {
 	template<int S0, typename P0, typename A0>
 	void eval(Vector<S0, P0, A0> & res) const
 	{
-		res = input * -1;
+		res = input * static_cast<P>(-1);
 	}
 	int size() const { return input.size(); }
 };
@@ -292,7 +292,7 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 	template<int R0, int C0, typename P0, typename A0>
 	void eval(Matrix<R0,C0,P0,A0> & res) const
 	{
-		res = input * -1;
+		res = input * static_cast<P>(-1);
 	}
 	int num_rows() const { return input.num_rows(); }
 	int num_cols() const { return input.num_cols(); }
-- 
2.43.0


From 18d03213725bbe7e2d24a35b2bc37398c595ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 10/79] fix: scalar * matrix keeps the scalar's type

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index f6ae239..fd7067f 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From d07bfcccbeeedc74cf285c5627143db43942b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 11/79] fix: Ones and Identity can be subtracted like their
 scaled forms

---
 TooN/internal/objects.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..c88eebd 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -314,6 +314,14 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 			m[i][i] += (P)val;
 	}
 
+	template<int Rows, int Cols, typename P, typename B>
+	void minusequals(Matrix<Rows, Cols, P, B>& m) const
+	{
+		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
+		for(int i=0; i < m.num_rows(); i++)
+			m[i][i] -= (P)val;
+	}
+
 	template <int Rows, int Cols, typename P1, typename B1> 
 	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > add(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
@@ -322,10 +330,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +517,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From f13ff41434f9fa645ef80bfda8c704ef61818c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 12/79] fix: adding a scaled identity does not truncate the
 scale to the matrix's type

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index c88eebd..9f0919d 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += static_cast<P1>(s);
 	}
 	///@}
 
-- 
2.43.0


From f1ea9cbbb1583805848b17b07dc69c3fe4fa4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 13/79] fix: dividing Ones and Identity divides

---
 TooN/internal/objects.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 9f0919d..c4706f0 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -62,6 +62,18 @@ namespace Internal{
 	template<class Rhs> Rhs operator-(One, const Rhs& v){return 1-v;} ///<Subtracts something from One
 	template<class Lhs> Lhs operator-(const Lhs& v, One){return v-1;} ///<Subtracts One from something.
 
+	template<class Rhs> Rhs operator/(One, const Rhs& v){return 1/v;} ///<Divides One by something.
+
+	///Multiplying by a ScaleDown divides by its divisor, as type P.
+	///@ingroup gInternal
+	template<class P, class Divisor> struct ScaleDown
+	{
+		const Divisor& d;
+		ScaleDown(const Divisor& d_):d(d_){}
+	};
+	template<class L, class P, class D> P operator*(const L& l, const ScaleDown<P, D>& s){return static_cast<P>(l) / s.d;}
+	template<class P, class D> P operator*(One, const ScaleDown<P, D>& s){return static_cast<P>(1) / s.d;}
+
 	///Returns negative One.
 	inline int operator-(const One&)
 	{
@@ -700,7 +712,7 @@ template<template<class> class Op, class Pl, class Pr>
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template scale_me<typename Internal::DivideType<Pl, Pr>::type>(Internal::ScaleDown<typename Internal::DivideType<Pl, Pr>::type, Pr>(r)); 
 }
 
 
-- 
2.43.0


From 0ed37446517d0f478fec36baa747c2838e342fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 14/79] fix: a diagonal matrix is only assigned to matrices of
 its own shape

---
 TooN/internal/diagmatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..b24b2c6 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -76,7 +76,8 @@ namespace TooN {
 		///@{
 		template<int R, int C, class P, class B>
 		void eval(Matrix<R,C,P,B>& m) const {
-			SizeMismatch<Size, Size>::test(m.num_rows(), m.num_cols());
+			SizeMismatch<R, Size>::test(m.num_rows(), my_vector.size());
+		SizeMismatch<C, Size>::test(m.num_cols(), my_vector.size());
 			m = Zeros;
 			m.diagonal_slice() = my_vector;
 		}
-- 
2.43.0


From bb5a94ffbf2fbaed90cf3682627e86c00562bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 15/79] fix: diagonal_slice of a const diagonal matrix compiles

---
 TooN/internal/diagmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index b24b2c6..fef8f36 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -150,7 +150,7 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	auto diagonal_slice() const -> decltype(this->my_vector.as_slice()) {
 		return this->my_vector.as_slice();
 	}
 
-- 
2.43.0


From f86c4be4a1fa5ab4d0540ba7c36e09a568afc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/79] fix: a complex matrix can be assigned Ones

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index c4706f0..41ce803 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -550,7 +550,7 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				m[r][c] = s;
+				m[r][c] = (P1)s;
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-- 
2.43.0


From 436adb787a144fbcaea903ed54885e8754d55844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 17/79] fix: norm_inf of an empty vector is 0

---
 TooN/helpers.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..0c60042 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -128,10 +128,9 @@ namespace TooN {
 		using std::abs;
 		using std::max;
 		Precision n = 0;
-		n = abs(v[0]);
 
-		for(int i=1; i < v.size(); i++)
-			n = max(n, abs(v[i]));
+		for(int i=0; i < v.size(); i++)
+			n = max<Precision>(n, abs(v[i]));
 		return n;
 	}
 	
-- 
2.43.0


From 3bc1b669b33da649a42d3fd64d4392be1ea247d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 18/79] fix: project and unproject accept resizable vectors

---
 TooN/helpers.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 0c60042..cd42d01 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -178,8 +178,8 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
-		static const int Len = (Size==Dynamic?Dynamic:Size-1);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
+		static const int Len = (Size<0?Dynamic:Size-1);
 		return TooN::operator/(v.template slice<0, Len>(0 , v.size() - 1) , v[v.size() - 1]);
 	}
 
@@ -189,9 +189,9 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
-		Vector<(Size==Dynamic?Dynamic:Size+1), Precision> result(v.size()+1);
-		static const int Len = (Size==Dynamic?Dynamic:Size);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
+		Vector<(Size<0?Dynamic:Size+1), Precision> result(v.size()+1);
+		static const int Len = (Size<0?Dynamic:Size);
 		result.template slice<0, Len>(0, v.size()) = v;
 		result[v.size()] = 1;
 		return result;
-- 
2.43.0


From 302abfc2bcb3cb44331e6d9480485c564b10d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 19/79] fix: unproject accepts matrices with a run-time number
 of columns

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index cd42d01..f5dced5 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -220,8 +220,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result(m.num_rows()+1, m.num_cols());
+        result.slice(0,0,m.num_rows(),m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From 9eca8c14011d729cd5bd8895b4f706585c18af48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 20/79] fix: per-row and per-column reductions of an empty
 matrix read no element

---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index f5dced5..52b829b 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -486,10 +486,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_horizontal( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_rows() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // nothing to reduce: an empty result
             }
+            Func func( m.num_rows() );
             for(int r=0; r<m.num_rows(); r++){
                 func.initialise( m[r][0], r, 0 );
                 for(int c=1; c<m.num_cols(); c++){
@@ -499,10 +499,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_vertical( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_cols() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // nothing to reduce: an empty result
             }
+            Func func( m.num_cols() );
             for(int c=0; c<m.num_cols(); c++){
                 func.initialise( m[0][c], 0, c );
                 for(int r=1; r<m.num_rows(); r++){
-- 
2.43.0


From b71c8c56fbe08a430f7e739a6eefdb0a027a7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 21/79] fix: elimination keeps the precision of its element
 type

---
 TooN/gauss_jordan.h         | 6 +++---
 TooN/gaussian_elimination.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/gauss_jordan.h b/TooN/gauss_jordan.h
index fb5fdb8..5547d65 100644
--- a/TooN/gauss_jordan.h
+++ b/TooN/gauss_jordan.h
@@ -64,7 +64,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 		  using std::abs;
 			int pivotpos = col;
-			double pivotval = abs(m[pivotpos][col]);
+			Precision pivotval = abs(m[pivotpos][col]);
 			for(int p=col+1; p <m.num_rows(); p++)
 			  if(abs(m[p][col]) > pivotval)
 				{
@@ -82,7 +82,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 			if(row != col)
 			{
-				double multiple = m[row][col] / m[col][col];
+				Precision multiple = m[row][col] / m[col][col];
 		
 				//We could eliminate some of the computations in the augmented
 				//matrix, if the augmented half is the identity. In general, it
@@ -102,7 +102,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 	//square matrix, since it is diagonal, and ends up as the identity.
 	for(int row=0;row < m.num_rows(); row++)
 	{
-		double mul = 1/m[row][row];
+		Precision mul = 1/m[row][row];
 
 		m[row][row] = 1;
 
diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 558db71..597998e 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -74,7 +74,7 @@ namespace TooN {
 			b[i] *= inv_pivot;
 			
 			for (int u=i+1; u<size; ++u) {
-				double factor = A[u][i];
+				Precision factor = A[u][i];
 				//A[u][i] = 0;
 				for (int j=i+1; j<size; ++j)
 					A[u][j] -= factor * A[i][j];
-- 
2.43.0


From 57ca1d5d2d5005c3714ca0831f89af25ec37fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 22/79] fix: LU back-substitution of run-time-wide right-hand
 sides and of float

---
 TooN/LU.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From fb55b42c69d0109b9b2a7ca8ee2701da8ed2fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 23/79] fix: elimination compares pivots in its element type

---
 TooN/gaussian_elimination.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 597998e..1d9de13 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -54,7 +54,7 @@ namespace TooN {
 			Precision maxval = abs(A[i][i]);
 			
 			for (int ii=i+1; ii<size; ++ii) {
-				double v =  abs(A[ii][i]);
+				Precision v =  abs(A[ii][i]);
 				if (v > maxval) {
 					maxval = v;
 					argmax = ii;
-- 
2.43.0


From b662fe5605318c8481409ba2b054a820c9c7de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 24/79] fix: Lapack_Cholesky reads the documented half of the
 matrix

---
 TooN/Lapack_Cholesky.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..ee64473 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -94,11 +94,11 @@ public:
 	void do_compute(){
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potrf_("L", &N, my_cholesky_lapack.my_data, &N, &info);
+		potrf_("U", &N, my_cholesky_lapack.my_data, &N, &info);
 		for (int i=0;i<N;i++) {
 		  int j;
 		  for (j=0;j<=i;j++) {
-		    my_cholesky[i][j]=my_cholesky_lapack[j][i];
+		    my_cholesky[i][j]=my_cholesky_lapack[i][j];
 		  }
 		  // LAPACK does not set upper triangle to zero, 
 		  // must be done here
@@ -124,7 +124,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=1;
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -137,7 +137,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=m.num_cols();
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -163,11 +163,11 @@ public:
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potri_("L", &N, M.my_data, &N, &info);
+		potri_("U", &N, M.my_data, &N, &info);
 		assert(info == 0);
 		for (int i=1;i<N;i++) {
 		  for (int j=0;j<i;j++) {
-		    M[i][j]=M[j][i];
+		    M[j][i]=M[i][j];
 		  }
 		}
 		return M;
-- 
2.43.0


From fba68c4ed6f21128d02116b26f007fbbd9707192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 25/79] fix: QR of a matrix with an already reduced column

---
 TooN/QR.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..95105eb 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -153,17 +153,27 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
-				Precision  nx2 = norm_sq(s.T()[0]);
+				const Precision x0 = s[0][0];
+				const Precision rest = norm_sq(s.T()[0].slice(1, sz-1));
+				Precision  nx2 = x0*x0 + rest;
 
-				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
+				Precision a = sqrt(nx2) * (x0 < 0?-1:1);
+
+				//The column may already be reduced, in which case there is nothing to reflect
+				if(rest == 0)
+				{
+					s.T()[0].slice(1, sz-1) = Zeros;
+					continue;
+				}
 
 				//We now want the vector u = x - ae
 				//
 				// Multipling (I - 2 hat(u) * hat(u)^T) * s will zero out the first column of s except
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
-				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//Since x is no longer needed, we can just modify the first element. x_0 and a have the
+				//same sign, so x_0 - a is computed as (x_0^2 - a^2)/(x_0 + a) to avoid cancellation.
+				s.T()[0][0] = -rest / (x0 + a);
 				//auto& u = x;
 
 				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-- 
2.43.0


From 8a81fd78bb631564d11442730b24838bf49e8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 26/79] fix: SVD::rank counts the singular values that are not
 negligible

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..6f316d8 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -221,9 +221,9 @@ public:
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 6e1d7ca59736cc6180637c48ec138bfec9de8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 27/79] fix: back-substitution of a float GR_SVD compiles

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..ff65b2a 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N, Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From ad2bb1483fc2cc754ddac97ce1b8360b571ed2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 28/79] fix: SymEigen square root of a singular matrix is not
 NaN

---
 TooN/SymEigen.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..456acbd 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -524,8 +524,10 @@ public:
 		Vector<Size, Precision> diag_sqrt(my_evalues.size());
 		// In the future, maybe throw an exception if an
 		// eigenvalue is negative?
+		// An eigenvalue of a singular matrix can be negative by a rounding error.
+		const Precision negligible = -my_evalues[my_evalues.size()-1] * my_evalues.size() * 10 * std::numeric_limits<Precision>::epsilon();
 		for (int i = 0; i < my_evalues.size(); ++i) {
-			diag_sqrt[i] = std::sqrt(my_evalues[i]);
+			diag_sqrt[i] = (my_evalues[i] < 0 && my_evalues[i] >= negligible) ? Precision(0) : std::sqrt(my_evalues[i]);
 		}
 		return my_evectors.T() * diagmult(diag_sqrt, my_evectors);
 	}
-- 
2.43.0


From 3ac9726b183aacabbeef7d04b52e5fe1fae06698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 29/79] fix: SymEigen of 2x2 matrices keeps full precision

---
 TooN/SymEigen.h | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 456acbd..abdd9eb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -103,30 +103,31 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
-			double trace = m[0][0] + m[1][1];
-			//Only use the upper triangular elements.
-			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
-			double disc = trace*trace - 4 * det;
-			
-			//Mathematically, disc >= 0 always.
-			//Numerically, it can drift very slightly below zero.
-			if(disc < 0)
-				disc = 0;
-
 			using std::sqrt;
-			double root_disc = sqrt(disc);
-			ev[0] = 0.5 * (trace - root_disc);
-			ev[1] = 0.5 * (trace + root_disc);
-			double a = m[0][0] - ev[0];
-			double b = m[0][1];
-			double magsq = a*a + b*b;
-			if (magsq == 0) {
-				eig[0][0] = 1.0;
+			//Only use the upper triangular elements. The eigenvalues are
+			//the mean of the diagonal elements plus or minus root.
+			const P half_diff = (m[0][0] - m[1][1])/2;
+			const P b = m[0][1];
+			const P mean = m[1][1] + half_diff;
+			const P root = sqrt(half_diff*half_diff + b*b);
+			ev[0] = mean - root;
+			ev[1] = mean + root;
+
+			//The eigenvector of the smaller eigenvalue is orthogonal to both
+			//rows of m - ev[0]*Identity: use the larger one, which does not
+			//suffer from cancellation.
+			if(root == 0) {
+				eig[0][0] = 1;
 				eig[0][1] = 0;
 			} else {
-				eig[0][0] = -b;
-				eig[0][1] = a;
-				eig[0] *= 1.0/sqrt(magsq);
+				if(half_diff > 0) {
+					eig[0][0] = -b;
+					eig[0][1] = root + half_diff;
+				} else {
+					eig[0][0] = root - half_diff;
+					eig[0][1] = -b;
+				}
+				eig[0] /= sqrt(eig[0][0]*eig[0][0] + eig[0][1]*eig[0][1]);
 			}
 			eig[1][0] = -eig[0][1];
 			eig[1][1] = eig[0][0];
-- 
2.43.0


From ee99397ca0f5d59a53e78c6876510d7f33469df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 30/79] fix: SymEigen of 3x3 matrices with repeated, nearly
 repeated or tiny eigenvalues

---
 TooN/SymEigen.h | 264 ++++++++++++------------------------------------
 1 file changed, 64 insertions(+), 200 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index abdd9eb..df93f97 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -147,206 +147,70 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
-            //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
-            using std::sqrt;
-            using std::min;
-            using std::swap;
-            
-			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
-
-			if(a_norm == 0)
-			{
-				eig = TooN::Identity;
-				return;
-			}
-
-            //Polynomial terms of |a - l * Identity|
-            //l^3 + a*l^2 + b*l + c
-
-            const double& a11 = m[0][0];
-            const double& a12 = m[0][1];
-            const double& a13 = m[0][2];
-
-            const double& a22 = m[1][1];
-            const double& a23 = m[1][2];
-
-            const double& a33 = m[2][2];
-
-            //From matlab:
-            double a = -a11-a22-a33;
-            double b = a11*a22+a11*a33+a22*a33-a12*a12-a13*a13-a23*a23;
-            double c = a11*(a23*a23)+(a13*a13)*a22+(a12*a12)*a33-a12*a13*a23*2.0-a11*a22*a33;
-
-            //Using Cardano's method:
-            double p = b - a*a/3;
-            double q = c + (2*a*a*a - 9*a*b)/27;
-
-            double alpha = -q/2;
-
-            //beta_descriminant <= 0 for real roots!
-			//force to zero to avoid nasty rounding issues.
-            double beta_descriminant = std::min(0.0, q*q/4 + p*p*p/27);
-
-            double beta = sqrt(-beta_descriminant);
-            double r2 = alpha*alpha  - beta_descriminant;
-
-            ///Need A,B = cubert(alpha +- beta)
-            ///Turn in to r, theta
-            /// r^(1/3) * e^(i * theta/3)
-            double cuberoot_r = pow(r2, 1./6);
-
-            double theta3 = atan2(beta, alpha)/3;
-
-            double A_plus_B = 2*cuberoot_r*cos(theta3);
-            double A_minus_B = -2*cuberoot_r*sin(theta3);
-
-            //calculate eigenvalues
-            ev =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
-
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-            if(ev[1] > ev[2])
-                swap(ev[1], ev[2]);
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-
-			// for the vector [x y z]
-			// eliminate to compute the ratios x/z and y/z
-			// in both cases, the denominator is the same, so in the absence of
-			// any other scaling, choose the denominator to be z and 
-			// tne numerators to be x and y.
-			//
-			// x/z and y/z,  implies ax, ay, az which vanishes
-			// if a=0
-            //calculate the eigenvectors
-            eig[0][0]=a12 * a23 - a13 * (a22 - ev[0]);
-            eig[0][1]=a12 * a13 - a23 * (a11 - ev[0]);
-            eig[0][2]=(a11-ev[0])*(a22-ev[0]) - a12*a12;
-            eig[1][0]=a12 * a23 - a13 * (a22 - ev[1]);
-            eig[1][1]=a12 * a13 - a23 * (a11 - ev[1]);
-            eig[1][2]=(a11-ev[1])*(a22-ev[1]) - a12*a12;
-            eig[2][0]=a12 * a23 - a13 * (a22 - ev[2]);
-            eig[2][1]=a12 * a13 - a23 * (a11 - ev[2]);
-            eig[2][2]=(a11-ev[2])*(a22-ev[2]) - a12*a12;
-			
-			//Check to see if we have any zero vectors
-			double e0norm = norm_1(eig[0]);
-			double e1norm = norm_1(eig[1]);
-			double e2norm = norm_1(eig[2]);
-
-			//Some of the vectors vanish: we're computing
-			// x/z and y/z, which implies ax, ay, az which vanishes
-			// if a=0;
-			//
-			// So compute the other two choices.
-			if(e0norm < eps)
-			{
-				eig[0][0] += a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][1] += (ev[0]-a11)*(ev[0]-a33) - a13*a13;
-				eig[0][2] += a23 * (ev[0] - a11) + a12 * a13;
-				e0norm = norm_1(eig[0]);
-			}
-
-			if(e1norm < eps)
-			{
-				eig[1][0] += a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][1] += (ev[1]-a11)*(ev[1]-a33) - a13*a13;
-				eig[1][2] += a23 * (ev[1] - a11) + a12 * a13;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] += a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][1] += (ev[2]-a11)*(ev[2]-a33) - a13*a13;
-				eig[2][2] += a23 * (ev[2] - a11) + a12 * a13;
-				e2norm = norm_1(eig[2]);
-			}
-
-
-			//OK, a AND b might be 0
-			//Check for vanishing and add in y/x, z/x which implies cx, cy, cz
-			if(e0norm < eps)
-			{
-				eig[0][0] +=(ev[0]-a22)*(ev[0]-a33) - a23*a23;
-				eig[0][1] +=a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][2] +=a13 * (ev[0] - a22) + a23 * a12;
-				e0norm = norm_1(eig[0]);
-			}
-
-			if(e1norm < eps)
-			{
-				eig[1][0] +=(ev[1]-a22)*(ev[1]-a33) - a23*a23;
-				eig[1][1] +=a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][2] +=a13 * (ev[1] - a22) + a23 * a12;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] +=(ev[2]-a22)*(ev[2]-a33) - a23*a23;
-				eig[2][1] +=a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][2] +=a13 * (ev[2] - a22) + a23 * a12;
-				e2norm = norm_1(eig[2]);
-			}
-
-			//Oh, COME ON!!!
-			if(e0norm < eps || e1norm < eps || e2norm < eps)
-			{
-				//This is blessedly rare
-		
-				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
-				
-				//Sort them
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-				if(ns[1] > ns[2])
-				{
-					swap(ns[1], ns[2]);
-					swap(is[1], is[2]);
-				}
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-
-
-				if(ns[1] >= eps)
-				{
-					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
-					eig[is[0]] = eig[is[1]]^eig[is[2]];
-				}
-				else if(ns[2] >= eps)
-				{
-					normalize(eig[is[2]]);
-					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
-
-					//Gram-Schmit
-					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-					Vector<3> v2 = v1^eig[is[2]];
-
-					eig[is[0]] = v1;
-					eig[is[1]] = v2;
-				}
-				else
-					eig = TooN::Identity;
-			}
-			else
-			{
-  				normalize(eig[0]);
-  				normalize(eig[1]);
-  				normalize(eig[2]);
-			}
+			//The closed form solution of the cubic characteristic equation loses
+			//half or more of the digits when eigenvalues are (nearly) repeated,
+			//so use cyclic Jacobi rotations, which converge quadratically.
+			using std::sqrt;
+			using std::abs;
+			using std::swap;
+
+			//Only use the upper triangular elements.
+			P a[3][3] = {{m[0][0], m[0][1], m[0][2]},
+			             {m[0][1], m[1][1], m[1][2]},
+			             {m[0][2], m[1][2], m[2][2]}};
+			eig = TooN::Identity;
+
+			for(int sweep=0; sweep < 30 && (a[0][1] != 0 || a[0][2] != 0 || a[1][2] != 0); sweep++)
+				for(int i=0; i < 2; i++)
+					for(int j=i+1; j < 3; j++)
+					{
+						//Off-diagonal elements below the resolution of the diagonal are zero.
+						const P size = abs(a[i][i]) + abs(a[j][j]);
+						if(size + abs(a[i][j]) == size)
+						{
+							a[i][j] = a[j][i] = 0;
+							continue;
+						}
+
+						//Rotate rows and columns i and j to make a[i][j] zero.
+						const P theta = (a[j][j] - a[i][i]) / (2*a[i][j]);
+						const P t = (theta < 0 ? -1 : 1) / (abs(theta) + sqrt(theta*theta + 1));
+						const P c = 1 / sqrt(t*t + 1);
+						const P s = t*c;
+						const int k = 3-i-j;
+
+						a[i][i] -= t*a[i][j];
+						a[j][j] += t*a[i][j];
+						a[i][j] = a[j][i] = 0;
+
+						const P aki = a[k][i], akj = a[k][j];
+						a[k][i] = a[i][k] = c*aki - s*akj;
+						a[k][j] = a[j][k] = s*aki + c*akj;
+
+						for(int l=0; l < 3; l++)
+						{
+							const P ei = eig[i][l], ej = eig[j][l];
+							eig[i][l] = c*ei - s*ej;
+							eig[j][l] = s*ei + c*ej;
+						}
+					}
+
+			//Sort the eigenvalues low to high.
+			for(int i=0; i < 3; i++)
+				ev[i] = a[i][i];
+			for(int i=0; i < 2; i++)
+				for(int j=0; j < 2-i; j++)
+					if(ev[j] > ev[j+1])
+					{
+						swap(ev[j], ev[j+1]);
+						for(int l=0; l < 3; l++)
+							swap(eig[j][l], eig[j+1][l]);
+					}
+
+			//Of the two unit eigenvectors, the one with this sign of the last element is returned.
+			for(int i=0; i < 3; i++)
+				if(i == 1 ? eig[i][2] > 0 : eig[i][2] < 0)
+					eig[i] *= -1;
 		}
 	};
 
-- 
2.43.0


From 55b1dd8e5995c7698ebf3a3597be8d5de8997c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 31/79] fix: matrix exponential of large and zero matrices

---
 TooN/helpers.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 52b829b..e636f45 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -329,9 +329,12 @@ namespace TooN {
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
 		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
-		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		using std::frexp;
+		using std::ldexp;
+		int s = 0;
+		frexp(norm_inf(m), &s);
+		s = max(0, s);
+		Matrix<R,C,P> result = Internal::exp_taylor(m*ldexp(P(1), -s));
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From 026a8418fd57da4a5d0d911edf2af1535f0acd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 32/79] fix: SO3 from two nearly parallel vectors is a rotation

---
 TooN/so3.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..d5997cb 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,7 +78,7 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		Vector<3, Precision> n = a ^ b;
+		const Vector<3, Precision> n = a ^ b;
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
@@ -86,15 +86,12 @@ public:
 			my_matrix = Identity;
 			return;
 		}
-		n = unit(n);
-		Matrix<3> R1;
-		R1.T()[0] = unit(a);
-		R1.T()[1] = n;
-		R1.T()[2] = R1.T()[0] ^ n;
-		my_matrix.T()[0] = unit(b);
-		my_matrix.T()[1] = n;
-		my_matrix.T()[2] = my_matrix.T()[0] ^ n;
-		my_matrix = my_matrix * R1.T();
+		//Turning by pi about u and then by pi about the bisector m of u and v takes
+		//u to v about u^v. This does not need the direction of u^v, which is lost
+		//if a and b are nearly parallel.
+		const Vector<3, Precision> u = unit(a), v = unit(b), m = unit(u + v);
+		my_matrix = 4 * (m * u) * m.as_col() * u.as_row() - 2 * m.as_col() * m.as_row() - 2 * u.as_col() * u.as_row();
+		my_matrix += Identity;
 	}
 	
 	/// Assignment operator from a general matrix. This also calls coerce()
-- 
2.43.0


From 4dc919b6516b0a78dcfac4b275bc4ecbba016fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 33/79] fix: SE2 and SE3 exponential for small angles keeps
 full precision

---
 TooN/se2.h | 2 +-
 TooN/se3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..042dc8e 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -325,7 +325,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
-		result.get_translation() = mu.template slice<0,2>() + 0.5 * cross;
+		result.get_translation() = TooN::operator*(1 - one_6th * theta_sq, mu.template slice<0,2>()) + 0.5 * cross;
 	} else {
 		Precision A, B;
 		if (theta_sq < 1e-6) {
diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..3745495 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -407,7 +407,7 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 	if (theta_sq < 1e-8) {
 		A = 1.0 - one_6th * theta_sq;
 		B = 0.5;
-		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross;
+		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross + TooN::operator*(one_6th, (w ^ cross));
 	} else {
 		Precision C;
 		if (theta_sq < 1e-6) {
-- 
2.43.0


From 7400b944b001d8de8cea982fe40cac40e0e8a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 34/79] fix: SIM3 coefficients for small rotation and log-scale

---
 TooN/sim3.h | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..95c012c 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -422,24 +422,37 @@ namespace Internal {
 template <typename Precision>
 inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision & s, const Precision & t ){
 	using std::exp;
+	using std::expm1;
 
 	Vector<3, Precision> coeff;
-	const Precision es = exp(s);
 
-	// 4 cases for s -> 0 and/or theta -> 0
-	// the Taylor expansions were calculated with Maple 12 and truncated at the 3rd power,
-	// such that eps^3 < 1e-18 which results in approximately 1 + eps^3 = 1
+	// The coefficients are the integrals over x from 0 to 1 of
+	//   exp(s*x),  exp(s*x)*sin(t*x)/t  and  exp(s*x)*(1-cos(t*x))/(t*t)
+	// The closed forms lose all precision if both s and t are small, so the Taylor series 
+	// is summed there: f, g and h are the nth derivatives of the three integrands at x=0, 
+	// and c is the one of exp(s*x)*cos(t*x).
 	static const Precision eps = 1e-6;
 
-	if(fabs(s) < eps && fabs(t) < eps){
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
-	} else if(fabs(s) < eps) {
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-		coeff[2] = (t-sin(t))/(t*t*t) - (-t*t-2+2*cos(t)+2*sin(t)*t)*s/(2*t*t*t*t) - (-t*t*t+6*cos(t)*t+3*sin(t)*t*t-6*sin(t))*s*s/(6*t*t*t*t*t);
-	} else if(fabs(t) < eps) {
+	if(s*s + t*t < 1){
+		Precision f=1, g=0, h=0, c=1, factor=1;
+		coeff = Zeros;
+		for(int n=1; n<=25; ++n){
+			factor /= n;
+			coeff[0] += f * factor;
+			coeff[1] += g * factor;
+			coeff[2] += h * factor;
+
+			const Precision old_g = g;
+			f *= s;
+			h = s*h + g;
+			g = s*g + c;
+			c = s*c - t*t*old_g;
+		}
+		return coeff;
+	}
+
+	const Precision es = exp(s);
+	if(fabs(t) < eps) {
 		coeff[0] = (es - 1)/s;
 		coeff[1] = (s*es+1-es)/(s*s) - (6*s*es+6-6*es+es*s*s*s-3*es*s*s)*t*t/(6*s*s*s*s);
 		coeff[2] = (es*s*s-2*s*es+2*es-2)/(2*s*s*s) - (es*s*s*s*s-4*es*s*s*s+12*es*s*s-24*s*es+24*es-24)*t*t/(24*s*s*s*s*s);
@@ -448,7 +461,7 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 		const Precision b = es * cos(t);
 		const Precision inv_s_theta = 1/(s*s + t*t);
 
-		coeff[0] = (es - 1)/s;
+		coeff[0] = s == 0 ? Precision(1) : Precision(expm1(s)/s);
 		coeff[1] = (a*s + (1-b)*t) * inv_s_theta / t;
 		coeff[2] = (coeff[0] - ((b-1)*s + a*t) * inv_s_theta) / (t*t);
 	}
-- 
2.43.0


From 8fcc1d58e6269971c1c022dc139bf72a4f57ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 35/79] fix: SIM2 exponential and logarithm use the right
 translation coefficient

---
 TooN/sim2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..76bd2e4 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,8 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// in the plane (w ^ (w ^ u)) = -theta*theta * u
+	result.get_translation() = TooN::operator*(coeff[0] - coeff[2]*theta*theta, mu.template slice<0,2>()) + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -365,7 +366,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - coeff[2]*theta*theta) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 84f17f7847814f5df1c1e4fcb5b0a62693f53c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 36/79] fix: SIM3 of other precisions than double compiles

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 95c012c..4362817 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -485,7 +485,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 2e40a1d8aacea59d7670373a2be94ea492b8214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 37/79] fix: SL logarithm in dimensions above 3

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 7310e332ef62d13ebb033531b51b076c41c81fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 38/79] fix: SL inverse of other precisions than double
 compiles

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..8faa006 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
-- 
2.43.0


From 9e5094e3b9f957f06cbda6ff358252b6745cfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 39/79] fix: SL from a matrix of odd dimension with negative
 determinant

---
 TooN/sl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8faa006..ab40d6a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -109,7 +109,8 @@ private:
 		Precision det = determinant(my_matrix);
 		assert(abs(det) > 0);
         using std::pow;
-		my_matrix /= pow(det, 1.0/N);
+		//an odd root of a negative determinant exists, but pow does not compute it
+		my_matrix /= (det < 0 && N % 2 == 1) ? -pow(-det, 1.0/N) : pow(det, 1.0/N);
 	}
 
 	/// these constants indicate which parts of the parameter vector 
-- 
2.43.0


From da562ce1fbb4c189def7c7951daef49377892243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 40/79] fix: SE2 and SIM2 adjoint of a matrix compiles

---
 TooN/se2.h  | 4 ++--
 TooN/sim2.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 042dc8e..58ca3b8 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<typename P2, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<3,P2, Accessor> & vect) const {
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
diff --git a/TooN/sim2.h b/TooN/sim2.h
index 76bd2e4..b50bea0 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<typename P2, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<4,P2, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-- 
2.43.0


From 3c5fc0daa4d1ec11beab2d4aba6d4d2c3a1e948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 41/79] fix: SIM2 and SIM3 adjoints include scale and
 translation

---
 TooN/sim2.h | 4 +++-
 TooN/sim3.h | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index b50bea0..e4b6a63 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,7 +132,9 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4,P2, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_scale() * (get_rotation() * vect.template slice<0,2>());
+		result.template slice<0,2>() -= vect[3] * get_translation();
 		result[0] += vect[2] * get_translation()[1];
 		result[1] -= vect[2] * get_translation()[0];
 		return result;
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 4362817..3e86808 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -194,9 +194,11 @@ template<int S, typename P2, typename Accessor>
 inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor>& vect) const{
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
+	result[6] = vect[6];
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_scale() * (get_rotation() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= vect[6] * get_translation();
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From 9bfb9cf087e2267461953fd8ce23395253460419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 42/79] fix: IRLS of a precision other than double names its
 base class

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..08d699a 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,7 +122,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			Vector<Size,Precision> scaledm(m*ts);
 
@@ -131,7 +131,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From f295d18f338c318d801199d7e0a4a7133e930af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 43/79] fix: merging IRLS accumulators adds their residual
 totals

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 08d699a..28ef992 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -133,6 +133,7 @@ namespace TooN {
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From a3376a5186e09c9d6c6970190459678291c5a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 44/79] fix: IRLS true information matrix is the sum of scaled
 outer products of J

---
 TooN/irls.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 28ef992..51e874b 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -124,9 +124,7 @@ namespace TooN {
 
 			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
-
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += (J * ts).as_col() * J.as_row();
 
 		}
 
-- 
2.43.0


From 1ad194d3da1b5d5d99545291a90247cb43b07687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 45/79] fix: RobustII::true_scale returns w(x) + xw'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 51e874b..50d88da 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From 31d3e1f1ea28beb7ebbc50d26a186f53cb5baa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 46/79] fix: ILinear::objective returns the integral of xw(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 50d88da..f08ad45 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return d*d/2;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From 204c464ac47076448c75110d56a450d5be2f9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 47/79] fix: RobustIII provides true_scale, so that it works
 with IRLS

---
 TooN/irls.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index f08ad45..08384c9 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -89,6 +89,12 @@ namespace TooN {
 			double d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
+		/// Returns \f$w(x) + xw'(x)\f$.
+		Precision true_scale(Precision x) const
+		{
+			double d = (1 + x*x/sd_inlier);
+			return (1 - 3*x*x/sd_inlier)/(d*d*d);
+		}
 		///< Returns \f$\int xw(x)dx\f$.
 		Precision objective(Precision x) const 
 		{
-- 
2.43.0


From 898ec2139a484287bee229379b54ebf4b8892e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 48/79] fix: downhill simplex evaluates the objective at the
 vertex it stores

---
 TooN/optimization/downhill_simplex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..5adb612 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -208,7 +208,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			int worst = get_worst();
 			Precision second_worst_val=-HUGE_VAL, bestval = HUGE_VAL, worst_val = values[worst];
 			int best=0;
-			Vector<N> x0 = Zeros(simplex.num_cols());
+			Vector<N, Precision> x0 = Zeros(simplex.num_cols());
 
 
 			for(int i=0; i < simplex.num_rows(); i++)
@@ -232,13 +232,13 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 
 
 			//Reflect the worst point about the centroid.
-			Vector<N> xr = (1 + alpha) * x0 - alpha * simplex[worst];
+			Vector<N, Precision> xr = (1 + alpha) * x0 - alpha * simplex[worst];
 			Precision fr = func(xr);
 
 			if(fr < bestval)
 			{
 				//If the new point is better than the smallest, then try expanding the simplex.
-				Vector<N> xe = rho * xr + (1-rho) * x0;
+				Vector<N, Precision> xe = rho * xr + (1-rho) * x0;
 				Precision fe = func(xe);
 
 				//Keep whichever is best
@@ -271,7 +271,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			//a bit.
 			if(fr < worst_val)
 			{
-				Vector<N> xc = (1 + gamma) * x0 - gamma * simplex[worst];
+				Vector<N, Precision> xc = (1 + gamma) * x0 - gamma * simplex[worst];
 				Precision fc = func(xc);
 
 				//If this helped, use it
-- 
2.43.0


From 01554599c05887f1287bd484750e4f7ca1bb999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 49/79] fix: line searches name std::sqrt, which TooN::sqrt
 hides

---
 TooN/optimization/brent.h          | 2 +-
 TooN/optimization/golden_section.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..d807c49 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,11 +48,11 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
 		//The golden ratio:
-		const Precision g = (3.0 - sqrt(5))/2;
+		const Precision g = (3.0 - std::sqrt(5))/2;
 
 		Precision x1, x2, fx1, fx2;
 
@@ -127,7 +127,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From fc3cb715b044f7f4a886dad1e8e55d9498b8bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 50/79] fix: golden section search counts its iterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index d807c49..ca5e5fe 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -82,6 +82,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From adbb795be6131f3929bb77c86d3bf87bcc479bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 51/79] fix: a line search bracket may have equal values, so a
 flat or symmetric function is bracketed

---
 TooN/optimization/conjugate_gradient.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..ea68fa8 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -110,7 +110,7 @@ namespace TooN{
 				if(std::isnan(c_val))
 					break;
 				last_good_lambda = lambda;
-				if(c_val > 	b_val) // we have a bracket
+				if(c_val >= b_val) // we have a bracket
 					break;
 				else
 				{
@@ -356,7 +356,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val > b_val && b_val <= c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From ab72235cb3dea2e5c6d2e689b905cb672cf27bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 52/79] fix: conjugate gradient goes to the best point known
 when NaN prevents bracketing

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index ea68fa8..b884618 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -345,7 +345,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val < b_val || c == b)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From 08da93b78287a64f85fc4697001c9293373e0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 53/79] fix: conjugate gradient of a precision other than
 double compiles

---
 TooN/optimization/conjugate_gradient.h | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index b884618..a6e4fc7 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -167,7 +167,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -225,13 +225,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -252,7 +252,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -263,7 +263,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -274,7 +274,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -327,13 +327,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -386,7 +386,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From 74ce87ad000194fd12d611b4f006c0a0df6e91d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 54/79] fix: Brent search never takes a vanishing step that
 discards the side of the minimum

---
 TooN/optimization/brent.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 6fc042c..d76831b 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -154,6 +154,16 @@ namespace TooN
 				d = g*e;
 			}
 
+			//Never step by less than the tolerance (or half of the room there is), otherwise the step may
+			//vanish, and the side it should have explored would be discarded.
+			if(abs(d) < tol1)
+			{
+				if(x > xm)
+					d = max(-tol1, (a-x)/2);
+				else
+					d = min(tol1, (b-x)/2);
+			}
+
 			const Precision u = x+d;
 			//Our one function evaluation per iteration
 			const Precision fu = func(u);
-- 
2.43.0


From 4e88168aa1896fd088c549188b27b53f44b52527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 55/79] fix: numerical derivatives in any precision compile

---
 TooN/functions/derivatives.h | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..3ebabb5 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -181,15 +181,15 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] - h;
-				double f1 = f(x);
+				Precision f1 = f(x);
 				x[i] = v[i] + h;
-				double f2 = f(x);
+				Precision f2 = f(x);
 				x[i] = v[i];
 
-				double d =  (f2 - f1) / (2*h);
+				Precision d =  (f2 - f1) / (2*h);
 				return d;
 			}
 		};
@@ -216,16 +216,16 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] - h;
-				double f1 = f(x);
+				Precision f1 = f(x);
 
 				x[i] = v[i] + h;
-				double f2 = f(x);
+				Precision f2 = f(x);
 				x[i] = v[i];
 
-				double d =  (f2 - 2*central + f1) / (h*h);
+				Precision d =  (f2 - 2*central + f1) / (h*h);
 				return d;
 			}
 		};
@@ -252,24 +252,24 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				Precision h = hh * max(abs(v[i]) * Precision(1e-3), Precision(1e-3));
 
 				x[i] = v[i] + h;
 				x[j] = v[j] + h;
-				double a = f(x);
+				Precision a = f(x);
 
 				x[i] = v[i] - h;
 				x[j] = v[j] + h;
-				double b = f(x);
+				Precision b = f(x);
 
 				x[i] = v[i] + h;
 				x[j] = v[j] - h;
-				double c = f(x);
+				Precision c = f(x);
 
 
 				x[i] = v[i] - h;
 				x[j] = v[j] - h;
-				double d = f(x);
+				Precision d = f(x);
 
 				return (a-b-c+d) / (4*h*h);
 			}
@@ -352,7 +352,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Vector<S, P> numerical_gradient(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Vector<S> grad(x.size());
+		Vector<S, P> grad(x.size());
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
@@ -376,14 +376,14 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S,2,P> numerical_gradient_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S,2> g(x.size(), 2);
+		Matrix<S,2,P> g(x.size(), 2);
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
 		for(int i=0; i < x.size(); i++)
 		{
 			d.i = i;
-			pair<double, double> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
+			pair<P, P> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
 			g[i][0] = r.first;
 			g[i][1] = r.second;
 		}
@@ -406,8 +406,8 @@ namespace TooN{
 	template<class F, int S, class P, class B> pair<Matrix<S, S, P>, Matrix<S, S, P> > numerical_hessian_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
-		Matrix<S> errors(x.size(), x.size());
+		Matrix<S, S, P> hess(x.size(), x.size());
+		Matrix<S, S, P> errors(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -419,7 +419,7 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 				errors[r][c] = errors[c][r] = e.second;
 			}
@@ -427,7 +427,7 @@ namespace TooN{
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 			errors[i][i] = e.second;
 		}
@@ -444,7 +444,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S, S, P> numerical_hessian(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
+		Matrix<S, S, P> hess(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -455,14 +455,14 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 			}
 
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 		}
 
-- 
2.43.0


From 9dc2ab48aaa74d78e2016983f41fa9b9cadc76ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 56/79] fix: the numerical Hessian restores the point after
 each mixed difference

---
 TooN/functions/derivatives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 3ebabb5..4858329 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,9 @@ namespace TooN{
 				x[j] = v[j] - h;
 				Precision d = f(x);
 
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From e24734cbc6f82fc974b35f585c78d27449afef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 57/79] fix: planar complex vectors of a precision other than
 double compile

---
 TooN/internal/planar_complex.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/internal/planar_complex.hh b/TooN/internal/planar_complex.hh
index dbac52a..12f1f88 100644
--- a/TooN/internal/planar_complex.hh
+++ b/TooN/internal/planar_complex.hh
@@ -67,16 +67,16 @@ namespace TooN{
 
 		template<int Size, typename Precision>
 		struct VLayout<Size, std::complex<Precision> >: 
-		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >
+		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >
 		{
 			VLayout(Internal::PointerToPlanarComplex<std::complex<Precision> > p, int sz=0)
-			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >(p, sz, 1)
+			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >(p, sz, 1)
 			{}
 
 			
-- 
2.43.0


From f3e0c8b48f81a0d515c1dc6929c198a9a27489be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 58/79] fix: documentation uses the real name of the named
 element macro

---
 doc/documentation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/documentation.h b/doc/documentation.h
index 95276b1..eb87c1c 100644
--- a/doc/documentation.h
+++ b/doc/documentation.h
@@ -157,7 +157,7 @@ This section is arranged as a FAQ. Most answers include code fragments. Assume
 		#include <TooN/TooN.h>
 		#include <TooN/named_elements.h>
 
-		TOON_DECLARE_NAMED_ELEMENT_VECTOR(CMYK, c, m, y, k);
+		TOON_MAKE_NAMED_ELEMENT_VECTOR(CMYK, c, m, y, k);
 
 		int main()
 		{
-- 
2.43.0


From 4200ce1d582c3c94de7fcd6718b3e8c225d09b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 59/79] fix: reading a transformation from bad text no longer
 coerces a partial matrix

operator>> for SO2, SO3, SE2, SE3, SIM2, SIM3 and SL orthonormalised
whatever had been read even when the stream had failed, which stops the
program (SO3 and SL assert a positive determinant) or leaves NaNs instead
of reporting the failure through the stream.
---
 TooN/se2.h  | 3 ++-
 TooN/se3.h  | 3 ++-
 TooN/sim2.h | 6 ++++--
 TooN/sim3.h | 6 ++++--
 TooN/sl.h   | 4 ++--
 TooN/so2.h  | 4 ++--
 TooN/so3.h  | 4 ++--
 7 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 58ca3b8..0756d7a 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -159,7 +159,8 @@ template <class Precision>
 inline std::istream& operator>>(std::istream& is, SE2<Precision>& rhs){
 	for(int i=0; i<2; i++)
 		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
-	rhs.get_rotation().coerce();
+	if(is)
+		rhs.get_rotation().coerce();
 	return is;
 }
 
diff --git a/TooN/se3.h b/TooN/se3.h
index 3745495..7585f07 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -241,7 +241,8 @@ inline std::istream& operator>>(std::istream& is, SE3<Precision>& rhs){
 	for(int i=0; i<3; i++){
 		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
 	}
-	rhs.get_rotation().coerce();
+	if(is)
+		rhs.get_rotation().coerce();
 	return is;
 }
 
diff --git a/TooN/sim2.h b/TooN/sim2.h
index e4b6a63..bfa1f06 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -175,8 +175,10 @@ template <class Precision>
 inline std::istream& operator>>(std::istream& is, SIM2<Precision>& rhs){
 	for(int i=0; i<2; i++)
 		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
-	rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]))/2;
-	rhs.get_rotation().coerce();
+	if(is) {
+		rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]))/2;
+		rhs.get_rotation().coerce();
+	}
 	return is;
 }
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 3e86808..b1ace9b 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -271,8 +271,10 @@ inline std::istream& operator>>(std::istream& is, SIM3<Precision>& rhs){
 	for(int i=0; i<3; i++){
 		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];
 	}
-	rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]) + norm(rhs.get_rotation().my_matrix[2]))/3;
-	rhs.get_rotation().coerce();
+	if(is) {
+		rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]) + norm(rhs.get_rotation().my_matrix[2]))/3;
+		rhs.get_rotation().coerce();
+	}
 	return is;
 }
 
diff --git a/TooN/sl.h b/TooN/sl.h
index ab40d6a..36410cf 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -216,8 +216,8 @@ std::ostream & operator<<(std::ostream & out, const SL<N, P> & h){
 
 template <int N, typename P>
 std::istream & operator>>(std::istream & in, SL<N, P> & h){
-	in >> h.my_matrix;
-	h.coerce();
+	if(in >> h.my_matrix)
+		h.coerce();
 	return in;
 }
 
diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..0190bd8 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -144,8 +144,8 @@ inline std::ostream& operator<< (std::ostream& os, const SO2<Precision> & rhs){
 /// @relates SO2
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SO2<Precision>& rhs){
-	is >> rhs.my_matrix;
-	rhs.coerce();
+	if(is >> rhs.my_matrix)
+		rhs.coerce();
 	return is;
 }
 
diff --git a/TooN/so3.h b/TooN/so3.h
index d5997cb..d43258e 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -196,8 +196,8 @@ inline std::ostream& operator<< (std::ostream& os, const SO3<Precision>& rhs){
 /// @relates SO3
 template <typename Precision>
 inline std::istream& operator>>(std::istream& is, SO3<Precision>& rhs){
-	is >> rhs.my_matrix;
-	rhs.coerce();
+	if(is >> rhs.my_matrix)
+		rhs.coerce();
 	return is;
 }
 
-- 
2.43.0


From 00bce1ee053c52805b36b95205b5afd854cbe319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:17 +0000
Subject: [PATCH 60/79] fix: an exception thrown while filling a vector or
 matrix reaches the caller

The fill objects' destructors took the incomplete list left by the
exception for an underfill and stopped the program.
---
 TooN/TooN.h            |  1 +
 TooN/internal/comma.hh | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/TooN/TooN.h b/TooN/TooN.h
index 17bd7b9..b294045 100644
--- a/TooN/TooN.h
+++ b/TooN/TooN.h
@@ -29,6 +29,7 @@
 
 #ifndef TOON_INCLUDE_TOON_H
 #define TOON_INCLUDE_TOON_H
+#include <exception>
 #include <iostream>
 #include <cstdlib>
 #include <limits>
diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index 83bdfa9..be68d1c 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -29,6 +29,17 @@ namespace TooN{
 
 namespace Internal
 {
+	//An exception thrown by one of the elements leaves the list incomplete:
+	//that is not an underfill, and must reach the caller.
+	inline bool exception_in_flight()
+	{
+		#if __cplusplus >= 201703L
+			return std::uncaught_exceptions() > 0;
+		#else
+			return std::uncaught_exception();
+		#endif
+	}
+
 	template<int N, int Size, class P, class B> struct VectorFiller
 	{
 		Vector<Size, P, B>& v;
@@ -50,7 +61,7 @@ namespace Internal
 		~VectorFiller()
 		{
 			#ifndef TOON_NDEBUG_FILL
-				if(underfill)
+				if(underfill && !exception_in_flight())
 				{
 					#ifdef TOON_TEST_INTERNALS
 						throw Internal::Underfill();
@@ -108,7 +119,7 @@ namespace Internal
 		~MatrixFiller()
 		{
 			#ifndef TOON_NDEBUG_FILL
-				if(underfill)
+				if(underfill && !exception_in_flight())
 				{
 					#ifdef TOON_TEST_INTERNALS
 						throw Internal::Underfill();
-- 
2.43.0


From 2555a4e05f4105dce276f787a569d436b0743fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 61/79] fix: copying a vector or matrix releases its storage if
 an element throws

The copy constructors of heap allocated storage copied the elements in
their body, after which an exception leaked the block and every element
in it.
---
 TooN/internal/allocator.hh | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 8099857..574e99f 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -96,7 +96,7 @@ template<int Size, class Precision> class StackOrHeap<Size, Precision, 1>
 		Precision *my_data;
 
 		StackOrHeap(const StackOrHeap& from)
-		:my_data(new Precision[Size])
+		:StackOrHeap() //my_data is released if copying an element throws
 		{
 			for(int i=0; i < Size; i++)
 				my_data[i] = from.my_data[i];
@@ -190,7 +190,7 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 	}
 
 	VectorAlloc(const VectorAlloc& v)
-	:my_data(new Precision[v.my_size]), my_size(v.my_size)
+	:VectorAlloc(v.my_size) //my_data is released if copying an element throws
 	{ 
 		for(int i=0; i < my_size; i++)
 			my_data[i] = v.my_data[i];
@@ -594,9 +594,7 @@ template<int R, int C, class Precision> struct MatrixAlloc<R, C, Precision, fals
 	
 	// copy constructor so guaranteed contiguous
 	MatrixAlloc(const MatrixAlloc& m)
-		:RowSizeHolder<R>(m.num_rows()),
-		 ColSizeHolder<C>(m.num_cols()),
-		 my_data(new Precision[num_rows()*num_cols()]) {
+		:MatrixAlloc(m.num_rows(), m.num_cols()) { //my_data is released if copying an element throws
 		const int size=num_rows()*num_cols();
 		for(int i=0; i < size; i++) {
 			my_data[i] = m.my_data[i];
-- 
2.43.0


From 596932c052b346fb4511fd2ca592642714944a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 62/79] fix: SVD::get_pinv and its inverse diagonal have the
 precision of the decomposition

---
 TooN/SVD.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index 6f316d8..a9eadc4 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -179,7 +179,7 @@ public:
 	Matrix<Cols,Cols2, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Matrix<Rows2,Cols2,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim, Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -192,7 +192,7 @@ public:
 	Vector<Cols, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Vector<Size,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim, Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -201,8 +201,8 @@ public:
 	/// if you need the inverse just to multiply it by a matrix or a vector, use 
 	/// one of the backsub() functions, which will be faster.
 	/// See the detailed description of the pseudo-inverse and condition variables.
-	Matrix<Cols,Rows> get_pinv(const Precision condition = condition_no){
-		Vector<Min_Dim> inv_diag(min_dim());
+	Matrix<Cols,Rows,Precision> get_pinv(const Precision condition = condition_no){
+		Vector<Min_Dim, Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return diagmult(get_VT().T(),inv_diag) * get_U().T();
 	}
@@ -264,7 +264,8 @@ public:
 	///otherwise 0 is returned.
 	///@param inv_diag Vector in which to return the inverse diagonal.
 	///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-	void get_inv_diag(Vector<Min_Dim>& inv_diag, const Precision condition){
+	template<typename P2, typename B2>
+	void get_inv_diag(Vector<Min_Dim, P2, B2>& inv_diag, const Precision condition){
 		for(int i=0; i<min_dim(); i++){
 			if(my_diagonal[i] * condition <= my_diagonal[0]){
 				inv_diag[i]=0;
-- 
2.43.0


From b4fcf0cd12f24d4c0fd0a995877d64f723f51e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 63/79] fix: Lapack_Cholesky::get_inverse returns a matrix of
 the precision of the decomposition

---
 TooN/Lapack_Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index ee64473..0711dc9 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -158,7 +158,7 @@ public:
 		return det*det;
 	}
 
-	Matrix<> get_inverse() const {
+	Matrix<Size, Size, Precision> get_inverse() const {
 		Matrix<Size, Size, Precision> M(my_cholesky.num_rows(),my_cholesky.num_rows());
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
-- 
2.43.0


From fa2d8d758d9cd22d38cd558348579144a1a7ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 64/79] fix: DownhillSimplex takes its starting point in its
 own precision

---
 TooN/optimization/downhill_simplex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index 5adb612..56b2eae 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -114,7 +114,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param c          Origin of the initial simplex. The dimension of this vector
 		///                  is used to determine the dimension of the run-time sized version.
 		///@param spread     Size of the initial simplex.
-		template<class Function> DownhillSimplex(const Function& func, const Vector<N>& c, Precision spread=1)
+		template<class Function> DownhillSimplex(const Function& func, const Vector<N, Precision>& c, Precision spread=1)
 		:simplex(c.size()+1, c.size()),values(c.size()+1)
 		{
 			alpha = 1.0;
@@ -135,7 +135,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param func       Functor to minimize.
 		///@param c          \e c corner point of the simplex
 		///@param spread     \e spread simplex size
-		template<class Function> void restart(const Function& func, const Vector<N>& c, Precision spread)
+		template<class Function> void restart(const Function& func, const Vector<N, Precision>& c, Precision spread)
 		{
 			for(int i=0; i < simplex.num_rows(); i++)
 				simplex[i] = c;
-- 
2.43.0


From 3f1578605075282f98d77aba01bd9a29bd1700b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 65/79] fix: line searches and exponentials keep their
 precision if the default one is lower

---
 TooN/optimization/brent.h              | 2 +-
 TooN/optimization/conjugate_gradient.h | 6 +++---
 TooN/se2.h                             | 2 +-
 TooN/sim2.h                            | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index d76831b..3c4fde4 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -206,7 +206,7 @@ namespace TooN
 			}
 		}
 
-		return makeVector(x, fx);
+		return makeVector<Precision>(x, fx);
 	}
 }
 #endif
diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index a6e4fc7..580ae3e 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -168,9 +168,9 @@ namespace TooN{
 		}
 
 		Matrix<3,2,Precision> ret;
-		ret[0] = makeVector(a, a_val);
-		ret[1] = makeVector(b, b_val);
-		ret[2] = makeVector(c, c_val);
+		ret[0] = makeVector<Precision>(a, a_val);
+		ret[1] = makeVector<Precision>(b, b_val);
+		ret[2] = makeVector<Precision>(c, c_val);
 
 		return ret;
 	}
diff --git a/TooN/se2.h b/TooN/se2.h
index 0756d7a..37d4c2f 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -322,7 +322,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	const Precision theta = mu[2];
 	const Precision theta_sq = theta * theta;
   
-	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
+	const Vector<2, Precision> cross = makeVector<Precision>( -theta * mu[1], theta * mu[0]);
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
diff --git a/TooN/sim2.h b/TooN/sim2.h
index bfa1f06..3994d3e 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -347,7 +347,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
-	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
+	const Vector<2, Precision> cross = makeVector<Precision>( -theta * mu[1], theta * mu[0]);
 	// in the plane (w ^ (w ^ u)) = -theta*theta * u
 	result.get_translation() = TooN::operator*(coeff[0] - coeff[2]*theta*theta, mu.template slice<0,2>()) + TooN::operator*(coeff[1], cross);
 
-- 
2.43.0


From ee7fd958cb65a7a0a250fba96d55a41c5fce645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 66/79] fix: vectors with named elements follow the
 TOON_INITIALIZE options

---
 TooN/named_elements.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/named_elements.h b/TooN/named_elements.h
index 7610f9d..6868de3 100644
--- a/TooN/named_elements.h
+++ b/TooN/named_elements.h
@@ -83,6 +83,10 @@ namespace TooN{namespace Internal{\
 	template<class Precision> struct Name##Alloc<sizeof(Name##Dummy), Precision>: public StaticAllocFunctions<sizeof(Name##Dummy), Precision>\
 	{\
 		using StaticAllocFunctions<sizeof(Name##Dummy), Precision>::StaticAllocFunctions;\
+		Name##Alloc()\
+		{\
+			debug_initialize(my_data, sizeof(Name##Dummy));\
+		}\
 		union\
 		{\
 			struct\
-- 
2.43.0


From 61fdfc58eb01cfe20162ae89b2e9de57a646041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 67/79] fix: TOON_INITIALIZE_RANDOM compiles with compilers
 that reject narrowing

---
 TooN/internal/debug.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b8350ea..f775ae0 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -87,7 +87,7 @@ namespace Internal
 		template<class P> static void debug_initialize(P* data, int n)
 		{
 			//Get a random seed. Precision limited to 1 second.
-			static intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
+			static intbits random = { ((static_cast<unsigned long>(std::time(NULL)) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
 			size_t bytes = sizeof(P)*n, i=0;
-- 
2.43.0


From c953e527db82e229a5f77caad358d2a365553da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 68/79] fix: TOON_INITIALIZE_RANDOM does not write to objects
 without elements

---
 TooN/internal/debug.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index f775ae0..b445015 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -95,6 +95,10 @@ namespace Internal
 			//Do nothing except for noisy failure with non-POD types.
 			datafail<P> d={0};
 			bytes+=d.i;
+
+			//The switch enters the body of the loop, so it writes 4 bytes even if there are none to write.
+			if(bytes == 0)
+				return;
 			
 			switch(bytes & 0x3 )
 			{
-- 
2.43.0


From b1678fbd24ee0080232a6bba8ba7bed5c4910faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 69/79] fix: TOON_INITIALIZE_RANDOM has a generator per thread

---
 TooN/internal/debug.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b445015..8f0b877 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -87,7 +87,7 @@ namespace Internal
 		template<class P> static void debug_initialize(P* data, int n)
 		{
 			//Get a random seed. Precision limited to 1 second.
-			static intbits random = { ((static_cast<unsigned long>(std::time(NULL)) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
+			static thread_local intbits random = { ((static_cast<unsigned long>(std::time(NULL)) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
 			size_t bytes = sizeof(P)*n, i=0;
-- 
2.43.0


From bd9dd65b56b681614f2b6e7501e790327cd007bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:51 +0000
Subject: [PATCH 70/79] fix: make_fad_vector of a run-time sized vector counts
 its elements

The default number of derivatives was the template size, -1 for a run-time
sized vector, so each element asked for 4294967295 derivatives.
---
 TooN/functions/fadbad.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 0cd3315..8c248b2 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -66,13 +66,18 @@ inline Vector<N, T> get_value( const Vector<N, fadbad::F<T, D>, A> & v ){
 }
 
 template <typename P, int N, typename A>
-inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0, const unsigned size = N ){
+inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start, const unsigned size ){
 	Vector<N, fadbad::F<P> > result = val;
-	for(unsigned i = 0, d = start; i < val.size() && d < size; ++i, ++d)
+	for(unsigned i = 0, d = start; i < unsigned(val.size()) && d < size; ++i, ++d)
 		result[i].diff(d,size);
 	return result;
 }
 
+template <typename P, int N, typename A>
+inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0 ){
+	return make_fad_vector(val, start, val.size());
+}
+
 template <unsigned D, typename P, int N, typename A>
 inline Vector<N, fadbad::F<P,D> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0 ){
 	Vector<N, fadbad::F<P,D> > result = val;
-- 
2.43.0


From e0544fd9be9e52d18fab5b7e6cd0c6ee55dd3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:51 +0000
Subject: [PATCH 71/79] fix: get_derivative of run-time sized vectors and
 matrices

Run-time sized vectors did not compile, and the result was not given a size.
---
 TooN/functions/fadbad.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 8c248b2..2962f78 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -88,8 +88,8 @@ inline Vector<N, fadbad::F<P,D> > make_fad_vector( const Vector<N, P, A> & val,
 
 template <unsigned D, typename P, int N, typename A>
 inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, const int dim ){
-	Vector<N, P> r;
-	for(int i = 0; i < N; ++i)
+	Vector<N, P> r(val.size());
+	for(int i = 0; i < val.size(); ++i)
 		r[i] = val[i].deriv(dim);
 	return r;
 }
@@ -104,9 +104,9 @@ inline Matrix<N, D, P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val
 
 template <int R, int C, typename P, unsigned D, typename A>
 inline Matrix<R, C, P> get_derivative( const Matrix<R,C, fadbad::F<P, D>, A> & val, const int dim ){
-	Matrix<R, C, P> result;
-	for(int r = 0; r < R; ++r)
-		for(int c = 0; c < C; ++c)
+	Matrix<R, C, P> result(val.num_rows(), val.num_cols());
+	for(int r = 0; r < val.num_rows(); ++r)
+		for(int c = 0; c < val.num_cols(); ++c)
 			result[r][c] = val[r][c].deriv(dim);
 	return result;
 }
-- 
2.43.0


From 2d87cbb34c575f626e827882ee95cf1254bc7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:58 +0000
Subject: [PATCH 72/79] fix: get_jacobian with a run-time number of derivatives

The result was a matrix with no columns, and every derivative was written past
its end. The number of derivatives was taken from the first element, which has
none if it does not depend on any variable (or does not exist).
---
 TooN/functions/fadbad.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 2962f78..32e2686 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -95,10 +95,17 @@ inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, co
 }
 
 template <unsigned D, typename P, int N, typename A>
-inline Matrix<N, D, P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
-	Matrix<N, D, P> result(N, val[0].size());
-	for(unsigned i = 0; i < val[0].size(); ++i)
-		result.T()[i] = get_derivative( val, i );
+inline Matrix<N, (D == 0 ? int(Dynamic) : int(D)), P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
+	// With a run-time number of derivatives (D is 0), elements which do not depend on any variable have none.
+	unsigned size = D;
+	for(int i = 0; i < val.size(); ++i)
+		if(val[i].size() > size)
+			size = val[i].size();
+
+	Matrix<N, (D == 0 ? int(Dynamic) : int(D)), P> result(val.size(), size);
+	for(int r = 0; r < val.size(); ++r)
+		for(unsigned c = 0; c < size; ++c)
+			result[r][c] = c < val[r].size() ? val[r].deriv(c) : P(0);
 	return result;
 }
 
-- 
2.43.0


From dc3102bd993fa6350501029df2f5628b6b8681b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:22 +0000
Subject: [PATCH 73/79] fix: WLS accumulates measurements in its own precision

The weighted Jacobian went through a double, so WLS<N, long double> was only
accurate to double, and automatic differentiation types did not compile.
---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..b0de0b2 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -100,7 +100,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			const Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -158,7 +158,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			const Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From 955734cc775850d836ac7195c20613c17289181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:23 +0000
Subject: [PATCH 74/79] fix: RobustIII computes its weights in its own
 precision

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 08384c9..4195f11 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -86,13 +86,13 @@ namespace TooN {
 		/// Returns \f$w(x)\f$.
 		Precision reweight(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			const Precision d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
 		/// Returns \f$w(x) + xw'(x)\f$.
 		Precision true_scale(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			const Precision d = (1 + x*x/sd_inlier);
 			return (1 - 3*x*x/sd_inlier)/(d*d*d);
 		}
 		///< Returns \f$\int xw(x)dx\f$.
-- 
2.43.0


From 81bc6f76df04907959c2a2696f215df72d1fb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:23 +0000
Subject: [PATCH 75/79] fix: bracket_minimum_forward backs up in its own
 precision

The steps back out of an invalid region went through double.
---
 TooN/optimization/conjugate_gradient.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 580ae3e..965d885 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -99,7 +99,7 @@ namespace TooN{
 
 		if(b_val < a_val) //We've gone downhill, so keep searching until we go back up
 		{
-			double last_good_lambda = lambda;
+			Precision last_good_lambda = lambda;
 			
 			for(;;)
 			{
@@ -126,8 +126,8 @@ namespace TooN{
 			//Back up: this will not attempt to ensure a bracket
 			if(std::isnan(c_val))
 			{
-				double bad_lambda=lambda;
-				double l=1;
+				Precision bad_lambda=lambda;
+				Precision l=1;
 
 				for(;;)
 				{
-- 
2.43.0


From 679c93531e2a32a96a234322605ffa0bb71445e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:03 +0000
Subject: [PATCH 76/79] fix: products of SO2 with different precisions compile

---
 TooN/so2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TooN/so2.h b/TooN/so2.h
index 0190bd8..632cf70 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -124,11 +124,13 @@ public:
 		return result;
 	}
 
+	/// Creates an SO2 as the product of two others
+	template <typename PA, typename PB>
+	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	inline SO2(const SO2& so2, const Invert&) : my_matrix(so2.my_matrix.T()) {}
-	template <typename PA, typename PB>
-	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
 
 	Matrix<2,2,Precision> my_matrix;
 };
-- 
2.43.0


From 28bd4e8fa64da4aa9852d49eb4d32c29b97b1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 77/79] fix: get_jacobian of a resizable vector

---
 TooN/functions/fadbad.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 32e2686..b25f71b 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -95,14 +95,14 @@ inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, co
 }
 
 template <unsigned D, typename P, int N, typename A>
-inline Matrix<N, (D == 0 ? int(Dynamic) : int(D)), P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
+inline Matrix<(N == Resizable ? int(Dynamic) : N), (D == 0 ? int(Dynamic) : int(D)), P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
 	// With a run-time number of derivatives (D is 0), elements which do not depend on any variable have none.
 	unsigned size = D;
 	for(int i = 0; i < val.size(); ++i)
 		if(val[i].size() > size)
 			size = val[i].size();
 
-	Matrix<N, (D == 0 ? int(Dynamic) : int(D)), P> result(val.size(), size);
+	Matrix<(N == Resizable ? int(Dynamic) : N), (D == 0 ? int(Dynamic) : int(D)), P> result(val.size(), size);
 	for(int r = 0; r < val.size(); ++r)
 		for(unsigned c = 0; c < size; ++c)
 			result[r][c] = c < val[r].size() ? val[r].deriv(c) : P(0);
-- 
2.43.0


From 597729b14413c44ec732d1ecddb2c3fca02cbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:25 +0000
Subject: [PATCH 78/79] fix: products of SL with different precisions compile

---
 TooN/sl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 36410cf..dbe0e2b 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -76,6 +76,10 @@ public:
 	/// returns the inverse using LU
 	SL inverse() const { return SL(*this, Invert()); }
 
+	/// creates an SL as the product of two others
+	template <typename PA, typename PB>
+	SL( const SL<N,PA> & a, const SL<N,PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+
 	/// multiplies to SLs together by multiplying the underlying matrices
 	template <typename P>
 	SL<N,typename Internal::MultiplyType<Precision, P>::type> operator*( const SL<N,P> & rhs) const { return SL<N,typename Internal::MultiplyType<Precision, P>::type>(*this, rhs); }
@@ -102,7 +106,6 @@ private:
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From 986b620212b05538fdd570461ef4ca90a45ebc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:25 +0000
Subject: [PATCH 79/79] fix: SO3 and SE2 can be multiplied in place by another
 precision

---
 TooN/se2.h | 3 ++-
 TooN/so3.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 37d4c2f..c421f7d 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -92,7 +92,8 @@ public:
 	/// @param rhs The multipier
 	template <typename P>
 	inline SE2& operator *=(const SE2<P>& rhs) { 
-		*this = *this * rhs; 
+		my_translation += my_rotation * rhs.get_translation();
+		my_rotation *= rhs.get_rotation();
 		return *this; 
 	}
 
diff --git a/TooN/so3.h b/TooN/so3.h
index d43258e..28bcc1a 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -129,7 +129,7 @@ public:
 	/// Right-multiply by another rotation matrix
 	template <typename P>
 	SO3& operator *=(const SO3<P>& rhs) {
-		*this = *this * rhs;
+		*this = SO3(*this, rhs);
 		return *this;
 	}
 
-- 
2.43.0

