From 40f8ccd9054e00b15da6a22d194fa8d9465e38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 01/77] fix: unary minus of a read-only vector or matrix view
 did not compile

---
 TooN/internal/operators.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..488fb5f 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -191,7 +191,7 @@ struct Operator<Internal::VNegate<S, P, A> > {
 
 // Negation -Vector
 template <int S, typename P, typename A>
-Vector<S, P> operator-(const Vector<S,P,A> & v){
+Vector<S, typename Internal::Clean<P>::type> operator-(const Vector<S,P,A> & v){
 	return Operator<Internal::VNegate<S,P,A> >(v);
 }
 
@@ -300,7 +300,7 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 
 // Negation -Matrix
 template <int R, int C, typename P, typename A>
-Matrix<R, C, P> operator-(const Matrix<R,C,P,A> & v){
+Matrix<R, C, typename Internal::Clean<P>::type> operator-(const Matrix<R,C,P,A> & v){
 	return Operator<Internal::MNegate<R,C,P,A> >(v);
 }
 
-- 
2.43.0


From ce2e7a7ccd529fb688c16ba6776aa541fbdfbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 02/77] fix: scalar * matrix truncated the matrix elements to
 the type of the scalar

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 488fb5f..2cf74d5 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From bb5da803e5227e54dd059f7dd4858b24533e7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 03/77] fix: row, column, diagonal and slice views of a
 Resizable vector had a bogus static size

---
 TooN/internal/vbase.hh | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..be3abb6 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -121,6 +121,9 @@ struct VBase {
 
 template<int Size, typename Precision, int Stride, typename Mem> struct GenericVBase: public Mem, public StrideHolder<Stride>
 {	
+	//A view of a Resizable vector can not itself be resized.
+	static const int ViewSize = (Size==Resizable?Dynamic:Size);
+
 	int stride() const{
 		return StrideHolder<Stride>::stride();
 	}
@@ -208,38 +211,38 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 93cbc742524935fa9404967918aaff70849dcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 04/77] fix: project and unproject of a Resizable vector did
 not compile

---
 TooN/helpers.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..9e85a75 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -179,8 +179,8 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
-		static const int Len = (Size==Dynamic?Dynamic:Size-1);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
+		static const int Len = (Size<0?Dynamic:Size-1);
 		return TooN::operator/(v.template slice<0, Len>(0 , v.size() - 1) , v[v.size() - 1]);
 	}
 
@@ -190,9 +190,9 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
-		Vector<(Size==Dynamic?Dynamic:Size+1), Precision> result(v.size()+1);
-		static const int Len = (Size==Dynamic?Dynamic:Size);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size<0?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
+		Vector<(Size<0?Dynamic:Size+1), Precision> result(v.size()+1);
+		static const int Len = (Size<0?Dynamic:Size);
 		result.template slice<0, Len>(0, v.size()) = v;
 		result[v.size()] = 1;
 		return result;
-- 
2.43.0


From 07761a500b7c72d382475a7f840f36a8bd827ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 05/77] fix: unproject of a matrix with a run-time number of
 columns did not compile

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 9e85a75..5381d87 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -221,8 +221,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result(m.num_rows()+1, m.num_cols());
+        result.slice(0,0,m.num_rows(),m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From bb302313eb80e68fce45fed08204128cd0ce887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 06/77] fix: assigning to a dynamic vector that had been moved
 from wrote through a null pointer

---
 TooN/internal/allocator.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..6eb28c6 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -251,11 +251,21 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 			return my_data;
 		};
 
+		//A vector which has been moved from has no data. Give it some
+		//before it is assigned to.
 		void try_destructive_resize(int)
-		{}
+		{
+			if(!my_data)
+			{
+				my_data = new Precision[my_size];
+				debug_initialize(my_data, my_size);
+			}
+		}
 
 		template<class Op> void try_destructive_resize(const Operator<Op>&) 
-		{}
+		{
+			try_destructive_resize(my_size);
+		}
 };
 
 
-- 
2.43.0


From bab49809821cea09929a2f7dab86121b49846a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 07/77] fix: debug initialisation wiped a Resizable vector
 assigned from itself

---
 TooN/internal/allocator.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 6eb28c6..2766d60 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -358,8 +358,13 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
-			numbers.resize(newsize);
-			debug_initialize(data(), newsize);
+			//If the size is right already, then the values are left alone
+			//since the source may refer to them.
+			if(newsize != size())
+			{
+				numbers.resize(newsize);
+				debug_initialize(data(), newsize);
+			}
 		}
 
 	public:
-- 
2.43.0


From f3e1bd00a451934d55a6a20ea01f41a591564904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 08/77] fix: matrices with a single row or column were larger
 than their elements

---
 TooN/internal/allocator.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 2766d60..1ca57d9 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -681,8 +681,11 @@ template<int R, int C, class Precision> struct MatrixSlice
 //
 // A class similar to mem, but to hold the stride information. It is only needed
 // for -1. For +int and -2, the stride is part fo teh type, or implicit.
+//
+// Tag makes the row and column strides of a matrix different (empty) classes
+// when they are equal, so that neither takes up any space.
 
-template<int s> struct StrideHolder
+template<int s, int Tag=0> struct StrideHolder
 {
 	//Constructos ignore superfluous arguments
 	StrideHolder(){}
@@ -696,7 +699,7 @@ template<int s> struct StrideHolder
 	}
 };
 
-template<> struct StrideHolder<-1>
+template<int Tag> struct StrideHolder<-1, Tag>
 {
 	StrideHolder(int s)
 	:my_stride(s){}
@@ -727,17 +730,17 @@ template<int S> struct RowStrideHolder: public StrideHolder<S>
 };
 
 
-template<int S> struct ColStrideHolder: public StrideHolder<S>
+template<int S> struct ColStrideHolder: public StrideHolder<S, 1>
 {
 	ColStrideHolder(int i)
-	:StrideHolder<S>(i){}
+	:StrideHolder<S, 1>(i){}
 
 	ColStrideHolder()
 	{}
 
 	template<class Op>
 	ColStrideHolder(const Operator<Op>& op)
-		: StrideHolder<S>(op)
+		: StrideHolder<S, 1>(op)
 	{}
 };
 
-- 
2.43.0


From bf6be2ce3449f5f94a4414d39b92a6338e63ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 09/77] fix: the matrix form of SE2::adjoint did not compile

---
 TooN/se2.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..39f08da 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<S,P2,Accessor> & vect) const {
+		SizeMismatch<3,S>::test(3, vect.size());
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
@@ -124,8 +125,10 @@ public:
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<3,3,Precision> adjoint(const Matrix<3,3,Precision,Accessor>& M) const {
+	template <int R, int C, typename P2, typename Accessor>
+	Matrix<3,3,Precision> adjoint(const Matrix<R,C,P2,Accessor>& M) const {
+		SizeMismatch<3,R>::test(3, M.num_rows());
+		SizeMismatch<3,C>::test(3, M.num_cols());
 		Matrix<3,3,Precision> result;
 		for(int i=0; i<3; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
-- 
2.43.0


From 5fd3bd1fb9f7c54ba0d0f41990bdc52d3fae8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 10/77] fix: SIM2 and SIM3 adjoints ignored the scale and left
 a component unset

---
 TooN/sim2.h | 18 +++++++++++-------
 TooN/sim3.h |  7 +++++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..a641569 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,18 +128,22 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<S,P2,Accessor> & vect) const {
+		SizeMismatch<4,S>::test(4, vect.size());
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-		result[0] += vect[2] * get_translation()[1];
-		result[1] -= vect[2] * get_translation()[0];
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * (get_scale() * vect.template slice<0,2>());
+		result[0] += vect[2] * get_translation()[1] - vect[3] * get_translation()[0];
+		result[1] -= vect[2] * get_translation()[0] + vect[3] * get_translation()[1];
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<4,4,Precision> adjoint(const Matrix<4,4,Precision,Accessor>& M) const {
+	template <int R, int C, typename P2, typename Accessor>
+	Matrix<4,4,Precision> adjoint(const Matrix<R,C,P2,Accessor>& M) const {
+		SizeMismatch<4,R>::test(4, M.num_rows());
+		SizeMismatch<4,C>::test(4, M.num_cols());
 		Matrix<4,4,Precision> result;
 		for(int i=0; i<4; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..9eeb831 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -195,8 +195,10 @@ inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (get_scale() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= get_translation() * vect[6];
+	result[6] = vect[6];
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (vect.template slice<0,3>() / get_scale());
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From 1d05d37a900273cb67dc6d9b4f28c028a25f5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 11/77] fix: SIM3 exponential and assignment from Identity only
 compiled for double

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 9eeb831..efbfe5f 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -475,7 +475,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 81fafbb2c8fb78d0889f79e826739b69b263820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 12/77] fix: SIM2 and SIM3 exponentials lost the leading series
 terms to integer division

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index efbfe5f..bcbfca2 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -436,8 +436,8 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 
 	if(fabs(s) < eps && fabs(t) < eps){
 		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
+		coeff[1] = 0.5 + s/3 - t*t/24 + s*s/8;
+		coeff[2] = 1.0/6 + s/8 - t*t/120 + s*s/20;
 	} else if(fabs(s) < eps) {
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-- 
2.43.0


From e8c116d3ce78d1d088f2c512845f2c4dd7850d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/77] fix: SIM2 exponential and logarithm used the wrong
 coefficient for the translation

---
 TooN/sim2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index a641569..3310db7 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -348,7 +348,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -369,7 +369,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - theta*theta*coeff[2]) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 31b6eb290e108d29b6d59b5f39503348527d2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 14/77] fix: SL logarithm was wrong for the diagonal generators
 of 4x4 and larger matrices

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 674328dd5c31c342f7a38729e7f73e8001933acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 15/77] fix: inverse of a single-precision SL did not compile

---
 TooN/sl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..19f069c 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
@@ -139,7 +139,7 @@ inline SL<N, Precision> SL<N, Precision>::exp( const Vector<S,P,B> & v){
 
 template <int N, typename Precision>
 inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
-	const Matrix<N> l = TooN::log(my_matrix);
+	const Matrix<N,N,Precision> l = TooN::log(my_matrix);
 	Vector<SL<N,Precision>::dim, Precision> v;
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
-- 
2.43.0


From 67fddbd4337ee312a95c314d589cf41602875897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 16/77] fix: SE3 and SIM3 matrix adjoints did not check one
 run-time dimension

---
 TooN/se3.h  | 8 ++++----
 TooN/sim3.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..f150f2c 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -190,8 +190,8 @@ inline Vector<6, Precision> SE3<Precision>::trinvadjoint(const Vector<S,P2, Acce
 template<typename Precision>
 template<int R, int C, typename P2, typename Accessor>
 inline Matrix<6,6,Precision> SE3<Precision>::adjoint(const Matrix<R,C,P2,Accessor>& M)const{
-	SizeMismatch<6,R>::test(6, M.num_cols());
-	SizeMismatch<6,C>::test(6, M.num_rows());
+	SizeMismatch<6,R>::test(6, M.num_rows());
+	SizeMismatch<6,C>::test(6, M.num_cols());
 
 	Matrix<6,6,Precision> result;
 	for(int i=0; i<6; i++){
@@ -206,8 +206,8 @@ inline Matrix<6,6,Precision> SE3<Precision>::adjoint(const Matrix<R,C,P2,Accesso
 template<typename Precision>
 template<int R, int C, typename P2, typename Accessor>
 inline Matrix<6,6,Precision> SE3<Precision>::trinvadjoint(const Matrix<R,C,P2,Accessor>& M)const{
-	SizeMismatch<6,R>::test(6, M.num_cols());
-	SizeMismatch<6,C>::test(6, M.num_rows());
+	SizeMismatch<6,R>::test(6, M.num_rows());
+	SizeMismatch<6,C>::test(6, M.num_cols());
 
 	Matrix<6,6,Precision> result;
 	for(int i=0; i<6; i++){
diff --git a/TooN/sim3.h b/TooN/sim3.h
index bcbfca2..c072345 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -220,8 +220,8 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 template<typename Precision>
 template<int R, int C, typename P2, typename Accessor>
 inline Matrix<7,7,Precision> SIM3<Precision>::adjoint(const Matrix<R,C,P2,Accessor>& M)const{
-	SizeMismatch<7,R>::test(7, M.num_cols());
-	SizeMismatch<7,C>::test(7, M.num_rows());
+	SizeMismatch<7,R>::test(7, M.num_rows());
+	SizeMismatch<7,C>::test(7, M.num_cols());
 
 	Matrix<7,7,Precision> result;
 	for(int i=0; i<7; i++){
@@ -236,8 +236,8 @@ inline Matrix<7,7,Precision> SIM3<Precision>::adjoint(const Matrix<R,C,P2,Access
 template<typename Precision>
 template<int R, int C, typename P2, typename Accessor>
 inline Matrix<7,7,Precision> SIM3<Precision>::trinvadjoint(const Matrix<R,C,P2,Accessor>& M)const{
-	SizeMismatch<7,R>::test(7, M.num_cols());
-	SizeMismatch<7,C>::test(7, M.num_rows());
+	SizeMismatch<7,R>::test(7, M.num_rows());
+	SizeMismatch<7,C>::test(7, M.num_cols());
 
 	Matrix<7,7,Precision> result;
 	for(int i=0; i<7; i++){
-- 
2.43.0


From 2d67142954a668654c94067f96ecbba7238073c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 17/77] fix: Fill refused vectors with a single element

---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..b7be049 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
-- 
2.43.0


From b2cf31b8289b2b308660125bcf8e8962a1d1dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 18/77] fix: Fill wrote outside matrices with a single column

---
 TooN/internal/comma.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index b7be049..cb0e97e 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -133,7 +133,10 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			if(m.num_cols() == 1)
+				return MatrixFiller<1, R, C, P, B>(m, 0, 1, 0);
+			else
+				return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
 
-- 
2.43.0


From 634b3d145570bed4cdcd062f127b571c3a7f88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 19/77] fix: Fill did not compile for Resizable vectors

---
 TooN/internal/overfill_error.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 3d83895..93ac276 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -29,7 +29,7 @@ namespace Internal{
 template<bool b> struct overfill;
 template<> struct overfill<0>{};
 
-template<int N, int Size> struct CheckOverFill
+template<int N, int Size, bool IsDynamic=(Size<0)> struct CheckOverFill
 {
 	static void check(int)
 	{
@@ -42,7 +42,7 @@ template<int N, int Size> struct CheckOverFill
 	};
 };
 
-template<int N> struct CheckOverFill<N, -1>
+template<int N, int Size> struct CheckOverFill<N, Size, 1>
 {
 	static void use(int){}
 	static void check(int s)
-- 
2.43.0


From 32fe19bfe90d190fa12d01a81fff6157c1da54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 20/77] fix: TOON_NDEBUG_FILL did not apply to the overfilling
 of matrices

---
 TooN/internal/overfill_error.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 93ac276..7aa995e 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -82,7 +82,7 @@ template<int N, int R, int C> struct CheckMOverFill<N, R, C, 1>
 		#ifdef TOON_TEST_INTERNALS
 			if(N >= s)
 				throw StaticMatrixOverfill();
-		#else
+		#elif !defined TOON_NDEBUG_FILL
 			if(N >= s)
 			{
 				std::cerr << "TooN overfilled matrix" << std::endl;
-- 
2.43.0


From 50f3e06d94623d6b5610a97060afcc8b8363d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 21/77] fix: Data left matrices with a run-time size unset

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From d85e47a1ddcc8dbafa99c1f14e51f1c9d3203418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 22/77] fix: subtracting Ones from a vector and Identity from a
 matrix did not compile

---
 TooN/internal/objects.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..8e89a55 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -322,10 +322,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +509,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From 8d0c8989db927dfe9a1012d6c2f4660271286277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 23/77] fix: Identity could not be subtracted from a matrix in
 place

---
 TooN/internal/objects.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 8e89a55..c88eebd 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -314,6 +314,14 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 			m[i][i] += (P)val;
 	}
 
+	template<int Rows, int Cols, typename P, typename B>
+	void minusequals(Matrix<Rows, Cols, P, B>& m) const
+	{
+		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
+		for(int i=0; i < m.num_rows(); i++)
+			m[i][i] -= (P)val;
+	}
+
 	template <int Rows, int Cols, typename P1, typename B1> 
 	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > add(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
-- 
2.43.0


From 96c32bd33ae187dc940e619f4c829c80416d24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 24/77] fix: adding a scaled Identity truncated the scale to
 the type of the matrix

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index c88eebd..f072dc7 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += (P1)s;
 	}
 	///@}
 
-- 
2.43.0


From 89afcbe1eb65592e1e3ec3762a08b6022c2f584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 25/77] fix: dividing a multiple of Ones or Identity gave zero

---
 TooN/internal/objects.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index f072dc7..0535991 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -62,6 +62,20 @@ namespace Internal{
 	template<class Rhs> Rhs operator-(One, const Rhs& v){return 1-v;} ///<Subtracts something from One
 	template<class Lhs> Lhs operator-(const Lhs& v, One){return v-1;} ///<Subtracts One from something.
 
+	inline float operator/(One, float v){return 1/v;}             ///<Divides One by something.
+	inline double operator/(One, double v){return 1/v;}           ///<Divides One by something.
+	inline long double operator/(One, long double v){return 1/v;} ///<Divides One by something.
+
+	///@internal
+	///@brief A factor which divides what it multiplies.
+	///@ingroup gInternal
+	template<class P> struct DivideBy{
+		const P& d;
+		DivideBy(const P& d_):d(d_){}
+	};
+	template<class Lhs, class P> typename DivideType<Lhs, P>::type operator*(const Lhs& v, const DivideBy<P>& f){return v/f.d;}
+	template<class P> typename DivideType<One, P>::type operator*(One, const DivideBy<P>& f){return One()/f.d;}
+
 	///Returns negative One.
 	inline int operator-(const One&)
 	{
@@ -700,7 +714,7 @@ template<template<class> class Op, class Pl, class Pr>
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template scale_me<typename Internal::DivideType<Pl, Pr>::type>(Internal::DivideBy<Pr>(r)); 
 }
 
 
-- 
2.43.0


From edad84cf4e614d29b9d5b45e0b3638566480e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 26/77] fix: constant vectors and matrices could not be
 compared with Zeros

---
 TooN/internal/matrix.hh | 2 +-
 TooN/internal/objects.h | 4 ++--
 TooN/internal/vector.hh | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/matrix.hh b/TooN/internal/matrix.hh
index 92ae119..3fcc1d1 100644
--- a/TooN/internal/matrix.hh
+++ b/TooN/internal/matrix.hh
@@ -283,7 +283,7 @@ public:
 	}
 
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}
diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 0535991..56ac177 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -159,7 +159,7 @@ template<> struct Operator<Internal::Zero> {
 	///@}
 
 	template<int R, int C, class P, class B>
-	bool notequal(Matrix<R,C,P,B>& m) const {
+	bool notequal(const Matrix<R,C,P,B>& m) const {
 		for(int r=0; r<m.num_rows(); r++)
 			for(int c=0; c<m.num_cols(); c++)
 				if(m[r][c] != 0)
@@ -170,7 +170,7 @@ template<> struct Operator<Internal::Zero> {
 
 
 	template<int S, class P, class B>
-	bool notequal(Vector<S,P,B>& v) const {
+	bool notequal(const Vector<S,P,B>& v) const {
 		for(int i=0; i<v.size(); i++)
 			if(v[i] != 0)
 				return 1;
diff --git a/TooN/internal/vector.hh b/TooN/internal/vector.hh
index 1892831..1230f79 100644
--- a/TooN/internal/vector.hh
+++ b/TooN/internal/vector.hh
@@ -379,7 +379,7 @@ public:
 	
 	
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}		
-- 
2.43.0


From 17fc5f8f710e3c33165a298c44e6dbf8a9025e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 27/77] fix: gaussian_elimination with a vector did not check
 run-time sizes

---
 TooN/gaussian_elimination.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..558db71 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -44,6 +44,9 @@ namespace TooN {
 		using std::swap;
 		using std::abs;
 
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
+
 		int size=b.size();
 
 		for (int i=0; i<size; ++i) {
-- 
2.43.0


From d992a71375b80426984c4a37190d6bcf57007d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 28/77] fix: elimination narrowed long double intermediate
 values to double

---
 TooN/gauss_jordan.h         | 6 +++---
 TooN/gaussian_elimination.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/gauss_jordan.h b/TooN/gauss_jordan.h
index fb5fdb8..5547d65 100644
--- a/TooN/gauss_jordan.h
+++ b/TooN/gauss_jordan.h
@@ -64,7 +64,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 		  using std::abs;
 			int pivotpos = col;
-			double pivotval = abs(m[pivotpos][col]);
+			Precision pivotval = abs(m[pivotpos][col]);
 			for(int p=col+1; p <m.num_rows(); p++)
 			  if(abs(m[p][col]) > pivotval)
 				{
@@ -82,7 +82,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 			if(row != col)
 			{
-				double multiple = m[row][col] / m[col][col];
+				Precision multiple = m[row][col] / m[col][col];
 		
 				//We could eliminate some of the computations in the augmented
 				//matrix, if the augmented half is the identity. In general, it
@@ -102,7 +102,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 	//square matrix, since it is diagonal, and ends up as the identity.
 	for(int row=0;row < m.num_rows(); row++)
 	{
-		double mul = 1/m[row][row];
+		Precision mul = 1/m[row][row];
 
 		m[row][row] = 1;
 
diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 558db71..1d9de13 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -54,7 +54,7 @@ namespace TooN {
 			Precision maxval = abs(A[i][i]);
 			
 			for (int ii=i+1; ii<size; ++ii) {
-				double v =  abs(A[ii][i]);
+				Precision v =  abs(A[ii][i]);
 				if (v > maxval) {
 					maxval = v;
 					argmax = ii;
@@ -74,7 +74,7 @@ namespace TooN {
 			b[i] *= inv_pivot;
 			
 			for (int u=i+1; u<size; ++u) {
-				double factor = A[u][i];
+				Precision factor = A[u][i];
 				//A[u][i] = 0;
 				for (int j=i+1; j<size; ++j)
 					A[u][j] -= factor * A[i][j];
-- 
2.43.0


From 6f356ecdc8c961e0aa2df6e2d676102995c5ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 29/77] fix: LU::backsub did not undo the row swaps for a
 dynamic number of right hand sides

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..8c4dbc2 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 5935c1ad2d7397f3720f8327fb532dd7f75a3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 30/77] fix: LU::backsub did not compile for float

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 8c4dbc2..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 4b2834693c1bbf896d51eac04fea199ea479808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 31/77] fix: SVD::rank counted the negligible singular values

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..6f316d8 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -221,9 +221,9 @@ public:
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 861d7a3b3ef5ea6914ba27fe65120a9199332f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 32/77] fix: SVD queries were fixed to double whatever the
 precision of the decomposition

---
 TooN/GR_SVD.h |  2 +-
 TooN/SVD.h    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..7d6e197 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N,Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
diff --git a/TooN/SVD.h b/TooN/SVD.h
index 6f316d8..0a75290 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -179,7 +179,7 @@ public:
 	Matrix<Cols,Cols2, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Matrix<Rows2,Cols2,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -192,7 +192,7 @@ public:
 	Vector<Cols, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Vector<Size,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -201,8 +201,8 @@ public:
 	/// if you need the inverse just to multiply it by a matrix or a vector, use 
 	/// one of the backsub() functions, which will be faster.
 	/// See the detailed description of the pseudo-inverse and condition variables.
-	Matrix<Cols,Rows> get_pinv(const Precision condition = condition_no){
-		Vector<Min_Dim> inv_diag(min_dim());
+	Matrix<Cols,Rows,Precision> get_pinv(const Precision condition = condition_no){
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return diagmult(get_VT().T(),inv_diag) * get_U().T();
 	}
@@ -264,7 +264,7 @@ public:
 	///otherwise 0 is returned.
 	///@param inv_diag Vector in which to return the inverse diagonal.
 	///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-	void get_inv_diag(Vector<Min_Dim>& inv_diag, const Precision condition){
+	void get_inv_diag(Vector<Min_Dim,Precision>& inv_diag, const Precision condition){
 		for(int i=0; i<min_dim(); i++){
 			if(my_diagonal[i] * condition <= my_diagonal[0]){
 				inv_diag[i]=0;
-- 
2.43.0


From 3e5b2f266221b4c202f86802262b17f22c7b534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 33/77] fix: WLS::add_mJ did not check the run-time size of the
 Jacobian

---
 TooN/wls.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..02b7219 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,7 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
@@ -115,6 +116,7 @@ public:
 	inline void add_mJ(const Vector<S2, Precision, VB>& m, const Matrix<S2,Size, Precision, B2>& J, Precision weight = 1) {
 
 		SizeMismatch<S2,S2>::test(m.size(), J.num_rows());
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.num_cols());
 		for(int r=0; r < J.num_rows(); r++)
 			add_mJ(m[r], J[r], weight);
 			
-- 
2.43.0


From d64ec85444dce6248062df8cc833ea6dc07bd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 34/77] fix: WLS::add_sparse_mJ wrote outside the system for a
 block which does not fit

---
 TooN/wls.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 02b7219..05bf23c 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -157,6 +157,8 @@ public:
 	inline void add_sparse_mJ(const Precision m,
 					   const Vector<N,Precision,B1>& J1, const int index1,
 					   const Precision weight = 1){
+		//Reject blocks which do not lie inside the system
+		Internal::CheckSlice<Size, Dynamic, Dynamic>::check(my_vector.size(), index1, J1.size());
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-- 
2.43.0


From 9b4b44d98ef048780d55549a6069df582ce8afb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 35/77] fix: WLS narrowed long double measurements to double

---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 05bf23c..91a9181 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -101,7 +101,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -162,7 +162,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From 5be7c79bc5cc3eb5542e1c89e5ca55840bcadb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 36/77] fix: RobustII::true_scale was not the derivative of x
 w(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..bea1b7d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From 7bb38f38e4e2e0bde8626f136bf8eed654a9f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 37/77] fix: ILinear::objective was twice the integral of x
 w(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index bea1b7d..b776432 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return 0.5*d*d;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From efa3dbfb8f7d16eab8456317f30342476544b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 38/77] fix: IRLS accumulated the curvature from an
 uninitialised vector instead of the Jacobian

---
 TooN/irls.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index b776432..e601ef7 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,11 +122,11 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
+			Vector<Size,Precision> scaledJ(J*ts);
 
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += J.as_col() * scaledJ.as_row();
 
 		}
 
-- 
2.43.0


From 6f106e3a2da88d70b9502e7eb7c1f78e2077df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 39/77] fix: merging IRLS systems lost the residual of the
 merged system

---
 TooN/irls.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index e601ef7..5a8d30e 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -131,8 +131,9 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From cd38d6f858e41bf146d5239180c325d951660f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 40/77] fix: SymEigen<3> left the eigenvalues of a zero matrix
 unset

---
 TooN/SymEigen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..c2c4121 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -157,6 +157,7 @@ namespace Internal{
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = Zeros;
 				return;
 			}
 
-- 
2.43.0


From db50e15e10daf9df6368405eee73574bf3d99d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 41/77] fix: SymEigen<3> replaced the eigenvectors of small
 matrices by the identity

---
 TooN/SymEigen.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index c2c4121..2c3a454 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -152,7 +152,8 @@ namespace Internal{
             using std::swap;
             
 			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
+			//The eigenvectors below are quadratic in the elements of m
+			double eps = 1e-7 * a_norm * a_norm;
 
 			if(a_norm == 0)
 			{
-- 
2.43.0


From 6fe520b6b36fc9571c87b3a2bafd06e7626db905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 42/77] fix: SymEigen<3> normalised the wrong eigenvectors when
 one of them vanished

---
 TooN/SymEigen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 2c3a454..249f21b 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -298,7 +298,7 @@ namespace Internal{
 				//This is blessedly rare
 		
 				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
+				int is[] = {0, 1, 2};
 				
 				//Sort them
 				if(ns[0] > ns[1])
@@ -321,8 +321,8 @@ namespace Internal{
 				if(ns[1] >= eps)
 				{
 					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
+					normalize(eig[is[1]]);
+					normalize(eig[is[2]]);
 					eig[is[0]] = eig[is[1]]^eig[is[2]];
 				}
 				else if(ns[2] >= eps)
-- 
2.43.0


From 43ef1f1ac150a14512271fa15c6adafc21530377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 43/77] fix: SymEigen<3> returned NaN for a repeated eigenvalue
 when the other eigenvector is along (1,1,1)

---
 TooN/SymEigen.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 249f21b..1097860 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -329,8 +329,14 @@ namespace Internal{
 				{
 					normalize(eig[is[2]]);
 					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
+					//Use the axis furthest from the eigenvector: it is never parallel to it.
+					const Vector<3> e = eig[is[2]];
+					int axis = 0;
+					for(int i=1; i < 3; i++)
+						if(e[i]*e[i] < e[axis]*e[axis])
+							axis = i;
+					Vector<3> p = Zeros;
+					p[axis] = 1;
 
 					//Gram-Schmit
 					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-- 
2.43.0


From 2ed8d20f1c877874127779b2c1a3e916d55d39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 44/77] fix: golden_section.h did not compile: sqrt found only
 the matrix version

---
 TooN/optimization/brent.h          | 2 +-
 TooN/optimization/golden_section.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..b862b26 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,9 +48,10 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
+		using std::sqrt;
 		//The golden ratio:
 		const Precision g = (3.0 - sqrt(5))/2;
 
@@ -127,7 +128,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From d9c4237cf0adda58fd99aab7efab3c058a53b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 45/77] fix: golden_section_search ignored the iteration limit

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index b862b26..b9e2dd9 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -83,6 +83,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From cb441605249d3257b7f7b19a17cc7147d68cfb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 46/77] fix: conjugate_gradient.h could not be included twice

---
 TooN/optimization/conjugate_gradient.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..817fbad 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -23,6 +23,9 @@
 //ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 //POSSIBILITY OF SUCH DAMAGE.
 
+#ifndef TOON_INCLUDE_CONJUGATE_GRADIENT_H
+#define TOON_INCLUDE_CONJUGATE_GRADIENT_H
+
 #include <TooN/optimization/brent.h>
 #include <utility>
 #include <cmath>
@@ -431,3 +434,5 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 };
 
 }
+
+#endif
-- 
2.43.0


From 6493d39e538527a1662c55a94e2d8aa9bae7fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 47/77] fix: ConjugateGradient performed one iteration more
 than the limit

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 817fbad..7d62e97 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -378,7 +378,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	bool finished()
 	{
 		using std::abs;
-		return iterations > max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
+		return iterations >= max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
 	}
 
 	///After an iteration, update the gradient and conjugate using the
-- 
2.43.0


From a0800d0effacf8b9109ae491cf34e0e8b9f6f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 48/77] fix: ConjugateGradient did not compile for float

---
 TooN/optimization/conjugate_gradient.h | 42 +++++++++++++-------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 7d62e97..83bdb80 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -102,7 +102,7 @@ namespace TooN{
 
 		if(b_val < a_val) //We've gone downhill, so keep searching until we go back up
 		{
-			double last_good_lambda = lambda;
+			Precision last_good_lambda = lambda;
 			
 			for(;;)
 			{
@@ -129,8 +129,8 @@ namespace TooN{
 			//Back up: this will not attempt to ensure a bracket
 			if(std::isnan(c_val))
 			{
-				double bad_lambda=lambda;
-				double l=1;
+				Precision bad_lambda=lambda;
+				Precision l=1;
 
 				for(;;)
 				{
@@ -170,7 +170,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -228,13 +228,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -255,7 +255,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -266,7 +266,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -277,7 +277,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -330,13 +330,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -389,7 +389,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From c834866153024e58ef6c1c4d054f46235b644220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 49/77] fix: DownhillSimplex stored float vertices with the
 values at other, unrounded points

---
 TooN/optimization/downhill_simplex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..5adb612 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -208,7 +208,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			int worst = get_worst();
 			Precision second_worst_val=-HUGE_VAL, bestval = HUGE_VAL, worst_val = values[worst];
 			int best=0;
-			Vector<N> x0 = Zeros(simplex.num_cols());
+			Vector<N, Precision> x0 = Zeros(simplex.num_cols());
 
 
 			for(int i=0; i < simplex.num_rows(); i++)
@@ -232,13 +232,13 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 
 
 			//Reflect the worst point about the centroid.
-			Vector<N> xr = (1 + alpha) * x0 - alpha * simplex[worst];
+			Vector<N, Precision> xr = (1 + alpha) * x0 - alpha * simplex[worst];
 			Precision fr = func(xr);
 
 			if(fr < bestval)
 			{
 				//If the new point is better than the smallest, then try expanding the simplex.
-				Vector<N> xe = rho * xr + (1-rho) * x0;
+				Vector<N, Precision> xe = rho * xr + (1-rho) * x0;
 				Precision fe = func(xe);
 
 				//Keep whichever is best
@@ -271,7 +271,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			//a bit.
 			if(fr < worst_val)
 			{
-				Vector<N> xc = (1 + gamma) * x0 - gamma * simplex[worst];
+				Vector<N, Precision> xc = (1 + gamma) * x0 - gamma * simplex[worst];
 				Precision fc = func(xc);
 
 				//If this helped, use it
-- 
2.43.0


From 96a1a68f5555ad92b300c1242d740c0660a4a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 50/77] fix: numerical Hessian probed away from the requested
 point in coordinates differentiated earlier

---
 TooN/functions/derivatives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..9c8f619 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,9 @@ namespace TooN{
 				x[j] = v[j] - h;
 				double d = f(x);
 
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From 31971a44fda5d9d4d7f68c1e18c057f5741ebe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 51/77] fix: Lapack_Cholesky::get_inverse was a dynamic double
 matrix whatever the decomposition

---
 TooN/Lapack_Cholesky.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..ce70667 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -158,7 +158,7 @@ public:
 		return det*det;
 	}
 
-	Matrix<> get_inverse() const {
+	Matrix<Size,Size,Precision> get_inverse() const {
 		Matrix<Size, Size, Precision> M(my_cholesky.num_rows(),my_cholesky.num_rows());
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
-- 
2.43.0


From 512430f8ff6f435c35aabd5307c1297a185aca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 52/77] fix: IRLS::add_mJ did not compile for a Jacobian whose
 size is known at another time than that of the system

---
 TooN/wls.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 91a9181..22bc434 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -94,9 +94,9 @@ public:
 	/// @param m The value of the measurement
 	/// @param J The Jacobian for the measurement \f$\frac{\partial\text{m}}{\partial\text{param}_i}\f$
 	/// @param weight The inverse variance of the measurement (default = 1)
-	template<class B2, class P2>
-	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
-		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
+	template<int Size2, class B2, class P2>
+	inline void add_mJ(Precision m, const Vector<Size2, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size2>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 698457c4db562cb425262bab06b53f0bcab63388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 53/77] fix: slice check accepted a slice whose start plus
 length overflows an int

---
 TooN/internal/slice_error.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..e19024b 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,11 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Subtracting, since the sum of start and length can overflow
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Start>::n(start) > N<Size>::n(size) ||
+			   N<Length>::n(length) > N<Size>::n(size) - N<Start>::n(start))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 7ceba877c3b0426719e3681b1a55d3b7ce8b909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 54/77] fix: product of SO2s (and of SE2s and SIM2s) of
 different precisions did not compile

---
 TooN/so2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..e6513a0 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -51,6 +51,7 @@ class SO2 {
 	friend std::istream& operator>> <Precision>(std::istream&, SO2& );
 	friend std::istream& operator>> <Precision>(std::istream&, SE2<Precision>& );
 	friend std::istream& operator>> <Precision>(std::istream&, SIM2<Precision>& );
+	template <typename P> friend class SO2;
 
 public:
 	/// Default constructor. Initialises the matrix to the identity (no rotation)
-- 
2.43.0


From 676c0c1b0eb764d8dcaf4914e149de3f67ae90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 55/77] fix: product of SLs of different precisions did not
 compile

---
 TooN/sl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 19f069c..3600e62 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -55,6 +55,7 @@ template <int N, typename P> std::istream & operator>>(std::istream &, SL<N, P>
 /// @ingroup gTransforms
 template <int N, typename Precision = DefaultPrecision>
 class SL {
+	template <int M, typename P> friend class SL;
 	friend std::istream & operator>> <N,Precision>(std::istream &, SL &);
 public:
 	static const int size = N;          ///< size of the matrices represented by SL<N>
@@ -102,7 +103,8 @@ private:
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+	template <typename PA, typename PB>
+	SL( const SL<N,PA> & a, const SL<N,PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From 47576d184a7713f15f248a84764c9b3d2214efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 56/77] fix: SL::operator*= returned a copy, so a chained
 assignment was lost

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 3600e62..b4f728d 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -83,7 +83,7 @@ public:
 
 	/// right multiplies this SL with another one
 	template <typename P>
-	SL operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
+	SL & operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
 
 	/// exponentiates a vector in the Lie algebra to compute the corresponding element
 	/// @arg v a vector of dimension SL::dim
-- 
2.43.0


From e0775c761b619c6a796778729bca659e3d2c6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 57/77] fix: DiagonalMatrix::diagonal_slice() did not compile
 for a const object

---
 TooN/internal/diagmatrix.h | 2 +-
 TooN/internal/vbase.hh     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..141e1d4 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -149,7 +149,7 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	const typename Vector<Size, Precision, Base>::as_const_slice_type diagonal_slice() const {
 		return this->my_vector.as_slice();
 	}
 
diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index be3abb6..1ffab90 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -228,6 +228,7 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 
 	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, const Precision, ConstSliceBase> as_const_slice_type;
 	
 	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
 		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
-- 
2.43.0


From 72f6e96c72a3113b1c6ee23a67a65b455e8091a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 58/77] fix: inverse and negation of a diagonal view of
 constant data did not compile

---
 TooN/TooN.h                | 1 +
 TooN/internal/diagmatrix.h | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/TooN.h b/TooN/TooN.h
index 17bd7b9..d31f9da 100644
--- a/TooN/TooN.h
+++ b/TooN/TooN.h
@@ -37,6 +37,7 @@
 #include <vector>
 #include <initializer_list>
 #include <complex>
+#include <type_traits>
 #include <TooN/internal/config.hh>
 
 #if defined TOON_NDEBUG || defined NDEBUG
diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index 141e1d4..bbbe990 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -153,14 +153,14 @@ public:
 		return this->my_vector.as_slice();
 	}
 
-	DiagonalMatrix<Size, Precision> operator-() const
+	DiagonalMatrix<Size, typename std::remove_const<Precision>::type> operator-() const
 	{
 		return -this->my_vector;
 	}
 
-	DiagonalMatrix<Size, Precision> inverse() const
+	DiagonalMatrix<Size, typename std::remove_const<Precision>::type> inverse() const
 	{
-		Vector<Size, Precision> inv(this->my_vector.size());
+		Vector<Size, typename std::remove_const<Precision>::type> inv(this->my_vector.size());
 		for(int i=0; i < inv.size(); i++)
 			inv[i] = 1 / this->my_vector[i];
 		return inv;
-- 
2.43.0


From 18c6db478df5dc7bf2ebd0ed30b767eaf639bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 59/77] fix: RobustIII could not be used with IRLS, as it had
 no true_scale()

---
 TooN/irls.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 5a8d30e..3631238 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -89,6 +89,12 @@ namespace TooN {
 			double d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
+		/// Returns \f$w(x) + xw'(x)\f$.
+		Precision true_scale(Precision x) const
+		{
+			double d = (1 + x*x/sd_inlier);
+			return 1/(d*d) - 4*x*x / (sd_inlier*d*d*d);
+		}
 		///< Returns \f$\int xw(x)dx\f$.
 		Precision objective(Precision x) const 
 		{
-- 
2.43.0


From b0b06b115eff0f4c8c84549ec4ede0c9ffba7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 60/77] fix: SO3 could not be constructed from two run-time
 sized vectors

---
 TooN/so3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..2cf26b9 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,7 +78,7 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		Vector<3, Precision> n = a ^ b;
+		Vector<3, Precision> n = a.template slice<0,3>() ^ b.template slice<0,3>();
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
-- 
2.43.0


From 473380c1fa119b54112862d1c534821abe415651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 61/77] fix: a run-time sized Matrix could not be constructed
 from a DiagonalMatrix

---
 TooN/internal/diagmatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index bbbe990..4e33337 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -74,6 +74,9 @@ namespace TooN {
 
 		///@name Operator members
 		///@{
+		int num_rows() const {return my_vector.size();}
+		int num_cols() const {return my_vector.size();}
+
 		template<int R, int C, class P, class B>
 		void eval(Matrix<R,C,P,B>& m) const {
 			SizeMismatch<Size, Size>::test(m.num_rows(), m.num_cols());
-- 
2.43.0


From 73a8648de6e706ef5aaae6ebc8b1637ff4a3fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:52 +0000
Subject: [PATCH 62/77] fix: TooN/LU.h could not be included first when LAPACK
 is used for determinants

---
 TooN/determinant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/determinant.h b/TooN/determinant.h
index 931a02c..4ef35ee 100644
--- a/TooN/determinant.h
+++ b/TooN/determinant.h
@@ -147,6 +147,9 @@ namespace TooN
 	}
 	
 	#ifdef TOON_DETERMINANT_LAPACK
+		//If TooN/LU.h is the first header included, it is not complete yet.
+		template<int Size, class Precision> class LU;
+
 		/** Compute the determinant using TooN::LU.
 			@param A The matrix to find the determinant of.
 			@returns determinant.
-- 
2.43.0


From c27b177eb65307cca7ef720d01167d2f08ca5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 63/77] fix: LU could not decompose or solve with views of
 constant data

---
 TooN/LU.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index d52f72d..728ea57 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -69,15 +69,15 @@ class LU {
 
 	/// Construct the %LU decomposition of a matrix. This initialises the class, and
 	/// performs the decomposition immediately.
-	template<int S1, int S2, class Base>
-	LU(const Matrix<S1,S2,Precision, Base>& m)
+	template<int S1, int S2, class P2, class Base>
+	LU(const Matrix<S1,S2,P2, Base>& m)
 	:my_lu(m.num_rows(),m.num_cols()),my_IPIV(m.num_rows()){
 		compute(m);
 	}
 	
 	/// Perform the %LU decompsition of another matrix.
-	template<int S1, int S2, class Base>
-	void compute(const Matrix<S1,S2,Precision,Base>& m){
+	template<int S1, int S2, class P2, class Base>
+	void compute(const Matrix<S1,S2,P2,Base>& m){
 		//check for consistency with Size
 		SizeMismatch<Size, S1>::test(my_lu.num_rows(),m.num_rows());
 		SizeMismatch<Size, S2>::test(my_lu.num_rows(),m.num_cols());
@@ -97,8 +97,8 @@ class LU {
 
 	/// Calculate result of multiplying the inverse of M by another matrix. For a matrix \f$A\f$, this
 	/// calculates \f$M^{-1}A\f$ by back substitution (i.e. without explictly calculating the inverse).
-	template <int Rows, int NRHS, class Base>
-	Matrix<Size,NRHS,Precision> backsub(const Matrix<Rows,NRHS,Precision,Base>& rhs){
+	template <int Rows, int NRHS, class P2, class Base>
+	Matrix<Size,NRHS,Precision> backsub(const Matrix<Rows,NRHS,P2,Base>& rhs){
 		//Check the number of rows is OK.
 		SizeMismatch<Size, Rows>::test(my_lu.num_rows(), rhs.num_rows());
 	
@@ -126,8 +126,8 @@ class LU {
 
 	/// Calculate result of multiplying the inverse of M by a vector. For a vector \f$b\f$, this
 	/// calculates \f$M^{-1}b\f$ by back substitution (i.e. without explictly calculating the inverse).
-	template <int Rows, class Base>
-	Vector<Size,Precision> backsub(const Vector<Rows,Precision,Base>& rhs){
+	template <int Rows, class P2, class Base>
+	Vector<Size,Precision> backsub(const Vector<Rows,P2,Base>& rhs){
 		//Check the number of rows is OK.
 		SizeMismatch<Size, Rows>::test(my_lu.num_rows(), rhs.size());
 	
-- 
2.43.0


From 04ae4fbe5a516a045e9b93ba0ee1a0a198516fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 64/77] fix: the documentation of LU::get_lu() exchanged the
 two factors

---
 TooN/LU.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 728ea57..0e46835 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -43,8 +43,8 @@ The %LU decomposition is the fastest way of solving the equation
 \f$M\f$ is (nearly) singular (in which cases the SymEigen or SVD decompositions
 are better). It decomposes a matrix \f$M\f$ into
 \f[M = L \times U\f]
-where \f$L\f$ is a lower-diagonal matrix with unit diagonal and \f$U\f$ is an 
-upper-diagonal matrix. The library only supports the decomposition of square matrices.
+where \f$L\f$ is a lower-diagonal matrix and \f$U\f$ is an 
+upper-diagonal matrix with unit diagonal. The library only supports the decomposition of square matrices.
 It can be used as follows to solve the \f$M\underline{x} = \underline{c}\f$ problem as follows:
 @code
   // construct M
@@ -168,10 +168,10 @@ class LU {
 	}
 
 	/// Returns the L and U matrices. The permutation matrix is not returned.
-	/// Since L is lower-triangular (with unit diagonal)
-	/// and U is upper-triangular, these are returned conflated into one matrix, where the 
-	/// diagonal and above parts of the matrix are U and the below-diagonal part, plus a unit diagonal, 
-	/// are L.
+	/// Since L is lower-triangular and U is upper-triangular (with unit diagonal),
+	/// these are returned conflated into one matrix, where the diagonal and below parts of the
+	/// matrix are L and the above-diagonal part, plus a unit diagonal, are U.
+	/// The product of L and U is the original matrix with its columns permuted.
 	const Matrix<Size,Size,Precision>& get_lu()const {return my_lu;}
 	
 	private:
-- 
2.43.0


From 7ace5f8097239c911d5b4aabe24d4adae25d9ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 65/77] fix: SymEigen could not decompose views of constant
 data

---
 TooN/SymEigen.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 1097860..58a9f11 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -60,8 +60,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param evectors Eigen vector output
 		///@param evalues Eigen values output
-		template<int Rows, int Cols, typename P, typename B>
-		static inline void compute(const Matrix<Rows,Cols,P, B>& m, Matrix<Size,Size,P> & evectors, Vector<Size, P>& evalues) {
+		template<int Rows, int Cols, typename P2, typename P, typename B>
+		static inline void compute(const Matrix<Rows,Cols,P2, B>& m, Matrix<Size,Size,P> & evectors, Vector<Size, P>& evalues) {
 
 			SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());	 //m must be square
 			SizeMismatch<Size, Rows>::test(m.num_rows(), evalues.size()); //m must be the size of the system
@@ -101,8 +101,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P, typename B>
-		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
+		template<typename P2, typename P, typename B>
+		static inline void compute(const Matrix<2,2,P2,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
 			double trace = m[0][0] + m[1][1];
 			//Only use the upper triangular elements.
 			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
@@ -144,8 +144,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P, typename B>
-		static inline void compute(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
+		template<typename P2, typename P, typename B>
+		static inline void compute(const Matrix<3,3,P2,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
             //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
             using std::sqrt;
             using std::min;
@@ -420,14 +420,14 @@ public:
 
 	/// Construct the eigen decomposition of a matrix. This initialises the class, and
 	/// performs the decomposition immediately.
-	template<int R, int C, typename B>
-	inline SymEigen(const Matrix<R, C, Precision, B>& m) : my_evectors(m.num_rows(), m.num_cols()), my_evalues(m.num_rows()) {
+	template<int R, int C, typename P2, typename B>
+	inline SymEigen(const Matrix<R, C, P2, B>& m) : my_evectors(m.num_rows(), m.num_cols()), my_evalues(m.num_rows()) {
 		compute(m);
 	}
 
 	/// Perform the eigen decomposition of a matrix.
-	template<int R, int C, typename B>
-	inline void compute(const Matrix<R,C,Precision,B>& m){
+	template<int R, int C, typename P2, typename B>
+	inline void compute(const Matrix<R,C,P2,B>& m){
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		SizeMismatch<R, Size>::test(m.num_rows(), my_evectors.num_rows());
 		Internal::ComputeSymEigen<Size>::compute(m, my_evectors, my_evalues);
-- 
2.43.0


From a8e64289a3ba052ebca300705cdc25382adfc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 66/77] fix: determinant of a view of constant data did not
 compile

---
 TooN/determinant.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/determinant.h b/TooN/determinant.h
index 4ef35ee..04fb13c 100644
--- a/TooN/determinant.h
+++ b/TooN/determinant.h
@@ -28,6 +28,7 @@
 #include <TooN/TooN.h>
 #include <cstdlib>
 #include <utility>
+#include <type_traits>
 #ifdef TOON_DETERMINANT_LAPACK
 	#include <TooN/LU.h>
 #endif
@@ -87,9 +88,10 @@ namespace TooN
 		@returns determinant.
 		@ingroup gLinAlg
 	*/
-	template<int R, int C, typename Precision, typename Base>
-	Precision determinant_gaussian_elimination(const Matrix<R, C, Precision, Base>& A_)
+	template<int R, int C, typename P, typename Base>
+	typename std::remove_const<P>::type determinant_gaussian_elimination(const Matrix<R, C, P, Base>& A_)
 	{
+		typedef typename std::remove_const<P>::type Precision;
 		Matrix<Internal::Square<R,C>::Size, Internal::Square<R,C>::Size,Precision> A = A_;
 		TooN::SizeMismatch<R, C>::test(A.num_rows(), A.num_cols());
 		using std::swap;
@@ -159,7 +161,7 @@ namespace TooN
 		P determinant_LU(const Matrix<R, C, P, B>& A)
 		{
 			TooN::SizeMismatch<R, C>::test(A.num_rows(), A.num_cols());
-			LU<Internal::Square<R,C>::Size, P> lu(A);
+			LU<Internal::Square<R,C>::Size, typename std::remove_const<P>::type> lu(A);
 			return lu.determinant();
 		}
 	#endif
-- 
2.43.0


From df6658a0e3d523c7ffab45deccbd9685954d84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 67/77] fix: SymEigen<2> and SymEigen<3> could not decompose a
 run-time sized matrix

---
 TooN/SymEigen.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 58a9f11..2477e4d 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -101,8 +101,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P2, typename P, typename B>
-		static inline void compute(const Matrix<2,2,P2,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
+		template<int Rows, int Cols, typename P2, typename P, typename B>
+		static inline void compute(const Matrix<Rows,Cols,P2,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
 			double trace = m[0][0] + m[1][1];
 			//Only use the upper triangular elements.
 			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
@@ -144,8 +144,8 @@ namespace Internal{
 		///@param m Input matrix (assumed to be symmetric)
 		///@param eig Eigen vector output
 		///@param ev Eigen values output
-		template<typename P2, typename P, typename B>
-		static inline void compute(const Matrix<3,3,P2,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
+		template<int Rows, int Cols, typename P2, typename P, typename B>
+		static inline void compute(const Matrix<Rows,Cols,P2,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
             //method uses closed form solution of cubic equation to obtain roots of characteristic equation.
             using std::sqrt;
             using std::min;
-- 
2.43.0


From 34c9fd45a0b6b980cff0ed9e3c4543445e376ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 68/77] fix: Lapack_Cholesky read the upper triangle, not the
 documented lower one

---
 TooN/Lapack_Cholesky.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index ce70667..f4d8863 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -94,11 +94,12 @@ public:
 	void do_compute(){
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potrf_("L", &N, my_cholesky_lapack.my_data, &N, &info);
+		//A row-major lower triangle is LAPACK's upper one
+		potrf_("U", &N, my_cholesky_lapack.my_data, &N, &info);
 		for (int i=0;i<N;i++) {
 		  int j;
 		  for (j=0;j<=i;j++) {
-		    my_cholesky[i][j]=my_cholesky_lapack[j][i];
+		    my_cholesky[i][j]=my_cholesky_lapack[i][j];
 		  }
 		  // LAPACK does not set upper triangle to zero, 
 		  // must be done here
@@ -124,7 +125,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=1;
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -137,7 +138,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=m.num_cols();
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -163,11 +164,11 @@ public:
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potri_("L", &N, M.my_data, &N, &info);
+		potri_("U", &N, M.my_data, &N, &info);
 		assert(info == 0);
 		for (int i=1;i<N;i++) {
 		  for (int j=0;j<i;j++) {
-		    M[i][j]=M[j][i];
+		    M[j][i]=M[i][j];
 		  }
 		}
 		return M;
-- 
2.43.0


From 736a521c15f8b424f744f475e0e8288576ababd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 69/77] fix: QR of a matrix with a column which is already
 reduced gave NaN

---
 TooN/QR.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..838c1da 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -155,6 +155,12 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 
 				Precision  nx2 = norm_sq(s.T()[0]);
 
+				//If everything below the first element is already zero, then there is
+				//nothing to reflect (and u would be zero).
+				Precision rest2 = norm_sq(s.T()[0].slice(1, sz-1));
+				if(rest2 == 0)
+					continue;
+
 				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
 
 				//We now want the vector u = x - ae
@@ -163,7 +169,10 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
 				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//
+				//x_0 - a is computed as -(|x|^2 - x_0^2)/(x_0 + a), since x_0 and a have the same
+				//sign and their difference could cancel completely.
+				s.T()[0][0] = -rest2 / (s.T()[0][0] + a);
 				//auto& u = x;
 
 				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-- 
2.43.0


From cc21afa1627f20f64dd901f98442542efe3b0943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 70/77] fix: matrix norms and trace of a view of constant data
 did not compile

---
 TooN/helpers.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 5381d87..693c140 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -238,9 +238,9 @@ namespace TooN {
 	///@param m \e m
 	///@ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
-	P inline norm_fro( const Matrix<R,C,P,B> & m ){
+	typename std::remove_const<P>::type inline norm_fro( const Matrix<R,C,P,B> & m ){
 		using std::sqrt;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int r = 0; r < m.num_rows(); ++r)
 			for(int c = 0; c < m.num_cols(); ++c)
 				n += m[r][c] * m[r][c];
@@ -252,12 +252,12 @@ namespace TooN {
 	/// computes the maximum of the sums of absolute values over rows
 	///@ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
-	P inline norm_inf( const Matrix<R,C,P,B> & m ){
+	typename std::remove_const<P>::type inline norm_inf( const Matrix<R,C,P,B> & m ){
 		using std::abs;
 		using std::max;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int r = 0; r < m.num_rows(); ++r){
-			P s = 0;
+			typename std::remove_const<P>::type s = 0;
 			for(int c = 0; c < m.num_cols(); ++c)
 				s += abs(m(r,c));
 			n = max(n,s);
@@ -269,12 +269,12 @@ namespace TooN {
 	/// computes the maximum of the sums of absolute values over columns
 	///@ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
-	P inline norm_1( const Matrix<R,C,P,B> & m ){
+	typename std::remove_const<P>::type inline norm_1( const Matrix<R,C,P,B> & m ){
 		using std::abs;
 		using std::max;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int c = 0; c < m.num_cols(); ++c){
-			P s = 0;
+			typename std::remove_const<P>::type s = 0;
 			for(int r = 0; r < m.num_rows(); ++r)
 				s += abs(m(r,c));
 			n = max(n,s);
@@ -429,9 +429,9 @@ namespace TooN {
 	/// computes the trace of a square matrix
 	///@ingroup gLinAlg
 	template<int Rows, int Cols, typename Precision, typename Base>
-	Precision trace(const Matrix<Rows, Cols, Precision, Base> & m ){
+	typename std::remove_const<Precision>::type trace(const Matrix<Rows, Cols, Precision, Base> & m ){
 		SizeMismatch<Rows,Cols>::test(m.num_rows(), m.num_cols());
-		Precision tr = 0;
+		typename std::remove_const<Precision>::type tr = 0;
 		for(int i = 0; i < m.num_rows(); ++i)
 			tr += m(i,i);
 		return tr;
-- 
2.43.0


From 1d72516ad9de794f2ac922759b0a7cf4e729f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 71/77] fix: row and column extrema of an empty matrix read
 outside it

---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 693c140..2abeae6 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -487,10 +487,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_horizontal( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_rows() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_rows() );
             for(int r=0; r<m.num_rows(); r++){
                 func.initialise( m[r][0], r, 0 );
                 for(int c=1; c<m.num_cols(); c++){
@@ -500,10 +500,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_vertical( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_cols() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_cols() );
             for(int c=0; c<m.num_cols(); c++){
                 func.initialise( m[0][c], 0, c );
                 for(int r=1; r<m.num_rows(); r++){
-- 
2.43.0


From 00953a3f7cd53e3891fcfe83f50de8635aa3f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 72/77] fix: exp of a zero matrix converted minus infinity to
 an int

---
 TooN/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 2abeae6..abfada2 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -331,7 +331,7 @@ namespace TooN {
 		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
+		const int s = l > 0 ? (int)ceil(l) : 0;
 		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
 		for(int i = 0; i < s; ++i)
 			result = result * result;
-- 
2.43.0


From af2d60f312f07179e2b6383245f23540ffeef09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:12 +0000
Subject: [PATCH 73/77] fix: conjugate gradient goes to the best known point
 when NaN cuts the bracket short

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 83bdb80..39a20fe 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -348,7 +348,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val <= b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From f11493f65603f5b709e72b535bd534de678f5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:12 +0000
Subject: [PATCH 74/77] fix: conjugate gradient accepts a bracket whose lower
 half is level

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 39a20fe..704ee0e 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -359,7 +359,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val >= b_val && b_val < c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From a87c109b0b1eadc4bfa2d1117e7a7e760ac057fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:12 +0000
Subject: [PATCH 75/77] fix: SymEigen documentation had the order of the
 eigenvalues reversed

---
 TooN/SymEigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 2477e4d..8a9a529 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -462,7 +462,7 @@ public:
 
 	/// Calculates the reciprocals of the eigenvalues of the matrix.
 	/// The vector <code>invdiag</code> lists the eigenvalues in order, from
-	/// the largest (i.e. smallest reciprocal) to the smallest.
+	/// the smallest to the largest, as get_evalues() does.
 	/// These are also the diagonal values of the matrix \f$Lambda^{-1}\f$.
 	/// Any eigenvalues which are too small are set to zero (see the SVD
 	/// detailed description for a description of the and condition variables).
@@ -483,7 +483,7 @@ public:
 	/// This returns \f$U^T\f$, so that the rows of the matrix are the eigenvectors,
 	/// which can be extracted using usual Matrix::operator[]() subscript operator.
 	/// They are returned in order of the size of the corresponding eigenvalue, i.e.
-	/// the vector with the largest eigenvalue is first.
+	/// the vector with the smallest eigenvalue is first.
 	Matrix<Size,Size,Precision>& get_evectors() {return my_evectors;}
 
 	/**\overload
-- 
2.43.0


From 77cc0502f4e2a51d255d16ee98b8ef874497a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:53 +0000
Subject: [PATCH 76/77] fix: negation of complex vectors and matrices did not
 compile

---
 TooN/internal/operators.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 2cf74d5..04ccc85 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -184,7 +184,8 @@ struct Operator<Internal::VNegate<S, P, A> > {
 	template<int S0, typename P0, typename A0>
 	void eval(Vector<S0, P0, A0> & res) const
 	{
-		res = input * -1;
+		for(int i=0; i < res.size(); ++i)
+			res[i] = -input[i];
 	}
 	int size() const { return input.size(); }
 };
@@ -292,7 +293,9 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 	template<int R0, int C0, typename P0, typename A0>
 	void eval(Matrix<R0,C0,P0,A0> & res) const
 	{
-		res = input * -1;
+		for(int r=0; r < res.num_rows(); ++r)
+			for(int c=0; c < res.num_cols(); ++c)
+				res(r,c) = -input(r,c);
 	}
 	int num_rows() const { return input.num_rows(); }
 	int num_cols() const { return input.num_cols(); }
-- 
2.43.0


From b97d56b36b924800ff0b6d25923f972b6329b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:53 +0000
Subject: [PATCH 77/77] fix: planar complex vectors only existed for double

---
 TooN/internal/planar_complex.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/internal/planar_complex.hh b/TooN/internal/planar_complex.hh
index dbac52a..12f1f88 100644
--- a/TooN/internal/planar_complex.hh
+++ b/TooN/internal/planar_complex.hh
@@ -67,16 +67,16 @@ namespace TooN{
 
 		template<int Size, typename Precision>
 		struct VLayout<Size, std::complex<Precision> >: 
-		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >
+		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >
 		{
 			VLayout(Internal::PointerToPlanarComplex<std::complex<Precision> > p, int sz=0)
-			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >(p, sz, 1)
+			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >(p, sz, 1)
 			{}
 
 			
-- 
2.43.0

