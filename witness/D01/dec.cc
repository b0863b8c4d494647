// What decompositions read, what they leave alone, and that asking again changes nothing
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/helpers.h>
#define throw(x) __builtin_trap()
#include <TooN/GR_SVD.h>
#undef throw
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/wls.h>
using namespace so;
enum { DY=-1 };
template<int n,class Q,class B> static inline bool eq(const Vector<n,Q,B>&x,const Vector<n,Q,B>&y){ bool r=x.size()==y.size(); for(int i=0;i<x.size();i++) r=r&(x[i]==y[i]); return r; }
template<int n,int m,class Q,class B> static inline bool eq(const Matrix<n,m,Q,B>&x,const Matrix<n,m,Q,B>&y){ bool r=x.num_rows()==y.num_rows()&&x.num_cols()==y.num_cols(); for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) r=r&(x(i,j)==y(i,j)); return r; }
static inline bool eq(P x,P y){ return x==y; } static inline bool eq(int x,int y){ return x==y; } static inline bool eq(bool x,bool y){ return x==y; }
#define V_(n) wrapVector<n>(b)
#define M_(n) wrapMatrix<n,2>(c)
// every query of each decomposition, on an object called d
#define Q_chol(F,n) F(d.backsub(V_(n))) F(d.backsub(M_(n))) F(d.get_inverse()) F(d.determinant()) F(d.mahalanobis(V_(n))) F(d.get_L()) F(d.get_unscaled_L()) F(d.get_D())
#define Q_lchol(F,n) F(d.backsub(V_(n))) F(d.backsub(M_(n))) F(d.get_inverse()) F(d.determinant()) F(d.mahalanobis(V_(n))) F(d.get_L()) F(d.rank())
#define Q_lu(F,n) F(d.backsub(V_(n))) F(d.backsub(M_(n))) F(d.get_inverse()) F(d.determinant()) F(d.get_lu()) F(d.get_info())
#define Q_svd(F,n) F(d.backsub(V_(n))) F(d.backsub(M_(n))) F(d.get_pinv()) F(d.determinant()) F(d.get_U()) F(d.get_VT()) F(d.get_diagonal()) F(d.rank())
#define Q_se(F,n) F(d.backsub(V_(n))) F(d.backsub(M_(n))) F(d.get_pinv()) F(d.get_determinant()) F(d.get_evectors()) F(d.get_evalues()) F(d.is_posdef()) F(d.is_negdef())
#define Q_qr(F,n) F(d.get_R()) F(d.get_Q())
#define Q_qrl(F,n) F(d.get_R()) F(d.get_Q()) F(d.get_P())
#define K_chol Cholesky
#define K_lchol Lapack_Cholesky
#define K_lu LU
#define K_se SymEigen
#define TY_sq(K,Z,R) K_##K<Z,P>
#define TY_svd(Z,R) SVD<Z,R,P>
#define AGAIN(x) { auto r=x; auto s=x; vf_assert(eq(r,s)); }
#define FIRST(x) { auto r=x; FN d(m0); auto s=x; vf_assert(eq(r,s)); }
// asking twice, and asking after every other question has been asked
#define REP(K,n,nm,TYPE) \
 CHK(again_##K##_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n>&b,const Arr<P,n*2>&c){ const Matrix<Z_##nm(n),Z_##nm(n),P> m=wrapMatrix<n,n>(a); TYPE d(m); Q_##K(AGAIN,n) } \
 CHK(fresh_##K##_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n>&b,const Arr<P,n*2>&c){ const Matrix<Z_##nm(n),Z_##nm(n),P> m=wrapMatrix<n,n>(a); TYPE d0(m); { TYPE&d=d0; Q_##K(ASK,n) } TYPE d1(m); Q_##K(SAMEQ,n) }
#define ASK(x) x;
#define SAMEQ(x) { auto f=[&](auto&d){ return x; }; auto r=f(d0); auto s=f(d1); vf_assert(eq(r,s)); }
#define MC ,
#define Z_st(n) n
#define Z_dy(n) DY
REP(chol,2,st,Cholesky<2 MC P>) REP(chol,3,st,Cholesky<3 MC P>) REP(chol,3,dy,Cholesky<DY MC P>) REP(chol,1,st,Cholesky<1 MC P>)
REP(lchol,2,st,Lapack_Cholesky<2 MC P>) REP(lchol,3,dy,Lapack_Cholesky<DY MC P>)
REP(lu,2,st,LU<2 MC P>) REP(lu,3,st,LU<3 MC P>) REP(lu,3,dy,LU<DY MC P>)
REP(svd,2,st,SVD<2 MC 2 MC P>) REP(svd,3,st,SVD<3 MC 3 MC P>) REP(svd,3,dy,SVD<DY MC DY MC P>)
REP(se,2,st,SymEigen<2 MC P>) REP(se,4,st,SymEigen<4 MC P>) REP(se,3,dy,SymEigen<DY MC P>)
REP(qr,2,st,QR<2 MC 2 MC P>) REP(qrl,3,st,QR_Lapack<3 MC 3 MC P>) REP(qrl,3,dy,QR_Lapack<DY MC DY MC P>)
// only one triangle of a symmetric matrix counts: T is 0 for the lower, 1 for the upper
#define TRI(K,n,nm,TYPE,T) \
 CHK(triangle_##K##_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n*n>&o,const Arr<P,n>&b,const Arr<P,n*2>&c){ P e[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) e[i*n+j]= (T?i>j:j>i)? o[i*n+j] : a[i*n+j]; const Matrix<Z_##nm(n),Z_##nm(n),P> m=wrapMatrix<n,n>(a); const Matrix<Z_##nm(n),Z_##nm(n),P> w=wrapMatrix<n,n>((const P*)e); TYPE d0(m); TYPE d1(w); Q_##K(SAMEQ,n) }
TRI(chol,2,st,Cholesky<2 MC P>,0) TRI(chol,3,st,Cholesky<3 MC P>,0) TRI(chol,3,dy,Cholesky<DY MC P>,0) TRI(chol,4,st,Cholesky<4 MC P>,0)
TRI(lchol,2,st,Lapack_Cholesky<2 MC P>,0) TRI(lchol,3,st,Lapack_Cholesky<3 MC P>,0) TRI(lchol,3,dy,Lapack_Cholesky<DY MC P>,0)
TRI(se,2,st,SymEigen<2 MC P>,1)
// the larger eigen-decompositions do not say which triangle they read, but it is one
#define ONE(n,nm,TYPE) \
 CHK(triangle_se_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n*n>&o){ P e[n*n],f[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ e[i*n+j]= j>i? o[i*n+j] : a[i*n+j]; f[i*n+j]= i>j? o[i*n+j] : a[i*n+j]; } const TYPE d(wrapMatrix<n,n>(a)),x(wrapMatrix<n,n>((const P*)e)),y(wrapMatrix<n,n>((const P*)f)); const bool lower=eq(d.get_evectors(),x.get_evectors())&eq(d.get_evalues(),x.get_evalues()); const bool upper=eq(d.get_evectors(),y.get_evectors())&eq(d.get_evalues(),y.get_evalues()); vf_assert(lower|upper); }
ONE(4,st,SymEigen<4 MC P>) ONE(3,dy,SymEigen<DY MC P>) ONE(5,dy,SymEigen<DY MC P>)
// the given matrix and right-hand side keep every element, and so does memory between them
#define KEEP(K,Sh,n,k,nm,...) \
 LIB(keep_##K##_##Sh##_##n##_##nm)(Arr<P,Sh<n,k>::N>&a,Arr<P,VCol<n>::N>&b,Arr<P,MSubT<n,2>::N>&c){ Sh<n,k>::with(a,[&](auto&m){ __VA_ARGS__ d(m); VCol<n>::with(b,[&](auto&v){ MSubT<n,2>::with(c,[&](auto&w){ KQ_##K }); }); }); } \
 REF(keep_##K##_##Sh##_##n##_##nm)(Arr<P,Sh<n,k>::N>&a,Arr<P,VCol<n>::N>&b,Arr<P,MSubT<n,2>::N>&c){}
#define KQ_chol d.backsub(v); d.backsub(w); d.get_inverse(); d.mahalanobis(v);
#define KQ_lchol KQ_chol
#define KQ_lu d.backsub(v); d.backsub(w); d.get_inverse(); d.determinant();
#define KQ_svd d.backsub(v); d.backsub(w); d.get_pinv();
#define KQ_se d.backsub(v); d.backsub(w); d.get_pinv();
#define KQ_qr d.get_Q(); d.get_R();
#define KQ_qrl d.get_Q(); d.get_R();
#define SHP(F,K,n,k,nm,...) F(K,MFix,n,k,nm,__VA_ARGS__) F(K,MFixC,n,k,nm,__VA_ARGS__) F(K,MDyn,n,k,nm,__VA_ARGS__) F(K,MSub,n,k,nm,__VA_ARGS__) F(K,MSubT,n,k,nm,__VA_ARGS__) F(K,MRowDyn,n,k,nm,__VA_ARGS__) F(K,MT,n,k,nm,__VA_ARGS__)
#define SHS(F,K,n,k,nm,...) F(K,MFix,n,k,nm,__VA_ARGS__) F(K,MFixC,n,k,nm,__VA_ARGS__) F(K,MSub,n,k,nm,__VA_ARGS__) F(K,MT,n,k,nm,__VA_ARGS__)
#define SHD(F,K,n,k,nm,...) F(K,MDyn,n,k,nm,__VA_ARGS__) F(K,MDynC,n,k,nm,__VA_ARGS__) F(K,MTD,n,k,nm,__VA_ARGS__) F(K,MSubT,n,k,nm,__VA_ARGS__)
SHS(KEEP,chol,3,3,st,Cholesky<3 MC P>) SHD(KEEP,chol,2,2,dy,Cholesky<DY MC P>)
SHS(KEEP,lchol,3,3,st,Lapack_Cholesky<3 MC P>) SHD(KEEP,lchol,2,2,dy,Lapack_Cholesky<DY MC P>)
SHP(KEEP,lu,3,3,st,LU<3 MC P>) SHP(KEEP,lu,2,2,dy,LU<DY MC P>)
SHP(KEEP,svd,3,3,st,SVD<3 MC 3 MC P>) SHP(KEEP,svd,4,2,dy,SVD<DY MC DY MC P>) SHP(KEEP,svd,4,2,t,SVD<4 MC 2 MC P>)
SHP(KEEP,se,3,3,dy,SymEigen<DY MC P>) SHP(KEEP,se,4,4,st,SymEigen<4 MC P>) SHP(KEEP,se,2,2,st,SymEigen<2 MC P>)
SHP(KEEP,qr,2,2,st,QR<2 MC 2 MC P>) SHP(KEEP,qrl,3,3,st,QR_Lapack<3 MC 3 MC P>) SHP(KEEP,qrl,2,4,dy,QR_Lapack<DY MC DY MC P>)
// free functions
#define FREE(Sh,n) \
 LIB(keep_det_##Sh##_##n)(Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ P x=determinant(m),y=determinant(m); vf_assert(x==y); P z=determinant_gaussian_elimination(m); vf_assert(z==determinant_gaussian_elimination(m)); }); } \
 REF(keep_det_##Sh##_##n)(Arr<P,Sh<n,n>::N>&a){}
#define FR(n) FREE(MFix,n) FREE(MFixC,n) FREE(MDyn,n) FREE(MSub,n) FREE(MSubT,n) FREE(MOwn,n)
FR(2) FR(3)
#define GE(n,nm,Z) \
 CHK(keep_ge_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n>&b,const Arr<P,n*2>&c){ Matrix<Z,Z,P> A(n,n); A=wrapMatrix<n,n>(a); Vector<Z,P> v(n); v=wrapVector<n>(b); Matrix<Z,DY,P> w(n,2); w=wrapMatrix<n,2>(c); auto x=gaussian_elimination(A,v); auto y=gaussian_elimination(A,w); auto z=gaussian_elimination(A,v); vf_assert(eq(x,z)); for(int i=0;i<n;i++){ vf_assert(v[i]==b[i]); for(int j=0;j<2;j++) vf_assert(w(i,j)==c[i*2+j]); for(int j=0;j<n;j++) vf_assert(A(i,j)==a[i*n+j]); } }
GE(2,st,2) GE(2,dy,DY) GE(3,st,3)
// solving a least-squares system twice, and looking at it, does not change it
#define WL(n,nm,Z) \
 CHK(again_wls_##n##_##nm)(const Arr<P,n*n>&a,const Arr<P,n>&b){ WLS<Z,P> w(n); w.get_C_inv()=wrapMatrix<n,n>(a); w.get_vector()=wrapVector<n>(b); w.compute(); Vector<Z,P> x=w.get_mu(); w.compute(); vf_assert(eq(x,w.get_mu())); for(int i=0;i<n;i++){ vf_assert(w.get_vector()[i]==b[i]); for(int j=0;j<n;j++) vf_assert(w.get_C_inv()(i,j)==a[(j<i?j*n+i:i*n+j)]); } }
WL(2,st,2) WL(3,dy,DY)
