// Every element of every result is set, on arbitrary and on degenerate input
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS
// TIME: 200
#include "solve.h"
#include <TooN/helpers.h>
#define throw(x) __builtin_trap()
#include <TooN/GR_SVD.h>
#undef throw
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/determinant.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
using namespace so;
enum { DY=-1 };

#define Z_st(n) n
#define Z_dy(n) DY
template<class X> static inline std::enable_if_t<std::is_arithmetic<X>::value> put(P*&o,const X&x){ *o++=P(x); }
template<int n,class Q,class B> static inline void put(P*&o,const Vector<n,Q,B>&x){ for(int i=0;i<x.size();i++) *o++=P(x[i]); }
template<int n,int m,class Q,class B> static inline void put(P*&o,const Matrix<n,m,Q,B>&x){ for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) *o++=P(x(i,j)); }
template<int n,class Q,class B> static inline void put(P*&o,const DiagonalMatrix<n,Q,B>&x){ put(o,x.diagonal_slice()); }
#define V_(n) wrapVector<n>(b)
#define M_(n) wrapMatrix<n,2>(c)
#define O(x) { auto r=x; put(p,r); }
#define Q_chol(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_inverse()) O(d.determinant()) O(d.mahalanobis(V_(n))) O(d.get_L()) O(d.get_unscaled_L()) O(d.get_D()) O(d.rank())
#define Q_lchol(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_inverse()) O(d.determinant()) O(d.mahalanobis(V_(n))) O(d.get_L()) O(d.rank())
#define Q_lu(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_inverse()) O(d.determinant()) O(d.get_lu()) O(d.get_info())
#define Q_svd(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_pinv()) O(d.determinant()) O(d.get_U()) O(d.get_VT()) O(d.get_diagonal()) O(d.rank())
#define Q_svdt(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_pinv()) O(d.get_U()) O(d.get_VT()) O(d.get_diagonal()) O(d.rank())
#define Q_se(n) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_pinv()) O(d.get_determinant()) O(d.get_evectors()) O(d.get_evalues()) O(d.is_posdef()) O(d.is_negdef()) O(d.get_sqrtm()) O(d.get_isqrtm())
#define Q_gr(n) O(d.get_U()) O(d.get_V()) O(d.get_diagonal()) O(d.get_largest_singular_value()) O(d.get_smallest_singular_value()) O(d.get_smallest_singular_value_index()) O(d.backsub(V_(n))) O(d.backsub(M_(n))) O(d.get_pinv()) d.reorder(); O(d.get_U()) O(d.get_V()) O(d.get_diagonal())
#define Q_qr(n) O(d.get_R()) O(d.get_Q())
#define Q_qrl(n) O(d.get_R()) O(d.get_Q()) O(d.get_P())
// arbitrary elements / a given integer matrix of each kind
static inline int zero(int,int){ return 0; } static inline int twice(int i,int j){ return i==j?-2:0; } static inline int unit(int i,int j){ return i==j; } static inline int ones(int,int){ return 1; } static inline int rank1(int i,int j){ return (i+1)*(j+1); } static inline int last(int i,int j){ return i==j&&i==0?0:i==j; } static inline int first(int i,int j){ return i==0&&j==0; } static inline int diag(int i,int j){ return i==j?i-1:0; } static inline int anti(int i,int j){ return i+j==1; } static inline int gen(int i,int j){ return i==j?4+i:1; } static inline int neg(int i,int j){ return i==j?-1-i:0; }
#define GEN(K,n,k,nm,...) CHK(generic_set_##K##_##n##_##k##_##nm)(Arr<P,300>&out,const Arr<P,n*k>&a,const Arr<P,n>&b,const Arr<P,2*n>&c){ P*p=out; const Matrix<Z_##nm(n),Z_##nm(k),P> m=wrapMatrix<n,k>(a); __VA_ARGS__ d(m); Q_##K(n) }
#define GIV(K,n,k,nm,W,...) CHK(degenerate_##W##_##K##_##n##_##k##_##nm)(Arr<P,300>&out,const Arr<P,n>&b,const Arr<P,2*n>&c){ P*p=out; P a[n*k]; for(int i=0;i<n;i++) for(int j=0;j<k;j++) a[i*k+j]=W(i,j); const Matrix<Z_##nm(n),Z_##nm(k),P> m=wrapMatrix<n,k>((const P*)a); __VA_ARGS__ d(m); Q_##K(n) }
#define ALLG(K,n,k,nm,...) GIV(K,n,k,nm,zero,__VA_ARGS__) GIV(K,n,k,nm,unit,__VA_ARGS__) GIV(K,n,k,nm,ones,__VA_ARGS__) GIV(K,n,k,nm,rank1,__VA_ARGS__) GIV(K,n,k,nm,last,__VA_ARGS__) GIV(K,n,k,nm,first,__VA_ARGS__) GIV(K,n,k,nm,diag,__VA_ARGS__) GIV(K,n,k,nm,anti,__VA_ARGS__) GIV(K,n,k,nm,gen,__VA_ARGS__) GIV(K,n,k,nm,neg,__VA_ARGS__)
#define ALL(K,n,k,nm,...) ALLG(K,n,k,nm,__VA_ARGS__) GEN(K,n,k,nm,__VA_ARGS__)
ALL(chol,1,1,st,Cholesky<1,P>) ALL(chol,2,2,st,Cholesky<2,P>) ALL(chol,3,3,st,Cholesky<3,P>) ALL(chol,3,3,dy,Cholesky<DY,P>)
ALL(lu,1,1,st,LU<1,P>) ALL(lu,2,2,st,LU<2,P>) ALL(lu,3,3,st,LU<3,P>) ALL(lu,3,3,dy,LU<DY,P>)
ALL(svd,2,2,st,SVD<2,2,P>) ALL(svd,3,3,dy,SVD<DY,DY,P>) ALL(svdt,3,2,st,SVD<3,2,P>) ALL(svdt,2,3,dy,SVD<DY,DY,P>)
ALL(se,1,1,st,SymEigen<1,P>) ALL(se,2,2,st,SymEigen<2,P>) GIV(se,3,3,st,zero,SymEigen<3,P>) GIV(se,3,3,st,unit,SymEigen<3,P>) GIV(se,3,3,st,twice,SymEigen<3,P>) ALL(se,3,3,dy,SymEigen<DY,P>) ALL(se,4,4,st,SymEigen<4,P>)
ALL(qr,1,1,st,QR<1,1,P>) ALL(qr,2,2,st,QR<2,2,P>) ALLG(qr,3,3,st,QR<3,3,P>) ALLG(qr,2,3,st,QR<2,3,P>)
ALL(qrl,2,2,st,QR_Lapack<2,2,P>) ALL(qrl,2,3,dy,QR_Lapack<DY,DY,P>)
ALLG(gr,1,1,st,GR_SVD<1,1,P>) ALLG(gr,2,2,st,GR_SVD<2,2,P>) ALLG(gr,3,2,st,GR_SVD<3,2,P>) ALLG(gr,2,3,st,GR_SVD<2,3,P>) ALLG(gr,3,3,st,GR_SVD<3,3,P>)
// a multiple of the identity, whatever the multiple
#define SCI(n,nm,Z) CHK(degenerate_scaled_se_##n##_##nm)(Arr<P,300>&out,const P&s,const Arr<P,n>&b,const Arr<P,2*n>&c){ vf_assume(s>0); P*p=out; Matrix<Z,Z,P> m(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=i==j?s:P(0); SymEigen<Z,P> d(m); Q_se(n) }
SCI(2,st,2) SCI(3,st,3) SCI(4,st,4) SCI(3,dy,DY)
// solvers without a decomposition object
#define GEL(n,nm,Z,W) CHK(degenerate_##W##_ge_##n##_##nm)(Arr<P,300>&out,const Arr<P,n>&b,const Arr<P,2*n>&c){ P*p=out; Matrix<Z,Z,P> m(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=W(i,j); Vector<Z,P> v(n); v=wrapVector<n>(b); Matrix<Z,DY,P> w(n,2); w=wrapMatrix<n,2>(c); O(gaussian_elimination(m,v)) O(gaussian_elimination(m,w)) O(determinant(m)) O(determinant_gaussian_elimination(m)) } \
 CHK(degenerate_##W##_gj_##n##_##nm)(Arr<P,300>&out,const Arr<P,2*n>&c){ P*p=out; Matrix<n,n+2,P> m; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) m(i,j)=W(i,j); for(int j=0;j<2;j++) m(i,n+j)=c[i*2+j]; } gauss_jordan(m); O(m) }
#define GELA(n,nm,Z) GEL(n,nm,Z,zero) GEL(n,nm,Z,unit) GEL(n,nm,Z,ones) GEL(n,nm,Z,rank1) GEL(n,nm,Z,last) GEL(n,nm,Z,first) GEL(n,nm,Z,anti) GEL(n,nm,Z,gen)
GELA(1,st,1) GELA(2,st,2) GELA(3,st,3) GELA(3,dy,DY)
// estimators: fresh, cleared, solved without data, with one measurement, after merging
#define LSQ(n,nm,Z,D) CHK(degenerate_wls_##n##_##nm##_##D)(Arr<P,300>&out,const Arr<P,n>&j,const P&m,const P&v){ P*p=out; WLS<Z,P,D> w(n); w.clear(); O(w.get_C_inv()) O(w.get_vector()) w.add_mJ(m,wrapVector<n>(j),v); O(w.get_C_inv()) O(w.get_vector()) w.add_prior(v); { Vector<Z,P> q(n); q=wrapVector<n>(j); w.add_prior(q); } WLS<Z,P,D> u(n); u.clear(); u+=w; O(u.get_C_inv()) O(u.get_vector()) u.compute(); O(u.get_mu()) }
LSQ(2,st,2,Cholesky) LSQ(3,dy,DY,Cholesky) LSQ(2,st,2,SQSVD) LSQ(3,dy,DY,SQSVD) LSQ(1,st,1,Cholesky)
#define IRL(n,R) CHK(degenerate_irls_##n##_##R)(Arr<P,300>&out,const Arr<P,n>&j,const P&m){ P*p=out; IRLS<n,P,R> w; SD_##R w.clear(); O(w.get_C_inv()) O(w.get_vector()) O(w.get_true_C_inv()) O(w.get_residual()) w.add_mJ(m,wrapVector<n>(j)); O(w.get_C_inv()) O(w.get_vector()) O(w.get_true_C_inv()) O(w.get_residual()) IRLS<n,P,R> u; u.clear(); u+=w; O(u.get_true_C_inv()) O(u.get_residual()) w.compute(); O(w.get_mu()) w.clear(); O(w.get_true_C_inv()) O(w.get_residual()) }
#define SD_RobustI w.set_sd(m);
#define SD_RobustII w.set_sd(m);
#define SD_RobustIII w.set_sd(m);
#define SD_ILinear
IRL(2,RobustI) IRL(2,RobustII) IRL(3,RobustIII) IRL(2,ILinear) IRL(1,RobustI)
