// Gaussian elimination, Gauss-Jordan reduction and the determinants, for every pivot order
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// FLAGS: -DTOON_DETERMINANT_LAPACK=3
#include "solve.h"
#include <TooN/helpers.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/determinant.h>
using namespace so;
enum { DY=-1, ST=0 };
template<int r,int c,int R,int C> static inline Matrix<R,C,P> mk(const P*a){ Matrix<R,C,P> m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=a[i*c+j]; return m; }
// the elements partial pivoting divides by: largest remaining candidate of each column
template<int n> static inline void pivots(const P*a,P*b){ for(int i=0;i<n*n;i++) b[i]=a[i]; for(int k=0;k<n;k++){ int p=k; P v=std::abs(b[k*n+k]); for(int i=k+1;i<n;i++){ P w=std::abs(b[i*n+k]); if(w>v){ v=w; p=i; } } for(int j=0;j<n;j++){ P t=b[k*n+j]; b[k*n+j]=b[p*n+j]; b[p*n+j]=t; } P q=1/b[k*n+k]; for(int i=k+1;i<n;i++) for(int j=n-1;j>=k;j--) b[i*n+j]-=b[i*n+k]*q*b[k*n+j]; } }
#define N2(n) (n*n)
#define GEV(n,nm,Z) \
 LIB(pivot_ge_vec_##n##_##nm)(Arr<P,n>&r,const Arr<P,N2(n)>&a,const Arr<P,n>&b){ Matrix<Z,Z,P> A=mk<n,n,Z,Z>(a); Vector<Z,P> v(n); v=wrapVector<n>(b); auto x=gaussian_elimination(A,v); vf_assert(x.size()==n); mulv(wrapMatrix<n,n>(a),x,n,r); for(int i=0;i<n;i++){ vf_assert(v[i]==b[i]); for(int j=0;j<n;j++) vf_assert(A(i,j)==a[i*n+j]); } } \
 REF(pivot_ge_vec_##n##_##nm)(Arr<P,n>&r,const Arr<P,N2(n)>&a,const Arr<P,n>&b){ P t[N2(n)]; pivots<n>(a,t); for(int i=0;i<n;i++) r[i]=b[i]; }
#define GEM(n,k,nm,R1,C1,R2,C2) \
 LIB(pivot_ge_mat_##n##_##k##_##nm)(Arr<P,n*k>&r,const Arr<P,N2(n)>&a,const Arr<P,n*k>&b){ Matrix<R1,C1,P> A=mk<n,n,R1,C1>(a); Matrix<R2,C2,P> v=mk<n,k,R2,C2>(b); auto x=gaussian_elimination(A,v); vf_assert(x.num_rows()==n&&x.num_cols()==k); mulm(wrapMatrix<n,n>(a),x,n,k,r); for(int i=0;i<n;i++) for(int j=0;j<n;j++) vf_assert(A(i,j)==a[i*n+j]); for(int i=0;i<n;i++) for(int j=0;j<k;j++) vf_assert(v(i,j)==b[i*k+j]); } \
 REF(pivot_ge_mat_##n##_##k##_##nm)(Arr<P,n*k>&r,const Arr<P,N2(n)>&a,const Arr<P,n*k>&b){ P t[N2(n)]; pivots<n>(a,t); for(int i=0;i<n*k;i++) r[i]=b[i]; }
GEV(1,st,1) GEV(2,st,2) GEV(3,st,3) GEV(1,dy,DY) GEV(2,dy,DY) GEV(3,dy,DY)
#define GEMA(n,k) GEM(n,k,st,n,n,n,k) GEM(n,k,dy,DY,DY,DY,DY) GEM(n,k,m1,n,n,DY,DY) GEM(n,k,m2,DY,DY,n,k) GEM(n,k,m3,n,DY,n,DY) GEM(n,k,m4,DY,n,n,k) GEM(n,k,m5,DY,DY,DY,k)
GEMA(1,1) GEMA(2,1) GEMA(2,3) GEMA(3,1) GEMA(3,2) GEMA(3,4)
// Gauss-Jordan: [A | B] becomes [I | X] with A X = B, in place in any storage
#define GJ(Sh,n,k) \
 LIB(pivot_gj_##Sh##_##n##_##k)(Arr<P,n*n>&e,Arr<P,n*k>&r,const Arr<P,n*(n+k)>&a){ P w[Sh<n,n+k>::N]; for(P&x:w) x=7; for(int i=0;i<n;i++) for(int j=0;j<n+k;j++) w[Sh<n,n+k>::pos(i,j)]=a[i*(n+k)+j]; Sh<n,n+k>::with((P*)w,[&](auto&m){ gauss_jordan(m); }); auto at=[&](int i,int j){ return w[Sh<n,n+k>::pos(i,j)]; }; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) e[i*n+j]=at(i,j); for(int j=0;j<k;j++){ P s=0; for(int q=0;q<n;q++) s+=a[i*(n+k)+q]*at(q,n+j); r[i*k+j]=s; } } } \
 REF(pivot_gj_##Sh##_##n##_##k)(Arr<P,n*n>&e,Arr<P,n*k>&r,const Arr<P,n*(n+k)>&a){ P t[n*n],A[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) A[i*n+j]=a[i*(n+k)+j]; pivots<n>(A,t); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) e[i*n+j]=i==j; for(int j=0;j<k;j++) r[i*k+j]=a[i*(n+k)+n+j]; } }
#define GJA(Sh,n,k) GJ(Sh,n,k)
#define SHPW(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSub,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__) F(MRowDyn,__VA_ARGS__) F(MT,__VA_ARGS__)
SHPW(GJA,3,1) SHPW(GJA,3,2) SHPW(GJA,2,2) GJ(MFix,1,1) GJ(MOwn,2,3) GJ(MFix,3,3)
// determinants
#define DET(Sh,n) \
 LIB(pivot_det_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ r=determinant_gaussian_elimination(m); }); } \
 REF(pivot_det_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ P m[n*n],t[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) m[i*n+j]=a[Sh<n,n>::pos(i,j)]; pivots<n>(m,t); r=det<n>(m); P d=1; for(int i=0;i<n;i++){ d*=t[i*n+i]; vf_assume(t[i*n+i]!=0); vf_assume(d!=0); vf_assume(-d!=0); } } \
 LIB(dett_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ r=determinant(m); }); } \
 REF(dett_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ P m[n*n],t[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) m[i*n+j]=a[Sh<n,n>::pos(i,j)]; pivots<n>(m,t); r=det<n>(m); P d=1; for(int i=0;i<n;i++){ d*=t[i*n+i]; vf_assume(t[i*n+i]!=0); vf_assume(d!=0); vf_assume(-d!=0); } }
#define DETA(Sh,n) DET(Sh,n)
SHPW(DETA,3) SHPW(DETA,2) DET(MFix,1) DET(MOwn,1)
// singular: a zero column, equal rows, all zero
#define DS(Z,nm) LIB(detz_##nm)(Arr<P,6>&r,const Arr<P,9>&a){ Matrix<Z,Z,P> m=mk<3,3,Z,Z>(a); m.T()[1]=Zeros; r[0]=determinant_gaussian_elimination(m); m=Zeros; r[1]=determinant_gaussian_elimination(m); r[2]=determinant_gaussian_elimination(m.slice(0,0,2,2)); r[3]=determinant(m.slice(0,0,2,2)); m=mk<3,3,Z,Z>(a); m.T()[0]=Zeros; r[4]=determinant_gaussian_elimination(m); m=mk<3,3,Z,Z>(a); m.T()[2]=Zeros; r[5]=determinant_gaussian_elimination(m); } \
 REF(detz_##nm)(Arr<P,6>&r,const Arr<P,9>&a){ for(P&x:r) x=0; }
DS(3,st) DS(DY,dy)
