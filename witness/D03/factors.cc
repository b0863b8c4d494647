// SVD, symmetric eigen and pivoted QR: the factors read back are the ones the library defines for
// the matrix that was given, whatever layout the call uses (factors are left uninterpreted).
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/QR_Lapack.h>
using namespace so;
enum { DY=-1, ST=0 };
// column-major calls made exactly as the library's own documentation shows
static inline void svd(const P*a,int m,int n,P*U,P*S,P*VT){ P A[36],W[400],B[1]; char o='S'; int i,lda=m,lw=400,k=m<n?m:n; for(int r=0;r<m;r++) for(int c=0;c<n;c++) A[r+c*m]=a[r*n+c]; (void)B; gesvd_(&o,&o,&m,&n,A,&lda,S,U,&m,VT,&k,W,&lw,&i); }
static inline void eig(const P*a,int n,P*V,P*L){ P W[400]; char j='V',u='U'; int i,lw=400; for(int r=0;r<n;r++) for(int c=0;c<n;c++) V[r+c*n]=a[r*n+c]; syev_(&j,&u,&n,V,&n,L,W,&lw,&i); }
static inline void qrp(const P*a,int m,int n,int*jp,P*R,P*Q){ P W[400],t[6]; int i,lw=400,k=m<n?m:n; for(int r=0;r<m;r++) for(int c=0;c<n;c++) R[r+c*m]=a[r*n+c]; geqp3_(&m,&n,R,&m,jp,t,W,&lw,&i); for(int c=0;c<k;c++) for(int r=0;r<k;r++) Q[r+c*k]=R[r+c*m]; orgqr_(&k,&k,&k,Q,&k,t,W,&lw,&i); }
template<class S,int m,int n> static inline void get(const P*a,P*o){ for(int i=0;i<m;i++) for(int j=0;j<n;j++) o[i*n+j]=a[S::pos(i,j)]; }
#define MN(m,n) ((m)<(n)?(m):(n))
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSub,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__) F(MRowDyn,__VA_ARGS__)
// SVD<R,C> of an m x n matrix; R, C static or run-time
#define SV(Sh,m,n,nm,R,C) \
 LIB(svd_##Sh##_##m##_##n##_##nm)(Arr<P,m*MN(m,n)>&u,Arr<P,MN(m,n)>&s,Arr<P,MN(m,n)*n>&v,P&dt,const Arr<P,Sh<m,n>::N>&a){ Sh<m,n>::with(a,[&](auto&M){ SVD<R,C,P> d(M); auto U=d.get_U(); auto V=d.get_VT(); auto&S=d.get_diagonal(); const int k=MN(m,n); vf_assert(U.num_rows()==m&&U.num_cols()==k&&V.num_rows()==k&&V.num_cols()==n&&S.size()==k); for(int i=0;i<m;i++) for(int j=0;j<k;j++) u[i*k+j]=U(i,j); for(int j=0;j<k;j++) s[j]=S[j]; for(int i=0;i<k;i++) for(int j=0;j<n;j++) v[i*n+j]=V(i,j); dt=d.determinant(); }); } \
 REF(svd_##Sh##_##m##_##n##_##nm)(Arr<P,m*MN(m,n)>&u,Arr<P,MN(m,n)>&s,Arr<P,MN(m,n)*n>&v,P&dt,const Arr<P,Sh<m,n>::N>&a){ P A[m*n],U[m*MN(m,n)],V[MN(m,n)*n]; const int k=MN(m,n); get<Sh<m,n>,m,n>(a,A); svd(A,m,n,U,s,V); for(int i=0;i<m;i++) for(int j=0;j<k;j++) u[i*k+j]=U[i+j*m]; for(int i=0;i<k;i++) for(int j=0;j<n;j++) v[i*n+j]=V[i+j*k]; dt=1; for(int i=0;i<k;i++) dt*=s[i]; }
#define SVA(Sh,m,n) SV(Sh,m,n,st,m,n) SV(Sh,m,n,dy,DY,DY) SV(Sh,m,n,dr,DY,n) SV(Sh,m,n,dc,m,DY)
SHP(SVA,3,3) SHP(SVA,4,2) SHP(SVA,2,4) SHP(SVA,1,3) SHP(SVA,3,1) SVA(MOwn,2,2) SVA(MFix,5,4) SVA(MFix,4,5)
// deferred forms
#define SVC(m,n,nm,MK,...) \
 LIB(svdc_##m##_##n##_##nm)(Arr<P,m*MN(m,n)>&u,Arr<P,MN(m,n)*n>&v,const Arr<P,m*n>&a,const Arr<P,m*n>&b){ __VA_ARGS__ d MK; auto A=wrapMatrix<m,n>(a),B=wrapMatrix<m,n>(b); d.compute(B); d.compute(A); auto U=d.get_U(); auto V=d.get_VT(); const int k=MN(m,n); for(int i=0;i<m;i++) for(int j=0;j<k;j++) u[i*k+j]=U(i,j); for(int i=0;i<k;i++) for(int j=0;j<n;j++) v[i*n+j]=V(i,j); } \
 REF(svdc_##m##_##n##_##nm)(Arr<P,m*MN(m,n)>&u,Arr<P,MN(m,n)*n>&v,const Arr<P,m*n>&a,const Arr<P,m*n>&b){ P U[m*MN(m,n)],V[MN(m,n)*n],s[m]; const int k=MN(m,n); svd(a,m,n,U,s,V); for(int i=0;i<m;i++) for(int j=0;j<k;j++) u[i*k+j]=U[i+j*m]; for(int i=0;i<k;i++) for(int j=0;j<n;j++) v[i*n+j]=V[i+j*k]; }
#define MC ,
SVC(3,3,st,,SVD<3,3,P>) SVC(4,2,st,,SVD<4,2,P>) SVC(2,4,st,,SVD<2,4,P>) SVC(4,2,dy,(4,2),SVD<DY,DY,P>) SVC(2,4,dy,(2,4),SVD<DY,DY,P>) SVC(2,4,dc,(2,4),SVD<2,DY,P>) SVC(4,2,dr,(4,2),SVD<DY,2,P>) SVC(3,3,sq,,SQSVD<3,P>) SVC(3,3,sqd,(3),SQSVD<DY,P>)
// symmetric eigen-decomposition: n(n+1)/2 values make the matrix
#define SE(n,nm,Z) \
 LIB(sym_##n##_##nm)(Arr<P,n*n>&v,Arr<P,n>&l,Arr<P,n*n>&w,const Arr<P,n*(n+1)/2>&t){ Matrix<Z,Z,P> m(SZ_##nm(n)); for(int i=0,q=0;i<n;i++) for(int j=0;j<=i;j++,q++) m(i,j)=m(j,i)=t[q]; const SymEigen<Z,P> d(m); auto&V=d.get_evectors(); auto&L=d.get_evalues(); vf_assert(V.num_rows()==n&&V.num_cols()==n&&L.size()==n); for(int i=0;i<n;i++){ l[i]=L[i]; for(int j=0;j<n;j++) v[i*n+j]=V(i,j); } SymEigen<Z,P> e(EZ_##nm(n)); e.compute(m.T()); for(int i=0;i<n;i++) for(int j=0;j<n;j++) w[i*n+j]=e.get_evectors()[i][j]; } \
 REF(sym_##n##_##nm)(Arr<P,n*n>&v,Arr<P,n>&l,Arr<P,n*n>&w,const Arr<P,n*(n+1)/2>&t){ P A[n*n],V[n*n]; for(int i=0,q=0;i<n;i++) for(int j=0;j<=i;j++,q++) A[i*n+j]=A[j*n+i]=t[q]; eig(A,n,V,l); for(int i=0;i<n;i++) for(int j=0;j<n;j++) w[i*n+j]=v[i*n+j]=V[j+i*n]; }
#define SZ_st(n) n,n
#define SZ_dy(n) n,n
#define EZ_st(n) n
#define EZ_dy(n) n
SE(4,st,4) SE(5,st,5) SE(1,st,1) SE(1,dy,DY) SE(2,dy,DY) SE(3,dy,DY) SE(4,dy,DY)
#define SES(Sh,n,nm,Z) \
 LIB(symv_##Sh##_##n##_##nm)(Arr<P,n*n>&v,const Arr<P,n*(n+1)/2>&t){ P a[Sh<n,n>::N]; for(P&x:a) x=0; for(int i=0,q=0;i<n;i++) for(int j=0;j<=i;j++,q++) a[Sh<n,n>::pos(i,j)]=a[Sh<n,n>::pos(j,i)]=t[q]; Sh<n,n>::with((const P*)a,[&](auto&m){ const SymEigen<Z,P> d(m); auto&V=d.get_evectors(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) v[i*n+j]=V(i,j); }); } \
 REF(symv_##Sh##_##n##_##nm)(Arr<P,n*n>&v,const Arr<P,n*(n+1)/2>&t){ P A[n*n],V[n*n],l[n]; for(int i=0,q=0;i<n;i++) for(int j=0;j<=i;j++,q++) A[i*n+j]=A[j*n+i]=t[q]; eig(A,n,V,l); for(int i=0;i<n;i++) for(int j=0;j<n;j++) v[i*n+j]=V[j+i*n]; }
#define SESA(Sh,n) SES(Sh,n,st,n) SES(Sh,n,dy,DY)
SHP(SESA,4)
// QR with column pivoting (as many columns as rows, or more)
#define QR(Sh,m,n,nm,R,C,pv) \
 LIB(qr_##Sh##_##m##_##n##_##nm##_##pv)(Arr<P,m*n>&r,Arr<P,m*m>&q,Arr<int,n>&p,const Arr<P,Sh<m,n>::N>&a){ Sh<m,n>::with(a,[&](auto&M){ QR_Lapack<R,C,P> d QRP_##pv; auto&X=d.get_R(); auto&Q=d.get_Q(); auto&J=d.get_P(); vf_assert(X.num_rows()==m&&X.num_cols()==n&&Q.num_rows()==m&&Q.num_cols()==m&&J.size()==n); for(int i=0;i<m;i++){ for(int j=0;j<n;j++) r[i*n+j]=X(i,j); for(int j=0;j<m;j++) q[i*m+j]=Q(i,j); } for(int j=0;j<n;j++) p[j]=J[j]; }); } \
 REF(qr_##Sh##_##m##_##n##_##nm##_##pv)(Arr<P,m*n>&r,Arr<P,m*m>&q,Arr<int,n>&p,const Arr<P,Sh<m,n>::N>&a){ P A[m*n],X[m*n],Q[m*m]; int J[n]; get<Sh<m,n>,m,n>(a,A); for(int j=0;j<n;j++) J[j]=!pv; qrp(A,m,n,J,X,Q); for(int i=0;i<m;i++){ for(int j=0;j<n;j++) r[i*n+j]=j<i?0:X[i+j*m]; for(int j=0;j<m;j++) q[i*m+j]=Q[i+j*m]; } for(int j=0;j<n;j++) p[j]=J[j]-1; }
#define QRP_0 (M)
#define QRP_1 (M,true)
#define QRA(Sh,m,n) QR(Sh,m,n,st,m,n,0) QR(Sh,m,n,st,m,n,1) QR(Sh,m,n,dy,DY,DY,0) QR(Sh,m,n,dy,DY,DY,1) QR(Sh,m,n,dr,DY,n,1) QR(Sh,m,n,dc,m,DY,0)
SHP(QRA,3,3) SHP(QRA,2,4) SHP(QRA,1,2) QRA(MFix,1,1) QRA(MOwn,3,4) QRA(MFix,4,4)
