// QR by reflections and the closed-form 2 x 2 symmetric eigen-decomposition: defining equations.
// "generic_" obligations are about inputs on which no computed value happens to be zero; the others fill in the zeros.
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/QR.h>
#include <TooN/SymEigen.h>
using namespace so;
enum { DY=-1 };
template<class D> static inline void qrout(D&d,int m,int n,P*a,P*l,P*e){ auto&R=d.get_R(); auto&Q=d.get_Q(); vf_assert(R.num_rows()==m&&R.num_cols()==n&&Q.num_rows()==m&&Q.num_cols()==m); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<m;k++) s+=Q(i,k)*R(k,j); a[i*n+j]=s; } for(int i=0;i<m;i++) for(int j=0;j<m;j++){ l[i*m+j]=j<i?R(i,j):0; P s=0; for(int k=0;k<m;k++) s+=Q(k,i)*Q(k,j); e[i*m+j]=s; } }
template<class S,int m,int n> static inline void qrref(const P*x,P*a,P*l,P*e){ for(int i=0;i<m;i++) for(int j=0;j<n;j++) a[i*n+j]=x[S::pos(i,j)]; for(int i=0;i<m;i++) for(int j=0;j<m;j++){ l[i*m+j]=0; e[i*m+j]=i==j; } }
#define QR(Sh,m,n,nm,R,C) \
 LIB(generic_qr_##Sh##_##m##_##n##_##nm)(Arr<P,m*n>&a,Arr<P,m*m>&l,Arr<P,m*m>&e,const Arr<P,Sh<m,n>::N>&x){ Sh<m,n>::with(x,[&](auto&M){ TooN::QR<R,C,P> d(M); qrout(d,m,n,a,l,e); }); } \
 REF(generic_qr_##Sh##_##m##_##n##_##nm)(Arr<P,m*n>&a,Arr<P,m*m>&l,Arr<P,m*m>&e,const Arr<P,Sh<m,n>::N>&x){ qrref<Sh<m,n>,m,n>(x,a,l,e); }
#define QRA(Sh,m,n) QR(Sh,m,n,st,m,n) QR(Sh,m,n,dy,DY,DY) QR(Sh,m,n,dr,DY,n) QR(Sh,m,n,dc,m,DY)
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSub,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__) F(MRowDyn,__VA_ARGS__)
SHP(QRA,2,2) SHP(QRA,2,4) SHP(QRA,1,2) QRA(MFix,1,1) QRA(MFix,3,3) QRA(MOwn,3,3) QRA(MFix,3,4)
// columns with nothing below the diagonal need no reflection
#define QZ(n,nm,Z,...) \
 LIB(generic_qrz_##n##_##nm)(Arr<P,n*n>&a,Arr<P,n*n>&l,Arr<P,n*n>&e,const Arr<P,n*n>&x){ Matrix<Z,Z,P> M(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) M(i,j)=(__VA_ARGS__); TooN::QR<Z,Z,P> d(M); qrout(d,n,n,a,l,e); } \
 REF(generic_qrz_##n##_##nm)(Arr<P,n*n>&a,Arr<P,n*n>&l,Arr<P,n*n>&e,const Arr<P,n*n>&x){ for(int i=0;i<n;i++) for(int j=0;j<n;j++){ a[i*n+j]=(__VA_ARGS__); l[i*n+j]=0; e[i*n+j]=i==j; } }
QZ(3,up,3,j>=i?x[i*3+j]:0) QZ(3,upd,DY,j>=i?x[i*3+j]:0) QZ(3,zero,3,0) QZ(2,zero,DY,0) QZ(2,c0,2,j?x[i*2+j]:0) QZ(3,c0,3,j?x[i*3+j]:0) QZ(3,one,3,i==j) QZ(4,up,4,j>=i?x[i*4+j]:0) QZ(3,c1,3,j==1&&i>1?0:j==0&&i>0?0:x[i*3+j]) QZ(3,lead,DY,i==0||j==0?(i==j?x[0]:0):x[i*3+j])
// 2 x 2 symmetric eigen-decomposition: rows are orthonormal eigenvectors, values ascend
#define SE(Sh,nm,Z) \
 LIB(generic_se2_##Sh##_##nm)(Arr<P,4>&a,Arr<P,4>&o,bool&asc,const Arr<P,3>&t){ P x[Sh<2,2>::N]; for(P&y:x) y=0; x[Sh<2,2>::pos(0,0)]=t[0]; x[Sh<2,2>::pos(0,1)]=x[Sh<2,2>::pos(1,0)]=t[1]; x[Sh<2,2>::pos(1,1)]=t[2]; Sh<2,2>::with((const P*)x,[&](auto&M){ vf_assume((t[0]+t[2])*(t[0]+t[2])-4*(t[0]*t[2]-t[1]*t[1])>=0); const SymEigen<Z,P> d(M); auto&V=d.get_evectors(); auto&L=d.get_evalues(); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ a[i*2+j]=M(j,0)*V(i,0)+M(j,1)*V(i,1)-L[i]*V(i,j); o[i*2+j]=V(i,0)*V(j,0)+V(i,1)*V(j,1); } asc=L[0]<=L[1]; }); } \
 REF(generic_se2_##Sh##_##nm)(Arr<P,4>&a,Arr<P,4>&o,bool&asc,const Arr<P,3>&t){ for(int i=0;i<4;i++){ a[i]=0; o[i]=i%3==0; } asc=true; }
SE(MFix,st,2) SE(MFixC,st,2) SE(MDyn,st,2) SE(MSubT,st,2) SE(MOwn,st,2)
// diagonal matrices, in both orders, with equal values, and zero
#define SD(nm,x,y,lo,hi) LIB(se2d_##nm)(Arr<P,2>&l,Arr<P,4>&a,Arr<P,4>&o){ Matrix<2,2,P> M=Data(P(x),P(0),P(0),P(y)); SymEigen<2,P> d(M); auto&V=d.get_evectors(); auto&L=d.get_evalues(); for(int i=0;i<2;i++){ l[i]=L[i]; for(int j=0;j<2;j++){ a[i*2+j]=M(j,0)*V(i,0)+M(j,1)*V(i,1)-L[i]*V(i,j); o[i*2+j]=V(i,0)*V(j,0)+V(i,1)*V(j,1); } } } \
 REF(se2d_##nm)(Arr<P,2>&l,Arr<P,4>&a,Arr<P,4>&o){ l[0]=lo; l[1]=hi; for(int i=0;i<4;i++){ a[i]=0; o[i]=i%3==0; } }
SD(asc,2,5,2,5) SD(desc,5,2,2,5) SD(eq,3,3,3,3) SD(zero,0,0,0,0) SD(neg,-1,-4,-4,-1) SD(mix,4,-3,-3,4)
