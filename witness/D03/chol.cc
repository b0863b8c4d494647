// Lapack_Cholesky through the documented behaviour of potrf / potrs / potri.
// The two triangles are different: only the lower one counts.
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/Lapack_Cholesky.h>
using namespace so;
enum { DY=-1, ST=0 };
template<class S,int n> struct Sym{ const P*a; P operator()(int i,int j)const{ return a[i>=j?S::pos(i,j):S::pos(j,i)]; } };
template<int n,int SZ> struct Mt{ typedef Matrix<n,n,P> T; static T mk(){return T();} }; template<int n> struct Mt<n,-1>{ typedef Matrix<Dynamic,Dynamic,P> T; static T mk(){return T(n,n);} };
#define D(n,SZ) Lapack_Cholesky<SZ==DY?DY:n,P>
#define IN(Sh,n,SZ) typedef Sh<n,n> S; Sym<S,n> A={a}; (void)A; 
// the decomposition has the size of its argument's type
#define WITH(Sh,n,SZ,...) IN(Sh,n,SZ) Sh<n,n>::with(a,[&](auto&m){ auto c=Mt<n,SZ==DY?DY:n>::mk(); c=m; const D(n,SZ) d(c); __VA_ARGS__ });
#define LC(Sh,n,SZ) \
 LIB(lc_L_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,P&dt,int&rk,const Arr<P,Sh<n,n>::N>&a){ WITH(Sh,n,SZ, auto L=d.get_L(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<n;k++) s+=L(i,k)*L(j,k); r[i*n+j]=s; u[i*n+j]=j>i?L(i,j):0; } dt=d.determinant(); rk=d.rank(); ) } \
 REF(lc_L_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,P&dt,int&rk,const Arr<P,Sh<n,n>::N>&a){ IN(Sh,n,SZ) P m[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ m[i*n+j]=r[i*n+j]=A(i,j); u[i*n+j]=0; } dt=det<n>(m); rk=n; } \
 LIB(lc_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ WITH(Sh,n,SZ, auto x=d.get_inverse(); vf_assert(x.num_rows()==n&&x.num_cols()==n); mulm(A,x,n,n,r); mulm(x,A,n,n,q); ) } \
 REF(lc_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ for(int i=0;i<n*n;i++) r[i]=q[i]=i%(n+1)==0; }
#define LCV(Sh,n,SZ,V) \
 LIB(lc_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,P&h,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ WITH(Sh,n,SZ, V<n>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.size()==n); mulv(A,x,n,r); h=d.mahalanobis(v); for(int i=0;i<n;i++) h-=x[i]*v[i]; }); ) } \
 REF(lc_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,P&h,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ h=0; for(int i=0;i<n;i++) r[i]=b[V<n>::pos(i)]; }
#define LCM(Sh,n,SZ,R,k) \
 LIB(lc_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ WITH(Sh,n,SZ, R<n,k>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.num_rows()==n&&x.num_cols()==k); mulm(A,x,n,k,r); }); ) } \
 REF(lc_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ for(int i=0;i<n;i++) for(int j=0;j<k;j++) r[i*k+j]=b[R<n,k>::pos(i,j)]; }
// deferred decomposition, straight from the given storage
#define LCD(Sh,n,SZ) \
 LIB(lc_def_##Sh##_##n##_##SZ)(Arr<P,n>&r,Arr<P,n>&q,const Arr<P,Sh<n,n>::N>&a,const Arr<P,n>&b){ IN(Sh,n,SZ) Sh<n,n>::with(a,[&](auto&m){ const D(n,SZ) d(m); mulv(A,d.backsub(wrapVector<n>(b)),n,r); D(n,SZ) e DFL(n,SZ); e.compute(m); e.compute(m); mulv(A,e.backsub(wrapVector<n>(b)),n,q); }); } \
 REF(lc_def_##Sh##_##n##_##SZ)(Arr<P,n>&r,Arr<P,n>&q,const Arr<P,Sh<n,n>::N>&a,const Arr<P,n>&b){ for(int i=0;i<n;i++) r[i]=q[i]=b[i]; }
#define DFL(n,SZ) DFL_##SZ(n)
#define DFL_ST(n)
#define DFL_DY(n) (n)
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__)
#define ALLV(Sh,n,SZ) LCV(Sh,n,SZ,VFix) LCV(Sh,n,SZ,VCol) LCV(Sh,n,SZ,VOwn) LCV(Sh,n,SZ,VSubD)
#define ALLM(Sh,n,SZ) LCM(Sh,n,SZ,MFix,2) LCM(Sh,n,SZ,MFixC,1) LCM(Sh,n,SZ,MOwn,4) LCM(Sh,n,SZ,MSubT,2) LCM(Sh,n,SZ,MSub,3)
SHP(LC,3,ST) SHP(LC,2,ST) SHP(LC,3,DY) LC(MFix,1,ST) LC(MOwn,1,DY) LC(MFix,4,ST)
SHP(ALLV,3,ST) SHP(ALLV,3,DY) ALLV(MFix,1,ST) ALLV(MFix,2,ST) ALLV(MFixC,4,ST)
SHP(ALLM,3,ST) SHP(ALLM,3,DY) ALLM(MFix,1,ST) ALLM(MFix,2,ST) ALLM(MFixC,4,DY)
LCD(MFix,3,ST) LCD(MFixC,3,ST) LCD(MSub,3,ST) LCD(MDyn,3,DY) LCD(MOwn,3,DY) LCD(MDynC,3,DY) LCD(MSubT,3,DY) LCD(MFixC,2,ST)
