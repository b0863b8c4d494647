// LU through the documented behaviour of getrf / trsm / getri, for every pivot order
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/LU.h>
using namespace so;
enum { DY=-1, ST=0 };
#define TH(x) x
// vector right-hand side, matrix right-hand sides of n x k, inverse, determinant, factors
#define LUV(Sh,n,SZ,V) \
 LIB(lu_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ Sh<n,n>::with(a,[&](auto&m){ LU<SZ==DY?DY:n,P> d(m); V<n>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.size()==n); mulv(m,x,n,r); }); }); } \
 REF(lu_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ for(int i=0;i<n;i++) r[i]=b[V<n>::pos(i)]; }
#define LUM(Sh,n,SZ,R,k) \
 LIB(lu_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ Sh<n,n>::with(a,[&](auto&m){ LU<SZ==DY?DY:n,P> d(m); R<n,k>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.num_rows()==n&&x.num_cols()==k); mulm(m,x,n,k,r); }); }); } \
 REF(lu_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ for(int i=0;i<n;i++) for(int j=0;j<k;j++) r[i*k+j]=b[R<n,k>::pos(i,j)]; }
#define LUI(Sh,n,SZ) \
 LIB(lu_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ LU<SZ==DY?DY:n,P> d(m); auto x=d.get_inverse(); vf_assert(x.num_rows()==n&&x.num_cols()==n); mulm(m,x,n,n,r); mulm(x,m,n,n,q); }); } \
 REF(lu_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ for(int i=0;i<n*n;i++) r[i]=q[i]=i%(n+1)==0; } \
 LIB(lu_det_##Sh##_##n##_##SZ)(P&r,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ const LU<SZ==DY?DY:n,P> d(m); r=d.determinant(); vf_assert(d.get_info()==0); }); } \
 REF(lu_det_##Sh##_##n##_##SZ)(P&r,const Arr<P,Sh<n,n>::N>&a){ P m[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) m[i*n+j]=a[Sh<n,n>::pos(i,j)]; r=det<n>(m); } \
 LIB(lu_fac_##Sh##_##n##_##SZ)(Arr<P,n>&r,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ const LU<SZ==DY?DY:n,P> d(m); auto&f=d.get_lu(); vf_assert(f.num_rows()==n&&f.num_cols()==n); P p[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<=i&&k<=j;k++) s+=f(i,k)*(k==j?1:f(k,j)); p[i*n+j]=s; } colset<n>([&](int i,int c){ return p[i*n+c]; },r); }); } \
 REF(lu_fac_##Sh##_##n##_##SZ)(Arr<P,n>&r,const Arr<P,Sh<n,n>::N>&a){ colset<n>([&](int i,int c){ return a[Sh<n,n>::pos(i,c)]; },r); }
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSub,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__) F(MRowDyn,__VA_ARGS__)
#define ALLV(Sh,n,SZ) LUV(Sh,n,SZ,VFix) LUV(Sh,n,SZ,VCol) LUV(Sh,n,SZ,VOwn) LUV(Sh,n,SZ,VSubD)
#define ALLM(Sh,n,SZ) LUM(Sh,n,SZ,MFix,2) LUM(Sh,n,SZ,MFixC,1) LUM(Sh,n,SZ,MOwn,4) LUM(Sh,n,SZ,MSubT,2) LUM(Sh,n,SZ,MSub,3)
SHP(ALLV,3,ST) SHP(ALLV,3,DY) SHP(ALLV,2,ST) SHP(ALLV,2,DY) ALLV(MFix,1,ST) ALLV(MOwn,1,DY)
SHP(ALLM,3,ST) SHP(ALLM,3,DY) SHP(ALLM,2,ST) SHP(ALLM,2,DY) ALLM(MFix,1,ST) ALLM(MOwn,1,DY)
SHP(LUI,3,ST) SHP(LUI,3,DY) SHP(LUI,2,ST) SHP(LUI,2,DY) LUI(MFix,1,ST) LUI(MOwn,1,DY)
