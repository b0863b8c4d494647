// Cholesky: the defining equations, for symmetric matrices given by their lower triangle.
// The two triangles are different: only the lower one counts.
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/Cholesky.h>
using namespace so;
enum { DY=-1, ST=0 };
template<class S,int n> struct Sym{ const P*a; P operator()(int i,int j)const{ return a[i>=j?S::pos(i,j):S::pos(j,i)]; } };
template<int n,int SZ> struct Mt{ typedef Matrix<n,n,P> T; static T mk(){return T();} }; template<int n> struct Mt<n,-1>{ typedef Matrix<Dynamic,Dynamic,P> T; static T mk(){return T(n,n);} };
// the pivots of L D L^T, in order
template<int n,class A> static inline void piv(const A&a,P*d){ P L[n*n]; for(int j=0;j<n;j++){ d[j]=a(j,j); for(int q=0;q<j;q++) d[j]-=L[j*n+q]*L[j*n+q]*d[q]; for(int i=j+1;i<n;i++){ P v=a(i,j); for(int q=0;q<j;q++) v-=L[i*n+q]*L[j*n+q]*d[q]; L[i*n+j]=v/d[j]; } } }
template<int n,class A> static inline void nz(const A&a){ P d[n]; piv<n>(a,d); for(int i=0;i<n;i++) vf_assume(d[i]!=0); }
#define D(n,SZ) Cholesky<SZ==DY?DY:n,P>
#define IN(Sh,n,SZ) typedef Sh<n,n> S; Sym<S,n> A={a}; (void)A; 
// the decomposition has the size of its argument's type
#define WITH(Sh,n,SZ,...) IN(Sh,n,SZ) Sh<n,n>::with(a,[&](auto&m){ auto c=Mt<n,SZ==DY?DY:n>::mk(); c=m; nz<n>(A); D(n,SZ) d(c); __VA_ARGS__ });
#define LC(Sh,n,SZ) \
 LIB(ch_L_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,P&dt,int&rk,const Arr<P,Sh<n,n>::N>&a){ WITH(Sh,n,SZ, auto L=d.get_L(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<n;k++) s+=L(i,k)*L(j,k); r[i*n+j]=s; u[i*n+j]=j>i?L(i,j):0; } dt=d.determinant(); rk=d.rank(); ) } \
 REF(ch_L_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,P&dt,int&rk,const Arr<P,Sh<n,n>::N>&a){ IN(Sh,n,SZ) P m[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ m[i*n+j]=r[i*n+j]=A(i,j); u[i*n+j]=0; } dt=det<n>(m); rk=n; } \
 LIB(ch_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ WITH(Sh,n,SZ, auto x=d.get_inverse(); vf_assert(x.num_rows()==n&&x.num_cols()==n); mulm(A,x,n,n,r); mulm(x,A,n,n,q); ) } \
 REF(ch_inv_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&q,const Arr<P,Sh<n,n>::N>&a){ for(int i=0;i<n*n;i++) r[i]=q[i]=i%(n+1)==0; }
#define LCV(Sh,n,SZ,V) \
 LIB(ch_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,P&h,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ WITH(Sh,n,SZ, V<n>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.size()==n); mulv(A,x,n,r); h=d.mahalanobis(v); for(int i=0;i<n;i++) h-=x[i]*v[i]; }); ) } \
 REF(ch_vec_##Sh##_##n##_##SZ##_##V)(Arr<P,n>&r,P&h,const Arr<P,Sh<n,n>::N>&a,const Arr<P,V<n>::N>&b){ h=0; for(int i=0;i<n;i++) r[i]=b[V<n>::pos(i)]; }
#define LCM(Sh,n,SZ,R,k) \
 LIB(ch_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ WITH(Sh,n,SZ, R<n,k>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.num_rows()==n&&x.num_cols()==k); mulm(A,x,n,k,r); }); ) } \
 REF(ch_mat_##Sh##_##n##_##SZ##_##R##_##k)(Arr<P,n*k>&r,const Arr<P,Sh<n,n>::N>&a,const Arr<P,R<n,k>::N>&b){ for(int i=0;i<n;i++) for(int j=0;j<k;j++) r[i*k+j]=b[R<n,k>::pos(i,j)]; }
#define LDL(Sh,n,SZ) \
 LIB(ch_ldl_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,Arr<P,n*n>&t,const Arr<P,Sh<n,n>::N>&a){ WITH(Sh,n,SZ, auto L=d.get_unscaled_L(); auto E=d.get_D(); vf_assert(L.num_rows()==n&&L.num_cols()==n&&E.num_rows()==n&&E.num_cols()==n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<n;k++) s+=L(i,k)*E(k,k)*L(j,k); r[i*n+j]=s; u[i*n+j]=j>=i?L(i,j):0; t[i*n+j]=i!=j?E(i,j):0; } ) } \
 REF(ch_ldl_##Sh##_##n##_##SZ)(Arr<P,n*n>&r,Arr<P,n*n>&u,Arr<P,n*n>&t,const Arr<P,Sh<n,n>::N>&a){ IN(Sh,n,SZ) for(int i=0;i<n;i++) for(int j=0;j<n;j++){ r[i*n+j]=A(i,j); u[i*n+j]=i==j; t[i*n+j]=0; } } \
 LIB(ch_rank_##Sh##_##n##_##SZ)(int&rk,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ auto c=Mt<n,SZ==DY?DY:n>::mk(); c=m; const D(n,SZ) d(c); rk=d.rank(); }); } \
 REF(ch_rank_##Sh##_##n##_##SZ)(int&rk,const Arr<P,Sh<n,n>::N>&a){ IN(Sh,n,SZ) P d[n]; piv<n>(A,d); rk=n; for(int i=n-1;i>=0;i--) if(d[i]==0) rk=i; }
// singular: a zero pivot after z good ones
template<int n,int z> static inline void sing(const P*p,P*m){ P L[n*n],D[n]; int q=0; for(int i=0;i<n;i++){ for(int j=0;j<n;j++) L[i*n+j]=j<i?p[q++]:i==j; D[i]=i==z?0:p[n*(n-1)/2+i]; if(i<z) vf_assume(D[i]!=0); } for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P s=0; for(int k=0;k<n;k++) s+=L[i*n+k]*D[k]*L[j*n+k]; m[i*n+j]=s; } }
#define SG(n,z,SZ) \
 LIB(ch_sing_##n##_##z##_##SZ)(P&dt,int&rk,const Arr<P,n*(n+1)/2>&p){ P m[n*n]; sing<n,z>(p,m); auto c=Mt<n,SZ==DY?DY:n>::mk(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) c(i,j)=m[i*n+j]; D(n,SZ) d(c); dt=d.determinant(); rk=d.rank(); } \
 REF(ch_sing_##n##_##z##_##SZ)(P&dt,int&rk,const Arr<P,n*(n+1)/2>&p){ dt=0; rk=z; }
SG(3,0,ST) SG(3,1,ST) SG(3,2,DY) SG(2,0,DY) SG(2,1,ST) SG(1,0,ST) SG(4,2,ST)
// deferred decomposition, straight from the given storage
#define LCD(Sh,n,SZ) \
 LIB(ch_def_##Sh##_##n##_##SZ)(Arr<P,n>&r,Arr<P,n>&q,const Arr<P,Sh<n,n>::N>&a,const Arr<P,n>&b){ IN(Sh,n,SZ) Sh<n,n>::with(a,[&](auto&m){ nz<n>(A); const D(n,SZ) d(m); mulv(A,d.backsub(wrapVector<n>(b)),n,r); D(n,SZ) e DFL(n,SZ); e.compute(m); e.compute(m); mulv(A,e.backsub(wrapVector<n>(b)),n,q); }); } \
 REF(ch_def_##Sh##_##n##_##SZ)(Arr<P,n>&r,Arr<P,n>&q,const Arr<P,Sh<n,n>::N>&a,const Arr<P,n>&b){ for(int i=0;i<n;i++) r[i]=q[i]=b[i]; }
#define DFL(n,SZ) DFL_##SZ(n)
#define DFL_ST(n)
#define DFL_DY(n) (n)
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSubT,__VA_ARGS__) F(MOwn,__VA_ARGS__)
#define ALLV(Sh,n,SZ) LCV(Sh,n,SZ,VFix) LCV(Sh,n,SZ,VCol) LCV(Sh,n,SZ,VOwn) LCV(Sh,n,SZ,VSubD)
#define ALLM(Sh,n,SZ) LCM(Sh,n,SZ,MFix,2) LCM(Sh,n,SZ,MFixC,1) LCM(Sh,n,SZ,MOwn,4) LCM(Sh,n,SZ,MSubT,2) LCM(Sh,n,SZ,MSub,3)
SHP(LC,3,ST) SHP(LC,2,ST) SHP(LC,3,DY) LC(MFix,1,ST) LC(MOwn,1,DY) LC(MFix,4,ST)
SHP(ALLV,3,ST) SHP(ALLV,3,DY) ALLV(MFix,1,ST) ALLV(MFix,2,ST) ALLV(MFixC,4,ST)
SHP(ALLM,3,ST) SHP(ALLM,3,DY) ALLM(MFix,1,ST) ALLM(MFix,2,ST) ALLM(MFixC,4,DY)
LCD(MFix,3,ST) LCD(MFixC,3,ST) LCD(MSub,3,ST) LCD(MDyn,3,DY) LCD(MOwn,3,DY) LCD(MDynC,3,DY) LCD(MSubT,3,DY) LCD(MFixC,2,ST)
SHP(LDL,3,ST) SHP(LDL,3,DY) LDL(MFix,2,ST) LDL(MFix,1,ST) LDL(MOwn,4,DY)
