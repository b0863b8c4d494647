// Resizable vectors keep their contents and take any size
// FLAGS:
// FLAGS: -DPREC=float -DTOON_INITIALIZE_SNAN -DTOON_CHECK_BOUNDS
// FLAGS: -DPREC=int
// FLAGS-THOROUGH: -DTOON_INITIALIZE_VAL=3 -std=gnu++20
#include "shapes.h"
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define MC ,
typedef Vector<Resizable,P> VR;
template<int A> void fill(VR&v,const P(&a)[A]){ for(int i=0;i<A;i++) v[i]=a[i]; }
template<int N,class V> void save(P(&o)[N],int&n,const V&v){ n=v.size(); for(int i=0;i<v.size()&&i<N;i++) o[i]=v[i]; }
// resize A -> B keeps the common elements
#define RS(A,B) LIB(rs_##A##_##B)(P(&o)[12],int&n,const P(&a)[A]){ VR v(A); fill(v,a); v.resize(B); n=v.size(); for(int i=0;i<A&&i<B;i++) o[i]=v[i]; for(int i=0;i<B;i++) v[i]=i; for(int i=A<B?A:B;i<B;i++) o[i]=v[i]; } \
 REF(rs_##A##_##B)(P(&o)[12],int&n,const P(&a)[A]){ n=B; for(int i=0;i<B;i++) o[i]= i<A?a[i]:P(i); }
RS(1,1) RS(1,2) RS(2,1) RS(3,5) RS(5,3) RS(4,12) RS(12,4) RS(3,0) RS(7,8) RS(8,7) RS(3,3)
// sequences
#define RSEQ(A,B,C,D) LIB(seq_##A##_##B##_##C##_##D)(P(&o)[12],int(&n)[4],const P(&a)[A]){ VR v; n[0]=v.size(); v.resize(A); fill(v,a); v.resize(B); n[1]=v.size(); v.resize(C); n[2]=v.size(); v.resize(D); n[3]=v.size(); for(int i=0;i<D;i++) if(i<A&&i<B&&i<C) o[i]=v[i]; } \
 REF(seq_##A##_##B##_##C##_##D)(P(&o)[12],int(&n)[4],const P(&a)[A]){ n[0]=0; n[1]=B; n[2]=C; n[3]=D; for(int i=0;i<D;i++) if(i<A&&i<B&&i<C) o[i]=a[i]; }
RSEQ(3,6,2,5) RSEQ(4,2,8,3) RSEQ(2,9,4,7) RSEQ(6,6,1,1) RSEQ(2,0,3,1) RSEQ(5,4,3,2)
// assignment from every vector shape, whatever the size before
#define AS(S,A) LIB(as_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ sh::S<4>::with(a,[&](auto&x){ VR v(A); for(int i=0;i<A;i++) v[i]=t; v=x; save(o,n,v); v[0]=t; x[1]=t; }); } \
 REF(as_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ n=4; for(int i=0;i<4;i++) o[i]=a[sh::S<4>::pos(i)]; a[sh::S<4>::pos(1)]=t; } \
 LIB(ae_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ sh::S<4>::with(a,[&](auto&x){ VR v(A); v=x+x*t; v=v-x; VR w; w=-v; v=w; save(o,n,v); }); } \
 REF(ae_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ n=4; for(int i=0;i<4;i++) o[i]=-(a[sh::S<4>::pos(i)]*t); } \
 LIB(ac_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ sh::S<4>::with(a,[&](auto&x){ VR v(x); VR u(A); for(int i=0;i<A;i++) u[i]=0; u=v; v.resize(1); v=u; v[2]=v[2]; VR w(v); v[0]=0; v.resize(2); save(o,n,w); }); } \
 REF(ac_##S##_##A)(P(&o)[4],int&n,P(&a)[sh::S<4>::N],const P&t){ n=4; for(int i=0;i<4;i++) o[i]=a[sh::S<4>::pos(i)]; }
#define ASA(A) AS(VFix,A) AS(VRef,A) AS(VDyn,A) AS(VOwn,A) AS(VRsz,A) AS(VSub,A) AS(VSubD,A) AS(VCol,A) AS(VColD,A) AS(VRow,A) AS(VDiag,A) AS(VDiagD,A) AS(VStrSub,A) AS(VStrSubD,A)
ASA(0) ASA(2) ASA(4) ASA(7)
// assignment from other sources
#define SRC(n,N,EXPR,...) LIB(src_##n)(P(&o)[6],int&k,const P(&a)[6],const P&s){ const Vector<6,P>&x=*reinterpret_cast<const Vector<6,P>*>(a); const Matrix<2,3,P>&m=*reinterpret_cast<const Matrix<2,3,P>*>(a); (void)x;(void)m; VR v(3); v[0]=v[1]=v[2]=0; v=EXPR; save(o,k,v); } \
 REF(src_##n)(P(&o)[6],int&k,const P(&x)[6],const P&s){ k=N; const P r[N]={__VA_ARGS__}; for(int i=0;i<N;i++) o[i]=r[i]; } \
 LIB(srcc_##n)(P(&o)[6],int&k,const P(&a)[6],const P&s){ const Vector<6,P>&x=*reinterpret_cast<const Vector<6,P>*>(a); const Matrix<2,3,P>&m=*reinterpret_cast<const Matrix<2,3,P>*>(a); (void)x;(void)m; VR v(EXPR); save(o,k,v); } \
 REF(srcc_##n)(P(&o)[6],int&k,const P(&x)[6],const P&s){ k=N; const P r[N]={__VA_ARGS__}; for(int i=0;i<N;i++) o[i]=r[i]; }
SRC(mk,4,makeVector(x[0] MC x[1] MC s MC x[2]),x[0],x[1],s,x[2])
SRC(row,3,m[1],x[3],x[4],x[5])
SRC(col,2,m.T()[1],x[1],x[4])
SRC(sl,2,(x.template slice<3 MC 2>()),x[3],x[4])
SRC(sld,1,x.slice(5 MC 1),x[5])
SRC(mv,2,m*x.slice(0 MC 3),x[0]*x[0]+x[1]*x[1]+x[2]*x[2],x[3]*x[0]+x[4]*x[1]+x[5]*x[2])
SRC(vm,3,x.slice(0 MC 2)*m,x[0]*x[0]+x[1]*x[3],x[0]*x[1]+x[1]*x[4],x[0]*x[2]+x[1]*x[5])
SRC(cr,3,m[0]^m[1],x[1]*x[5]-x[2]*x[4],x[2]*x[3]-x[0]*x[5],x[0]*x[4]-x[1]*x[3])
SRC(on,4,Ones(4),1,1,1,1)
SRC(ze,2,Zeros(2),0,0)
SRC(sc,6,x*s,x[0]*s,x[1]*s,x[2]*s,x[3]*s,x[4]*s,x[5]*s)
SRC(dv,6,x/s,x[0]/s,x[1]/s,x[2]/s,x[3]/s,x[4]/s,x[5]/s)
SRC(dg,6,x.as_diagonal()*x,x[0]*x[0],x[1]*x[1],x[2]*x[2],x[3]*x[3],x[4]*x[4],x[5]*x[5])
// an operator without a size keeps the current size
LIB(unsized)(P(&o)[4],int&k,const P&s){ VR v(4); v=Zeros; v+=Ones; v=v*s; save(o,k,v); v=Ones; }
REF(unsized)(P(&o)[4],int&k,const P&s){ k=4; for(int i=0;i<4;i++) o[i]=s; }
// only resizable vectors change: swapping exchanges sizes and contents, views of it stay views
LIB(swap)(P(&o)[5],P(&q)[5],int(&k)[2],const P(&a)[2],const P(&b)[5]){ VR v(2),w(5); fill(v,a); fill(w,b); std::swap(v,w); save(o,k[0],v); save(q,k[1],w); }
REF(swap)(P(&o)[5],P(&q)[5],int(&k)[2],const P(&a)[2],const P(&b)[5]){ k[0]=5; k[1]=2; for(int i=0;i<5;i++) o[i]=b[i]; q[0]=a[0]; q[1]=a[1]; }
LIB(list)(P(&o)[4],int(&k)[3],const P(&a)[4]){ VR v={a[0],a[1],a[2],a[3]}; save(o,k[0],v); VR w({a[0]}); k[1]=w.size(); v={a[1],a[0]}; k[2]=v.size(); o[3]=v[1]; }
REF(list)(P(&o)[4],int(&k)[3],const P(&a)[4]){ for(int i=0;i<4;i++) o[i]=a[i]; k[0]=4; k[1]=1; k[2]=2; o[3]=a[0]; }
