// Every WLS operation, applied to an arbitrary accumulated state, adds exactly its documented terms
// (so any sequence of them does), and compute() solves the accumulated system.
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/wls.h>
#include <TooN/SVD.h>
using namespace so;
enum { DY=-1 };
template<int n,int Z> struct W{ WLS<Z,P> w; W(const P*c,const P*v):w(n){ w.get_C_inv()=wrapMatrix<n,n>(c); w.get_vector()=wrapVector<n>(v); } };
// the information matrix is the symmetric one given by its upper triangle
template<int n,class X> static inline void out(const X&w,P*c,P*v){ const auto&C=w.get_C_inv(); const auto&V=w.get_vector(); vf_assert(C.num_rows()==n&&C.num_cols()==n&&V.size()==n); for(int i=0;i<n;i++){ v[i]=V[i]; for(int j=0;j<n;j++) c[i*n+j]=i<=j?C(i,j):P(0); } }
template<int n> static inline void base(const P*c0,const P*v0,P*c,P*v){ for(int i=0;i<n;i++){ v[i]=v0[i]; for(int j=0;j<n;j++) c[i*n+j]=i<=j?c0[i*n+j]:P(0); } }
// C += J^T W J, v += J^T W m with J of r rows (row-major, n columns)
template<int n,int r> static inline void acc(const P*J,const P*Wm,const P*m,P*c,P*v){ for(int i=0;i<n;i++){ for(int a=0;a<r;a++) for(int b=0;b<r;b++) v[i]+=J[a*n+i]*Wm[a*r+b]*m[b]; for(int j=i;j<n;j++) for(int a=0;a<r;a++) for(int b=0;b<r;b++) c[i*n+j]+=J[a*n+i]*Wm[a*r+b]*J[b*n+j]; } }
template<int r> static inline void diag(P w,P*o){ for(int i=0;i<r*r;i++) o[i]=i%(r+1)==0?w:P(0); }
template<int r> static inline void symm(const P*t,P*o){ for(int i=0,q=0;i<r;i++) for(int j=0;j<=i;j++,q++) o[i*r+j]=o[j*r+i]=t[q]; }
template<class S> struct Buf{ P p[S::N]; Buf(){ for(P&x:p) x=7; } template<int r,int c> void mat(const P*a){ for(int i=0;i<r;i++) for(int j=0;j<c;j++) p[S::pos(i,j)]=a[i*c+j]; } template<int n> void vec(const P*a){ for(int i=0;i<n;i++) p[S::pos(i)]=a[i]; } };
#define ST0(n) Arr<P,n*n>&c,Arr<P,n>&v,const Arr<P,n*n>&c0,const Arr<P,n>&v0
#define NAME(op,n,nm) op##_##n##_##nm
#define OP(id,n,Z,ARGS,LIBB,REFB) LIB(id)(ST0(n),ARGS){ W<n,Z> x(c0,v0); auto&w=x.w; LIBB; out<n>(w,c,v); } REF(id)(ST0(n),ARGS){ base<n>(c0,v0,c,v); REFB; }
#define MC ,
#define A1(x) x
// clear and priors
#define PRI(n,nm,Z) \
 LIB(clear_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ W<n,Z> x(c0,v0); x.w.clear(); out<n>(x.w,c,v); } REF(clear_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ for(P&x:c) x=0; for(P&x:v) x=0; } \
 LIB(fresh_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v){ const WLS<Z,P> w(n); out<n>(w,c,v); } REF(fresh_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v){ for(P&x:c) x=0; for(P&x:v) x=0; } \
 OP(priors_##n##_##nm,n,Z,const P&a,w.add_prior(a),for(int i=0;i<n;i++) c[i*n+i]+=a) \
 OP(merge_##n##_##nm,n,Z,A1(const Arr<P MC n*n>&c1 MC const Arr<P MC n>&v1),A1(W<n MC Z> y(c1 MC v1); w+=y.w; for(int i=0;i<n;i++) vf_assert(y.w.get_vector()[i]==v1[i])),A1(for(int i=0;i<n;i++){ v[i]+=v1[i]; for(int j=i;j<n;j++) c[i*n+j]+=c1[i*n+j]; })) \
 OP(self_##n##_##nm,n,Z,const P&a,A1((void)a; w+=w),A1((void)a; for(P&x:c) x*=2; for(P&x:v) x*=2))
PRI(2,st,2) PRI(3,st,3) PRI(3,dy,DY) PRI(1,st,1)
#define PV(n,nm,Z,S) OP(priorv_##n##_##nm##_##S,n,Z,const Arr<P MC n>&a,A1(Buf<S<n>> b; b.template vec<n>(a); S<n>::with((P*)b.p,[&](auto&t){ w.add_prior(t); })),for(int i=0;i<n;i++) c[i*n+i]+=a[i])
#define PM(n,nm,Z,S) OP(priorm_##n##_##nm##_##S,n,Z,const Arr<P MC n*n>&a,A1(Buf<S<n MC n>> b; b.template mat<n MC n>(a); S<n MC n>::with((P*)b.p,[&](auto&t){ w.add_prior(t); })),for(int i=0;i<n;i++) for(int j=i;j<n;j++) c[i*n+j]+=a[i*n+j])
PV(3,st,3,VFix) PV(3,st,3,VCol) PV(2,st,2,VDiag) PV(3,dy,DY,VDyn) PV(3,dy,DY,VSubD) PV(3,dy,DY,VColD) PV(2,dy,DY,VDiagD)
PM(3,st,3,MFix) PM(3,st,3,MFixC) PM(3,st,3,MT) PM(2,st,2,MSubC) PM(3,dy,DY,MDyn) PM(3,dy,DY,MOwn) PM(3,dy,DY,MSubT)
// one measurement, with and without a weight
#define M1(n,nm,Z,S) OP(one_##n##_##nm##_##S,n,Z,A1(const P&m MC const Arr<P MC S<n>::N>&J MC const P&wt),S<n>::with(J,[&](auto&t){ w.add_mJ(m,t,wt); }),A1(P j[n]; for(int i=0;i<n;i++) j[i]=J[S<n>::pos(i)]; acc<n MC 1>(j,&wt,&m,c,v))) \
 OP(oneu_##n##_##nm##_##S,n,Z,A1(const P&m MC const Arr<P MC S<n>::N>&J),S<n>::with(J,[&](auto&t){ w.add_mJ(m,t); }),A1(P j[n] MC wt=1; for(int i=0;i<n;i++) j[i]=J[S<n>::pos(i)]; acc<n MC 1>(j,&wt,&m,c,v)))
#define VS(F,...) F(__VA_ARGS__,VFix) F(__VA_ARGS__,VDyn) F(__VA_ARGS__,VOwn) F(__VA_ARGS__,VSub) F(__VA_ARGS__,VSubD) F(__VA_ARGS__,VCol) F(__VA_ARGS__,VColD) F(__VA_ARGS__,VRow) F(__VA_ARGS__,VDiag) F(__VA_ARGS__,VStrSub) F(__VA_ARGS__,VRsz)
VS(M1,3,st,3) VS(M1,3,dy,DY) M1(2,st,2,VFix) M1(1,st,1,VFix) M1(1,dy,DY,VCol)
// several independent measurements
#define MS(n,r,nm,Z,S,V) OP(many_##n##_##r##_##nm##_##S##_##V,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*n>&J MC const P&wt),A1(Buf<S<r MC n>> bj; bj.template mat<r MC n>(J); Buf<V<r>> bm; bm.template vec<r>(m); S<r MC n>::with((P*)bj.p,[&](auto&t){ V<r>::with((P*)bm.p,[&](auto&q){ w.add_mJ(q,t,wt); }); })),A1(P ww[r*r]; diag<r>(wt,ww); acc<n MC r>(J,ww,m,c,v))) \
 OP(manyu_##n##_##r##_##nm##_##S##_##V,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*n>&J),A1(Buf<S<r MC n>> bj; bj.template mat<r MC n>(J); Buf<V<r>> bm; bm.template vec<r>(m); S<r MC n>::with((P*)bj.p,[&](auto&t){ V<r>::with((P*)bm.p,[&](auto&q){ w.add_mJ(q,t); }); })),A1(P ww[r*r]; diag<r>(1,ww); acc<n MC r>(J,ww,m,c,v)))
MS(3,2,st,3,MFix,VFix) MS(3,4,st,3,MFixC,VCol) MS(2,3,st,2,MRowDyn,VDyn) MS(3,2,dy,DY,MOwn,VOwn) MS(3,4,dy,DY,MDyn,VSubD) MS(3,2,dy,DY,MSubT,VColD) MS(2,1,st,2,MFix,VFix) MS(3,2,dy,DY,MColDyn,VFix)
// batches with a full (symmetric) weight, Jacobians by columns and by rows
#define BA(n,r,nm,Z,S,SR,V,SW) \
 OP(batch_##n##_##r##_##nm##_##S##_##V##_##SW,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*n>&J MC const Arr<P MC r*(r+1)/2>&wt),A1(P ww[r*r]; symm<r>(wt,ww); P jt[r*n]; for(int i=0;i<r;i++) for(int j=0;j<n;j++) jt[j*r+i]=J[i*n+j]; Buf<S<n MC r>> bj; bj.template mat<n MC r>(jt); Buf<V<r>> bm; bm.template vec<r>(m); Buf<SW<r MC r>> bw; bw.template mat<r MC r>(ww); S<n MC r>::with((P*)bj.p,[&](auto&t){ V<r>::with((P*)bm.p,[&](auto&q){ SW<r MC r>::with((P*)bw.p,[&](auto&k){ w.add_mJ(q,t,k); }); }); })),A1(P ww[r*r]; symm<r>(wt,ww); acc<n MC r>(J,ww,m,c,v))) \
 OP(rows_##n##_##r##_##nm##_##SR##_##V##_##SW,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*n>&J MC const Arr<P MC r*(r+1)/2>&wt),A1(P ww[r*r]; symm<r>(wt,ww); Buf<SR<r MC n>> bj; bj.template mat<r MC n>(J); Buf<V<r>> bm; bm.template vec<r>(m); Buf<SW<r MC r>> bw; bw.template mat<r MC r>(ww); SR<r MC n>::with((P*)bj.p,[&](auto&t){ V<r>::with((P*)bm.p,[&](auto&q){ SW<r MC r>::with((P*)bw.p,[&](auto&k){ w.add_mJ_rows(q,t,k); }); }); })),A1(P ww[r*r]; symm<r>(wt,ww); acc<n MC r>(J,ww,m,c,v)))
BA(3,2,st,3,MFix,MFix,VFix,MFix) BA(3,4,st,3,MFixC,MFixC,VCol,MFixC) BA(2,3,st,2,MT,MT,VSub,MT) BA(2,2,dy,DY,MOwn,MOwn,VOwn,MOwn) BA(3,2,dy,DY,MDyn,MDyn,VDyn,MDyn) BA(2,3,dy,DY,MSubT,MSubT,VSubD,MSubT) BA(3,1,st,3,MFix,MFix,VFix,MFix)
// sparse forms: blocks of the Jacobian at given places, in any order, touching or overlapping
#define SP(n,b,at,nm,Z,S) OP(sp1_##n##_##b##_##at##_##nm##_##S,n,Z,A1(const P&m MC const Arr<P MC b>&J MC const P&wt),A1(Buf<S<b>> bj; bj.template vec<b>(J); S<b>::with((P*)bj.p,[&](auto&t){ w.add_sparse_mJ(m,t,at,wt); })),A1(P j[n]; for(int i=0;i<n;i++) j[i]=i>=at&&i<at+b?J[i-at]:P(0); acc<n MC 1>(j,&wt,&m,c,v))) \
 OP(sp1u_##n##_##b##_##at##_##nm##_##S,n,Z,A1(const P&m MC const Arr<P MC b>&J),A1(Buf<S<b>> bj; bj.template vec<b>(J); S<b>::with((P*)bj.p,[&](auto&t){ w.add_sparse_mJ(m,t,at); })),A1(P j[n] MC wt=1; for(int i=0;i<n;i++) j[i]=i>=at&&i<at+b?J[i-at]:P(0); acc<n MC 1>(j,&wt,&m,c,v)))
SP(5,2,0,st,5,VFix) SP(5,2,3,st,5,VFix) SP(5,3,1,st,5,VCol) SP(5,1,4,st,5,VDyn) SP(5,2,2,dy,DY,VFix) SP(5,3,2,dy,DY,VSubD) SP(4,4,0,dy,DY,VOwn) SP(4,2,1,dy,DY,VColD)
#define SR(n,r,b,at,nm,Z,S,V,SW) OP(spr_##n##_##r##_##b##_##at##_##nm##_##S,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*b>&J MC const Arr<P MC r*(r+1)/2>&wt),A1(P ww[r*r]; symm<r>(wt,ww); Buf<S<r MC b>> bj; bj.template mat<r MC b>(J); Buf<V<r>> bm; bm.template vec<r>(m); Buf<SW<r MC r>> bw; bw.template mat<r MC r>(ww); S<r MC b>::with((P*)bj.p,[&](auto&t){ V<r>::with((P*)bm.p,[&](auto&q){ SW<r MC r>::with((P*)bw.p,[&](auto&k){ w.add_sparse_mJ_rows(q,t,at,k); }); }); })),A1(P ww[r*r] MC j[r*n]; symm<r>(wt,ww); for(int i=0;i<r;i++) for(int k=0;k<n;k++) j[i*n+k]=k>=at&&k<at+b?J[i*b+k-at]:P(0); acc<n MC r>(j,ww,m,c,v)))
SR(5,2,2,0,st,5,MFix,VFix,MFix) SR(5,2,2,3,st,5,MFixC,VCol,MFixC) SR(5,3,2,1,dy,DY,MOwn,VOwn,MOwn) SR(4,2,3,1,dy,DY,MSubT,VSubD,MSubT) SR(5,1,3,2,st,5,MFix,VFix,MFix) SR(4,2,4,0,dy,DY,MDyn,VDyn,MDyn) SR(5,2,2,2,dm,DY,MFix,VFix,MFix)
#define S2(n,r,b1,a1,b2,a2,nm,Z,S,V,SW) OP(spp_##n##_##r##_##b1##_##a1##_##b2##_##a2##_##nm##_##S,n,Z,A1(const Arr<P MC r>&m MC const Arr<P MC r*b1>&J MC const Arr<P MC r*b2>&K MC const Arr<P MC r*(r+1)/2>&wt),A1(P ww[r*r]; symm<r>(wt,ww); Buf<S<r MC b1>> bj; bj.template mat<r MC b1>(J); Buf<S<r MC b2>> bk; bk.template mat<r MC b2>(K); Buf<V<r>> bm; bm.template vec<r>(m); Buf<SW<r MC r>> bw; bw.template mat<r MC r>(ww); S<r MC b1>::with((P*)bj.p,[&](auto&t){ S<r MC b2>::with((P*)bk.p,[&](auto&u){ V<r>::with((P*)bm.p,[&](auto&q){ SW<r MC r>::with((P*)bw.p,[&](auto&k){ w.add_sparse_mJ_rows(q,t,a1,u,a2,k); }); }); }); })),A1(P ww[r*r] MC j[r*n]; symm<r>(wt,ww); for(int i=0;i<r;i++) for(int k=0;k<n;k++) j[i*n+k]=(k>=a1&&k<a1+b1?J[i*b1+k-a1]:P(0))+(k>=a2&&k<a2+b2?K[i*b2+k-a2]:P(0)); acc<n MC r>(j,ww,m,c,v)))
S2(5,2,2,0,2,3,st,5,MFix,VFix,MFix) S2(5,2,2,3,2,0,st,5,MFix,VFix,MFix) S2(5,2,1,4,3,0,st,5,MFixC,VCol,MFixC) S2(5,2,2,2,2,0,dy,DY,MOwn,VOwn,MOwn) S2(4,2,1,0,3,1,dy,DY,MSubT,VSubD,MSubT) S2(4,2,2,0,2,1,dy,DY,MDyn,VDyn,MDyn) S2(4,1,2,2,2,0,dm,DY,MFix,VFix,MFix) S2(4,2,2,1,2,1,st,4,MFix,VFix,MFix)
// the solution: C mu = v with C symmetric, and the matrix handed out is the whole of C
template<int n> static inline void pivs(const P*c){ P L[n*n],d[n]; for(int j=0;j<n;j++){ d[j]=c[j*n+j]; for(int q=0;q<j;q++) d[j]-=L[j*n+q]*L[j*n+q]*d[q]; vf_assume(d[j]!=0); for(int i=j+1;i<n;i++){ P v=c[j*n+i]; for(int q=0;q<j;q++) v-=L[i*n+q]*L[j*n+q]*d[q]; L[i*n+j]=v/d[j]; } } }
#define CO(n,nm,Z) \
 LIB(solve_##n##_##nm)(Arr<P,n>&r,Arr<P,n>&r2,Arr<P,n*n>&c,Arr<P,n>&v,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ W<n,Z> x(c0,v0); pivs<n>(c0); x.w.compute(); auto mul=[&](P*o){ for(int i=0;i<n;i++){ o[i]=0; for(int j=0;j<n;j++) o[i]+=c0[i<j?i*n+j:j*n+i]*x.w.get_mu()[j]; } }; mul(r); x.w.compute(); mul(r2); const auto&w=x.w; vf_assert(w.get_mu().size()==n); for(int i=0;i<n;i++){ v[i]=w.get_vector()[i]; for(int j=0;j<n;j++) c[i*n+j]=w.get_C_inv()(i,j); } } \
 REF(solve_##n##_##nm)(Arr<P,n>&r,Arr<P,n>&r2,Arr<P,n*n>&c,Arr<P,n>&v,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ for(int i=0;i<n;i++){ r[i]=r2[i]=v[i]=v0[i]; for(int j=0;j<n;j++) c[i*n+j]=c0[i<j?i*n+j:j*n+i]; } }
CO(1,st,1) CO(2,st,2) CO(3,st,3) CO(2,dy,DY) CO(3,dy,DY) CO(4,st,4)
// with any other decomposition: it is given the whole symmetric matrix and the accumulated vector
template<int S,class T> struct Any_{ T seen; int n; Any_(int k=S):seen(0),n(k){} template<class M> void compute(const M&m){ vf_assert(m.num_rows()==n&&m.num_cols()==n); seen=0; T w=1; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ w=w*3+1; seen+=w*m(i,j); } } template<class V> Vector<S,T> backsub(const V&v) const { Vector<S,T> r(n); for(int i=0;i<n;i++) r[i]=seen*(i+2)+v[i]; return r; } };
#define AN(n,nm,Z) LIB(any_##n##_##nm)(Arr<P,n>&r,P&s,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ WLS<Z,P,Any_> w(n); w.get_C_inv()=wrapMatrix<n,n>(c0); w.get_vector()=wrapVector<n>(v0); w.compute(); for(int i=0;i<n;i++) r[i]=w.get_mu()[i]; s=w.get_decomposition().seen; } \
 REF(any_##n##_##nm)(Arr<P,n>&r,P&s,const Arr<P,n*n>&c0,const Arr<P,n>&v0){ P w=1; s=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ w=w*3+1; s+=w*c0[i<j?i*n+j:j*n+i]; } for(int i=0;i<n;i++) r[i]=s*(i+2)+v0[i]; }
AN(2,st,2) AN(3,st,3) AN(3,dy,DY) AN(1,dy,DY)
// copies are independent of each other
#define CP(n,nm,Z) LIB(copy_##n##_##nm)(ST0(n),Arr<P,n>&v2,const P&m,const Arr<P,n>&J){ W<n,Z> x(c0,v0); WLS<Z,P> y(x.w); y.add_mJ(m,wrapVector<n>(J)); out<n>(x.w,c,v); x.w=y; for(int i=0;i<n;i++) v2[i]=x.w.get_vector()[i]; } REF(copy_##n##_##nm)(ST0(n),Arr<P,n>&v2,const P&m,const Arr<P,n>&J){ base<n>(c0,v0,c,v); for(int i=0;i<n;i++) v2[i]=v0[i]+m*J[i]; }
CP(2,st,2) CP(3,dy,DY)
