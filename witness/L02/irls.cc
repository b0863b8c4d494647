// Robust reweighting: the weight functions and what each measurement adds to every accumulated quantity
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/irls.h>
using namespace so;
enum { DY=-1 };
static inline P ab(P x){ return x<0?-x:x; }
// weight w(x), w(x) + x w'(x), and the integral of x w(x) from zero, for inlier deviation s
struct I1{ typedef RobustI<P> T; static P w(P s,P x){ return 1/(s+ab(x)); } static P t(P s,P x){ return s/((s+ab(x))*(s+ab(x))); } static P o(P s,P x){ return ab(x)-s*std::log((s+ab(x))/s); } };
struct I2{ typedef RobustII<P> T; static P w(P s,P x){ return 1/(s*s+x*x); } static P t(P s,P x){ return (s*s-x*x)/((s*s+x*x)*(s*s+x*x)); } static P o(P s,P x){ return std::log((s*s+x*x)/(s*s))/2; } };
struct I3{ typedef RobustIII<P> T; static P w(P s,P x){ P d=s*s/(s*s+x*x); return d*d; } static P t(P s,P x){ P v=s*s; return v*v*(v-3*x*x)/((v+x*x)*(v+x*x)*(v+x*x)); } static P o(P s,P x){ return s*s*x*x/(2*(s*s+x*x)); } };
struct I0{ typedef ILinear<P> T; static P w(P s,P x){ return 1; } static P t(P s,P x){ return 1; } static P o(P s,P x){ return x*x/2; } };
#define WF(K) LIB(weight_##K)(P&w,P&t,P&o,const P&s,const P&x){ K::T k; k.set_sd(s); w=k.reweight(x); t=k.true_scale(x); o=k.objective(x); } \
 REF(weight_##K)(P&w,P&t,P&o,const P&s,const P&x){ w=K::w(s,x); t=K::t(s,x); o=K::o(s,x); } \
 LIB(generic_even_##K)(P&w,P&t,P&o,const P&s,const P&x){ K::T k; k.set_sd(s); w=k.reweight(-x); t=k.true_scale(-x); o=k.objective(-x); } \
 REF(generic_even_##K)(P&w,P&t,P&o,const P&s,const P&x){ w=K::w(s,x); t=K::t(s,x); o=K::o(s,x); }
WF(I0) WF(I1) WF(I2) WF(I3)
// the curvature factor is the derivative of x w(x): for each function, from its own reweight() by the quotient rule
#define DV(K,...) LIB(deriv_##K)(P&e,const P&s,const P&x){ K::T k; k.set_sd(s); P w=k.reweight(x); e=k.true_scale(x)-(w+(__VA_ARGS__)); } REF(deriv_##K)(P&e,const P&s,const P&x){ e=0; }
DV(I0,0) DV(I1,-ab(x)*w*w) DV(I2,-2*x*x*w*w) DV(I3,-4*x*x/(s*s)*w/(1+x*x/(s*s)))
template<int n,class X> static inline void out(X&w,P*c,P*v,P*t){ const auto&C=w.get_C_inv(); const auto&V=w.get_vector(); const auto&T_=w.get_true_C_inv(); vf_assert(C.num_rows()==n&&V.size()==n&&T_.num_rows()==n&&T_.num_cols()==n); for(int i=0;i<n;i++){ v[i]=V[i]; for(int j=0;j<n;j++){ c[i*n+j]=i<=j?C(i,j):P(0); t[i*n+j]=T_(i,j); } } }
#define ST0(n) Arr<P,n*n>&c,Arr<P,n>&v,Arr<P,n*n>&t,P&res,const Arr<P,n*n>&c0,const Arr<P,n>&v0,const Arr<P,n*n>&t0,const P&s,const P&m
#define MAKE(K,n,Z,w,f) IRLS<Z,P,RW_##K> w(n); w.set_sd(s); (void)f; w.get_C_inv()=wrapMatrix<n,n>(c0); w.get_vector()=wrapVector<n>(v0); w.get_true_C_inv()=wrapMatrix<n,n>(t0);
#define RW_I0 ILinear
#define RW_I1 RobustI
#define RW_I2 RobustII
#define RW_I3 RobustIII
template<int n> static inline void base(const P*c0,const P*v0,const P*t0,P*c,P*v,P*t){ for(int i=0;i<n;i++){ v[i]=v0[i]; for(int j=0;j<n;j++){ c[i*n+j]=i<=j?c0[i*n+j]:P(0); t[i*n+j]=t0[i*n+j]; } } }
template<int n,class K> static inline void add(P s,P m,const P*J,P*c,P*v,P*t,P&r){ P w=K::w(s,m),ts=K::t(s,m); r+=K::o(s,m); for(int i=0;i<n;i++){ v[i]+=J[i]*w*m; for(int j=0;j<n;j++){ if(i<=j) c[i*n+j]+=w*J[i]*J[j]; t[i*n+j]+=ts*J[i]*J[j]; } } }
// one measurement on top of any state, and a second one
#define AD(K,n,nm,Z,S) LIB(add_##K##_##n##_##nm##_##S)(ST0(n),const Arr<P,S<n>::N>&J,const P&m2,const Arr<P,n>&J2){ MAKE(K,n,Z,w,0) S<n>::with(J,[&](auto&q){ w.add_mJ(m,q); }); w.add_mJ(m2,wrapVector<n>(J2)); out<n>(w,c,v,t); res=w.get_residual(); } \
 REF(add_##K##_##n##_##nm##_##S)(ST0(n),const Arr<P,S<n>::N>&J,const P&m2,const Arr<P,n>&J2){ P j[n]; for(int i=0;i<n;i++) j[i]=J[S<n>::pos(i)]; base<n>(c0,v0,t0,c,v,t); res=0; add<n,K>(s,m,j,c,v,t,res); add<n,K>(s,m2,J2,c,v,t,res); }
#define ADA(K) AD(K,2,st,2,VFix) AD(K,3,st,3,VCol) AD(K,3,dy,DY,VDyn) AD(K,2,dy,DY,VOwn) AD(K,1,st,1,VFix) AD(K,3,dy,DY,VColD)
ADA(I0) ADA(I1) ADA(I2) ADA(I3)
// merging and clearing keep every accumulated quantity
#define ME(K,n,nm,Z) LIB(merge_##K##_##n##_##nm)(ST0(n),const Arr<P,n>&J,const P&m2,const Arr<P,n>&J2){ MAKE(K,n,Z,w,0) w.add_mJ(m,wrapVector<n>(J)); IRLS<Z,P,RW_##K> u(n); u.set_sd(s); u.add_mJ(m2,wrapVector<n>(J2)); w+=u; out<n>(w,c,v,t); res=w.get_residual(); P c1[n*n],v1[n],t1[n*n],r1=0; out<n>(u,c1,v1,t1); vf_assert(u.get_residual()==K::o(s,m2)); u.clear(); out<n>(u,c1,v1,t1); vf_assert(u.get_residual()==0); for(int i=0;i<n;i++){ vf_assert(v1[i]==0); for(int j=0;j<n;j++) vf_assert(c1[i*n+j]==0&&t1[i*n+j]==0); } (void)r1; } \
 REF(merge_##K##_##n##_##nm)(ST0(n),const Arr<P,n>&J,const P&m2,const Arr<P,n>&J2){ base<n>(c0,v0,t0,c,v,t); res=0; add<n,K>(s,m,J,c,v,t,res); add<n,K>(s,m2,J2,c,v,t,res); } \
 LIB(fresh_##K##_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v,Arr<P,n*n>&t,P&r){ IRLS<Z,P,RW_##K> w(n); out<n>(w,c,v,t); r=w.get_residual(); } REF(fresh_##K##_##n##_##nm)(Arr<P,n*n>&c,Arr<P,n>&v,Arr<P,n*n>&t,P&r){ for(P&x:c) x=0; for(P&x:v) x=0; for(P&x:t) x=0; r=0; }
#define MEA(K) ME(K,2,st,2) ME(K,3,dy,DY)
MEA(I0) MEA(I1) MEA(I2) MEA(I3)
// an own reweighting class is asked once for each quantity of the residual it is given
template<class T> struct Own_{ T k; T reweight(T x){ return k*x+3; } T true_scale(T x){ return k*x*x-1; } T objective(T x){ return k*k*x*x*x; } };
LIB(own)(ST0(2),const Arr<P,2>&J){ IRLS<2,P,Own_> w; w.k=s; w.get_C_inv()=wrapMatrix<2,2>(c0); w.get_vector()=wrapVector<2>(v0); w.get_true_C_inv()=wrapMatrix<2,2>(t0); w.add_mJ(m,wrapVector<2>(J)); out<2>(w,c,v,t); res=w.get_residual(); }
REF(own)(ST0(2),const Arr<P,2>&J){ base<2>(c0,v0,t0,c,v,t); res=s*s*m*m*m; for(int i=0;i<2;i++){ v[i]+=J[i]*(s*m+3)*m; for(int j=0;j<2;j++){ if(i<=j) c[i*2+j]+=(s*m+3)*J[i]*J[j]; t[i*2+j]+=(s*m*m-1)*J[i]*J[j]; } } }
// the solution is that of the reweighted system
template<int n> static inline void pivs(const P*c){ P L[n*n],d[n]; for(int j=0;j<n;j++){ d[j]=c[j*n+j]; for(int q=0;q<j;q++) d[j]-=L[j*n+q]*L[j*n+q]*d[q]; vf_assume(d[j]!=0); for(int i=j+1;i<n;i++){ P v=c[j*n+i]; for(int q=0;q<j;q++) v-=L[i*n+q]*L[j*n+q]*d[q]; L[i*n+j]=v/d[j]; } } }
#define SO(K,n,nm,Z) LIB(solve_##K##_##n##_##nm)(Arr<P,n>&r,const Arr<P,n>&m,const Arr<P,n*n>&J,const P&s,const P&pr){ IRLS<Z,P,RW_##K> w(n); w.set_sd(s); P c[n*n],v[n],t[n*n],e=0; for(P&x:c) x=0; for(P&x:v) x=0; for(P&x:t) x=0; for(int i=0;i<n;i++) add<n,K>(s,m[i],J+i*n,c,v,t,e); for(int i=0;i<n;i++) c[i*n+i]+=pr; pivs<n>(c); w.add_prior(pr); for(int i=0;i<n;i++) w.add_mJ(m[i],wrapVector<n>(J+i*n)); w.compute(); for(int i=0;i<n;i++){ r[i]=-v[i]; for(int j=0;j<n;j++) r[i]+=c[i<j?i*n+j:j*n+i]*w.get_mu()[j]; } } \
 REF(solve_##K##_##n##_##nm)(Arr<P,n>&r,const Arr<P,n>&m,const Arr<P,n*n>&J,const P&s,const P&pr){ for(P&x:r) x=0; }
SO(I0,2,st,2) SO(I2,2,st,2) SO(I3,2,dy,DY) SO(I1,2,st,2)
