// The conjugate-gradient driver with an arbitrary function and gradient
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/optimization/conjugate_gradient.h>
using namespace so;
enum { DY=-1 };
template<int n> struct Fn;
#define OPQ(n) extern "C" double pure_goal##n##_d##n(const double*); extern "C" float pure_goal##n##_f##n(const float*); extern "C" void pure_slope##n##_d##n##_o##n(const double*,double*); extern "C" void pure_slope##n##_f##n##_o##n(const float*,float*); \
 template<> struct Fn<n>{ static double at(const double*p){ return pure_goal##n##_d##n(p); } static float at(const float*p){ return pure_goal##n##_f##n(p); } static void sl(const double*p,double*o){ pure_slope##n##_d##n##_o##n(p,o); } static void sl(const float*p,float*o){ pure_slope##n##_f##n##_o##n(p,o); } };
OPQ(1) OPQ(2) OPQ(3)
template<int n,int Z> struct Fo{ P operator()(const Vector<Z,P>&v) const { vf_assert(v.size()==n); P a[n]; for(int i=0;i<n;i++) a[i]=v[i]; return Fn<n>::at(a); } };
template<int n,int Z> struct De{ Vector<Z,P> operator()(const Vector<Z,P>&v) const { P a[n],b[n]; for(int i=0;i<n;i++) a[i]=v[i]; Fn<n>::sl(a,b); return wrapVector<n>(b); } };
// not a number at given distances along the search direction
template<int n,int Z> struct Fx{ const P*x,*h; P bad[3]; P operator()(const Vector<Z,P>&v) const { P a[n]; for(int i=0;i<n;i++) a[i]=v[i]; for(int q=0;q<3;q++) if(a[0]==x[0]-bad[q]*h[0]) return std::numeric_limits<P>::quiet_NaN(); return Fn<n>::at(a); } };
template<int n> static inline P along(const P*x,const P*h,P l){ P a[n]; for(int i=0;i<n;i++) a[i]=x[i]-l*h[i]; return Fn<n>::at(a); }
#define SET(n,Z) ConjugateGradient<Z,P> c(wrapVector<n>(x),Fo<n,Z>(),De<n,Z>()); c.h=wrapVector<n>(h); c.minus_h=-c.h; c.iterations=it; vf_assume(Fn<n>::at(x)==c.y);
#define SAME(a,b,n) for(int i=0;i<n;i++) vf_assert(a[i]==b[i]);
// after a line search: the value is the function at the point, no worse than before, and the previous point is remembered
#define POST(n) { P z[n]; for(int i=0;i<n;i++) z[i]=c.x[i]; vf_assert(c.y==Fn<n>::at(z)); vf_assert(!(c.y>Fn<n>::at(x))); vf_assert(c.old_y==Fn<n>::at(x)); SAME(c.old_x,x,n) SAME(c.h,h,n) vf_assert(c.iterations==it+1); for(int i=0;i<n;i++) vf_assert(c.g[i]==g0[i]); }
#define ARGS(n) const Arr<P,n>&x,const Arr<P,n>&h,const int&it
#define G0(n,Z) P g0[n]; for(int i=0;i<n;i++) g0[i]=c.g[i];
#define A_(n,l) along<n>(x,h,P(l))
#define LS(n,nm,Z,k) \
 CHK(fwd_##n##_##nm##_##k)(ARGS(n)){ vf_assume(A_(n,1)<Fn<n>::at(x)); vf_assume(A_(n,2)>A_(n,1)); SET(n,Z) G0(n,Z) c.linesearch_max_iterations=k; c.find_next_point(Fo<n,Z>()); POST(n) if(k==0) for(int i=0;i<n;i++) vf_assert(c.x[i]==x[i]-h[i]); } \
 CHK(fwd2_##n##_##nm##_##k)(ARGS(n)){ vf_assume(A_(n,0.25)<Fn<n>::at(x)); vf_assume(!(A_(n,0.5)>A_(n,0.25))); vf_assume(A_(n,1)>A_(n,0.5)); SET(n,Z) G0(n,Z) c.bracket_initial_lambda=P(0.25); c.linesearch_max_iterations=k; c.find_next_point(Fo<n,Z>()); POST(n) } \
 CHK(backone_##n##_##nm##_##k)(ARGS(n)){ vf_assume(!(A_(n,1)<Fn<n>::at(x))); vf_assume(A_(n,0.5)<Fn<n>::at(x)); SET(n,Z) G0(n,Z) c.linesearch_max_iterations=k; c.find_next_point(Fo<n,Z>()); POST(n) vf_assert(!(c.y>A_(n,0.5))); if(k==0) for(int i=0;i<n;i++) vf_assert(c.x[i]==x[i]-h[i]/2); } \
 CHK(back_##n##_##nm##_##k)(ARGS(n)){ vf_assume(!(A_(n,1)<Fn<n>::at(x))); vf_assume(!(A_(n,0.5)<Fn<n>::at(x))); vf_assume(A_(n,0.25)<Fn<n>::at(x)); SET(n,Z) G0(n,Z) c.linesearch_max_iterations=k; c.find_next_point(Fo<n,Z>()); POST(n) if(k==0) for(int i=0;i<n;i++) vf_assert(c.x[i]==x[i]-h[i]/4); } \
 CHK(none_##n##_##nm##_##k)(ARGS(n)){ vf_assume(!(A_(n,1)<Fn<n>::at(x))); vf_assume(!(A_(n,0.5)<Fn<n>::at(x))); vf_assume(!(A_(n,0.25)<Fn<n>::at(x))); SET(n,Z) G0(n,Z) c.bracket_epsilon=P(0.3); c.linesearch_max_iterations=k; c.find_next_point(Fo<n,Z>()); POST(n) SAME(c.x,x,n) } \
 CHK(generic_cut_##n##_##nm##_##k)(ARGS(n)){ vf_assume(A_(n,1)<Fn<n>::at(x)); SET(n,Z) G0(n,Z) c.linesearch_max_iterations=k; Fx<n,Z> f={x,h,{2,P(1.5),2}}; c.find_next_point(f); POST(n) vf_assert(!(c.y>A_(n,1.25))||!(c.y>A_(n,1))); if(A_(n,1.25)<A_(n,1)) for(int i=0;i<n;i++) vf_assert(c.x[i]==x[i]-P(1.25)*h[i]); } \
 CHK(generic_cutb_##n##_##nm##_##k)(ARGS(n)){ vf_assume(A_(n,0.25)<Fn<n>::at(x)); SET(n,Z) G0(n,Z) c.linesearch_max_iterations=k; Fx<n,Z> f={x,h,{1,P(0.5),1}}; c.find_next_point(f); POST(n) if(A_(n,0.375)<A_(n,0.25)) for(int i=0;i<n;i++) vf_assert(c.x[i]==x[i]-P(0.375)*h[i]); }
LS(1,st,1,0) LS(2,st,2,0) LS(2,dy,DY,0) LS(3,st,3,0) LS(1,st,1,1) LS(2,dy,DY,1) LS(2,st,2,2)
#undef SAME
#define ST(n) Arr<P,n>&X,Arr<P,n>&G,Arr<P,n>&H,Arr<P,n>&MH,P&y
#define OUT(n) for(int i=0;i<n;i++){ X[i]=c.x[i]; G[i]=c.g[i]; H[i]=c.h[i]; MH[i]=c.minus_h[i]; } y=c.y;
#define UP(n,nm,Z) \
 LIB(start_##n##_##nm)(ST(n),int&k,int&m,const Arr<P,n>&x){ ConjugateGradient<Z,P> c(wrapVector<n>(x),Fo<n,Z>(),De<n,Z>()); OUT(n) k=c.iterations; m=c.max_iterations; vf_assert(c.size==n); } \
 REF(start_##n##_##nm)(ST(n),int&k,int&m,const Arr<P,n>&x){ Fn<n>::sl(x,G); for(int i=0;i<n;i++){ X[i]=x[i]; H[i]=G[i]; MH[i]=-G[i]; } y=Fn<n>::at(x); k=0; m=100*n; } \
 LIB(startd_##n##_##nm)(ST(n),int&k,int&m,const Arr<P,n>&x,const Arr<P,n>&d){ ConjugateGradient<Z,P> c(wrapVector<n>(x),Fo<n,Z>(),Vector<Z,P>(wrapVector<n>(d))); OUT(n) k=c.iterations; m=c.max_iterations; } \
 REF(startd_##n##_##nm)(ST(n),int&k,int&m,const Arr<P,n>&x,const Arr<P,n>&d){ for(int i=0;i<n;i++){ X[i]=x[i]; G[i]=H[i]=d[i]; MH[i]=-d[i]; } y=Fn<n>::at(x); k=0; m=100*n; } \
 LIB(update_##n##_##nm)(ST(n),Arr<P,n>&OG,Arr<P,n>&OH,const Arr<P,n>&x,const Arr<P,n>&g,const Arr<P,n>&h,const Arr<P,n>&d){ ConjugateGradient<Z,P> c(wrapVector<n>(x),Fo<n,Z>(),De<n,Z>()); c.g=wrapVector<n>(g); c.h=wrapVector<n>(h); c.update_vectors_PR(wrapVector<n>(d)); OUT(n) for(int i=0;i<n;i++){ OG[i]=c.old_g[i]; OH[i]=c.old_h[i]; } } \
 REF(update_##n##_##nm)(ST(n),Arr<P,n>&OG,Arr<P,n>&OH,const Arr<P,n>&x,const Arr<P,n>&g,const Arr<P,n>&h,const Arr<P,n>&d){ P p=0,q=0; for(int i=0;i<n;i++){ p+=d[i]*(d[i]-g[i]); q+=g[i]*g[i]; } y=Fn<n>::at(x); for(int i=0;i<n;i++){ X[i]=x[i]; G[i]=d[i]; H[i]=d[i]+p/q*h[i]; MH[i]=-H[i]; OG[i]=g[i]; OH[i]=h[i]; } } \
 LIB(done_##n##_##nm)(bool&r,const Arr<P,n>&x,const P&y,const P&oy,const int&it,const int&mx,const P&tol,const P&eps){ ConjugateGradient<Z,P> c(wrapVector<n>(x),Fo<n,Z>(),De<n,Z>()); c.y=y; c.old_y=oy; c.iterations=it; c.max_iterations=mx; c.tolerance=tol; c.epsilon=eps; r=c.finished(); } \
 REF(done_##n##_##nm)(bool&r,const Arr<P,n>&x,const P&y,const P&oy,const int&it,const int&mx,const P&tol,const P&eps){ r=it>=mx||2*std::abs(y-oy)<=tol*(std::abs(y)+std::abs(oy)+eps); } \
 LIB(iterate_##n##_##nm)(ST(n),bool&r,int&k,const Arr<P,n>&x,const Arr<P,n>&h,const int&it,const int&mx){ vf_assume(A_(n,1)<Fn<n>::at(x)); vf_assume(A_(n,2)>A_(n,1)); SET(n,Z) c.linesearch_max_iterations=0; c.max_iterations=mx; r=c.iterate(Fo<n,Z>(),De<n,Z>()); k=c.iterations; OUT(n) } \
 REF(iterate_##n##_##nm)(ST(n),bool&r,int&k,const Arr<P,n>&x,const Arr<P,n>&h,const int&it,const int&mx){ vf_assume(A_(n,1)<Fn<n>::at(x)); vf_assume(A_(n,2)>A_(n,1)); SET(n,Z) P o=c.y; P z[n],d[n]; for(int i=0;i<n;i++) z[i]=x[i]-h[i]; y=Fn<n>::at(z); k=it+1; c.y=y; c.old_y=o; c.max_iterations=mx; c.iterations=k; r=!c.finished(); if(r){ Fn<n>::sl(z,d); c.update_vectors_PR(wrapVector<n>(d)); } OUT(n) for(int i=0;i<n;i++) X[i]=z[i]; }
UP(1,st,1) UP(2,st,2) UP(2,dy,DY) UP(3,st,3) UP(3,dy,DY)
