// The conjugate-gradient driver stops at its iteration limit and gives the line search the limit set for it
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/optimization/conjugate_gradient.h>
using namespace so;
enum { DY=-1 };
extern "C" double pure_hill_d1(const double*); extern "C" float pure_hill_f1(const float*);
static inline double hill(double x){ return pure_hill_d1(&x); } static inline float hill(float x){ return pure_hill_f1(&x); }
// goes down, then up for ever: the bracket needs two values, every other one is the line search's
template<int n,int Z> struct Fo{ int*c; P operator()(const Vector<Z,P>&v) const { vf_assert(v.size()==n); ++*c; return *c==1 ? P(4) : P(5+*c); } };
template<int n,int Z> struct De{ int*d; Vector<Z,P> operator()(const Vector<Z,P>&v) const { ++*d; P b[n]; for(int i=0;i<n;i++) b[i]=1; return wrapVector<n>(b); } };
template<int Z> struct K9{ P operator()(const Vector<Z,P>&) const { return 9; } };
template<int n,int Z> static inline ConjugateGradient<Z,P> mk(){ P x[n],d[n]; for(int i=0;i<n;i++){ x[i]=i+1; d[i]=1; } return ConjugateGradient<Z,P>(wrapVector<n>(x),K9<Z>(),Vector<Z,P>(wrapVector<n>(d))); }
#define LS(n,nm,Z,k) LIM(search_##n##_##nm##_##k)(int&m){ int c=0; Fo<n,Z> f={&c}; ConjugateGradient<Z,P> g=mk<n,Z>(); g.linesearch_max_iterations=k; g.linesearch_tolerance=0; g.linesearch_epsilon=0; g.find_next_point(f); vf_assert(c==2+k); vf_assert(g.iterations==1); m=c; }
LS(1,st,1,0) LS(2,st,2,1) LS(2,dy,DY,3) LS(3,st,3,17) LS(1,dy,DY,100)
// a function that always improves a little: the driver runs for exactly the limit
template<int n,int Z> struct Fd{ int*c; P operator()(const Vector<Z,P>&v) const { ++*c; return *c%3==1 ? P(-*c)*100 : P(*c)*10; } };
#define IT(n,nm,Z,k) LIM(drive_##n##_##nm##_##k)(int&m){ int c=0,d=0; Fd<n,Z> f={&c}; De<n,Z> e={&d}; ConjugateGradient<Z,P> g=mk<n,Z>(); g.max_iterations=k; g.linesearch_max_iterations=1; g.linesearch_tolerance=0; g.linesearch_epsilon=0; g.tolerance=-1; int it=0; bool on=true; while(on){ on=g.iterate(f,e); ++it; vf_assert(g.iterations==it); vf_assert(it<=(k<1?1:k)); } vf_assert(it==(k<1?1:k)); vf_assert(d==it-1); m=it; }
IT(1,st,1,0) IT(1,st,1,1) IT(2,st,2,2) IT(2,dy,DY,5) IT(3,st,3,13) IT(1,dy,DY,40)
// any function at all: at the limit the driver says stop, and below it goes on while the value still moves
template<int n,int Z> struct Fl{ const P*v; int*c; P operator()(const Vector<Z,P>&) const { ++*c; return *c<4 ? v[*c] : P(50+*c); } };
#define ANY(n,nm,Z) LIM(stop_##n##_##nm)(const int&it,const int&mx,const P&y,const P&oy,const P&tol,const P&eps){ ConjugateGradient<Z,P> g=mk<n,Z>(); vf_assume(it>=mx); g.iterations=it; g.max_iterations=mx; g.y=y; g.old_y=oy; g.tolerance=tol; g.epsilon=eps; vf_assert(g.finished()); } \
 LIM(go_##n##_##nm)(const int&it,const int&mx,const P&y,const P&oy,const P&tol,const P&eps){ ConjugateGradient<Z,P> g=mk<n,Z>(); vf_assume(it<mx); g.iterations=it; g.max_iterations=mx; g.y=y; g.old_y=oy; g.tolerance=tol; g.epsilon=eps; vf_assert(g.finished()==(2*std::abs(y-oy)<=tol*(std::abs(y)+std::abs(oy)+eps))); } \
 LIM(default_##n##_##nm)(){ ConjugateGradient<Z,P> g=mk<n,Z>(); vf_assert(g.max_iterations==100*n); vf_assert(g.linesearch_max_iterations==100); vf_assert(g.iterations==0); }
ANY(1,st,1) ANY(2,st,2) ANY(3,dy,DY)
