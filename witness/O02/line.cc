// One-dimensional searches of an arbitrary function: what is returned is a point and the function there, inside the
// bracket and no worse than the point given; the golden section search probes the points its recurrence names
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
using namespace so;
extern "C" double pure_line_d1(const double*); extern "C" float pure_line_f1(const float*);
static inline double at(double x){ return pure_line_d1(&x); } static inline float at(float x){ return pure_line_f1(&x); }
// an opaque function, which must not be asked about points outside the bracket when this is given
struct F{ P operator()(P x) const { return at(x); } };
struct FB{ P lo,hi; P operator()(P x) const { vf_assert(!(x<lo)&&!(x>hi)); return at(x); } };
#define ORD(a,b,c) vf_assume(a<b); vf_assume(b<c); vf_assume(a<c);
#define KEEP(r,b) vf_assert(r[1]==at(r[0])); vf_assert(!(r[1]>at(b)));
#define GO(k) CHK(gold_##k)(const P&a,const P&b,const P&c,const P&tol){ ORD(a,b,c) const Vector<2,P> r=golden_section_search(a,b,c,F(),k,tol); KEEP(r,b) } \
 CHK(goldf_##k)(const P&a,const P&b,const P&c,const P&tol){ ORD(a,b,c) const Vector<2,P> r=golden_section_search(a,b,c,at(b),F(),k,tol); KEEP(r,b) } \
 LIB(generic_golden_##k)(P&x,P&y,const P&a,const P&b,const P&c){ ORD(a,b,c) const Vector<2,P> r=golden_section_search(a,b,c,at(b),F(),k,P(-1)); x=r[0]; y=r[1]; } \
 REF(generic_golden_##k)(P&x,P&y,const P&a,const P&b,const P&c){ ORD(a,b,c) golden(a,b,c,k,x,y); }
static inline void golden(P a,P b,P c,int k,P&x,P&y){ const P g=(3-std::sqrt(P(5)))/2; P x1,x2,f1,f2; if(std::abs(b-a)>std::abs(c-b)){ x1=b-g*(b-a); x2=b; } else { x1=b; x2=b+g*(c-b); } f1=at(x1); f2=at(x2);
 for(int i=1;i<k;i++){ if(!(std::abs(c-a)>-(std::abs(x1)+std::abs(x2)))) break; if(f1>f2){ a=x1; x1=x2; f1=f2; x2=x1+g*(c-x1); f2=at(x2); } else { c=x2; x2=x1; f2=f1; x1=x2-g*(x2-a); f1=at(x1); } } if(f1<f2){ x=x1; y=f1; } else { x=x2; y=f2; } }
GO(0) GO(1) GO(2) GO(3)
CHK(goldd_2)(const P&a,const P&b,const P&c){ ORD(a,b,c) const Vector<2,P> r=golden_section_search(a,b,c,F(),2); KEEP(r,b) }
#define BR(k) CHK(brent_##k)(const P&a,const P&b,const P&c,const P&tol,const P&eps){ ORD(a,b,c) const Vector<2,P> r=brent_line_search(a,b,c,at(b),F(),k,tol,eps); KEEP(r,b) }
BR(0) BR(1) BR(2)
CHK(brentd_2)(const P&a,const P&b,const P&c){ ORD(a,b,c) const Vector<2,P> r=brent_line_search(a,b,c,at(b),F(),2); KEEP(r,b) }
// given brackets, any function: every probe and the result lie inside
#define IN(pre,nm,A,B,C,k) CHK(pre##goldin_##nm##_##k)(P&x,P&y){ const P a=A,b=B,c=C; FB f={a,c}; const Vector<2,P> r=golden_section_search(a,b,c,at(b),f,k,P(-1)); KEEP(r,b) vf_assert(!(r[0]<a)&&!(r[0]>c)); x=r[0]; y=r[1]; } \
 CHK(pre##brentin_##nm##_##k)(P&x,P&y){ const P a=A,b=B,c=C; FB f={a,c}; const Vector<2,P> r=brent_line_search(a,b,c,at(b),f,k<BK?k:BK,P(0),P(0)); KEEP(r,b) vf_assert(!(r[0]<a)&&!(r[0]>c)); x=r[0]; y=r[1]; }
#define BK 3
IN(,p,1,2,4,2) IN(,p,1,2,4,4) IN(,n,-5,-2,-1,3) IN(,z,-3,1,2,3) IN(generic_,o,0.25,1,2,4) IN(generic_,w,-1,0,5,4)
// every probe lies between the nearest points known to be no better on either side of the best one so far
struct TB{ P*lo,*b,*fb,*hi; P operator()(P x) const { vf_assert(!(x<*lo)&&!(x>*hi)); const P y=at(x); if(y<*fb){ if(x>*b) *lo=*b; else *hi=*b; *b=x; *fb=y; } else if(y>*fb){ if(x<*b) *lo=x; else *hi=x; } return y; } };
#define NEST(nm,A,B,C,k) CHK(nest_golden_##nm##_##k)(P&x,P&y){ const P a=A,b=B,c=C; P lo=a,bb=b,fb=at(b),hi=c; TB f={&lo,&bb,&fb,&hi}; const Vector<2,P> r=golden_section_search(a,b,c,at(b),f,k,P(-1)); x=r[0]; y=r[1]; vf_assert(!(y>fb)); } \
 CHK(nest_brent_##nm##_##k)(P&x,P&y){ const P a=A,b=B,c=C; P lo=a,bb=b,fb=at(b),hi=c; TB f={&lo,&bb,&fb,&hi}; const Vector<2,P> r=brent_line_search(a,b,c,at(b),f,k,P(0),P(0)); x=r[0]; y=r[1]; vf_assert(!(y>fb)); }
NEST(p,1,2,4,2) NEST(p,1,2,4,3) NEST(n,-5,-2,-1,3) NEST(z,-3,1,2,3)
// a parabola's minimum is found as soon as three distinct points of it are known
struct Q{ P m,s; P operator()(P x) const { return s*(x-m)*(x-m)+1; } };
#define PARA(nm,A,B,C,M,k) CHK(para_##nm)(P&x){ const P a=A,b=B,c=C; Q f={P(M),P(2)}; const Vector<2,P> r=brent_line_search(a,b,c,f(b),f,k,P(0),P(0)); vf_assert(r[0]==P(M)); vf_assert(r[1]==1); x=r[0]; }
PARA(p,1,2,4,2.25,3) PARA(q,1,2,4,2.5,3) PARA(n,-5,-2,-1,-2.5,3) PARA(z,-3,1,2,0.5,3)
// the same, with the point given staying the best of the three: the others come second and third in either order
PARA(second,1,2,4,2.125,3) PARA(third,1,2,4,2.34375,3) PARA(second_n,-4,-2,-1,-2.125,3) PARA(third_n,-4,-2,-1,-2.34375,3)
