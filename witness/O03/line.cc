// A line search asks for one value per iteration and makes no more iterations than its caller allows, whatever the function
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
using namespace so;
extern "C" double pure_line_d1(const double*); extern "C" float pure_line_f1(const float*);
static inline double at(double x){ return pure_line_d1(&x); } static inline float at(float x){ return pure_line_f1(&x); }
struct F{ int*n; P operator()(P x) const { ++*n; return at(x); } };
#define ORD(a,b,c) vf_assume(a<b); vf_assume(b<c); vf_assume(a<c);
// golden section: the opening probe is the first iteration and is always made
#define G(k) GN(k,k)
#define GN(nm,k) LIM(golden_##nm)(int&n,const P&a,const P&b,const P&c,const P&tol){ ORD(a,b,c) n=0; F f={&n}; golden_section_search(a,b,c,at(b),f,k,tol); vf_assert(n<=(k<1?1:k)); } \
 LIM(goldenf_##nm)(int&n,const P&a,const P&b,const P&c,const P&tol){ ORD(a,b,c) n=0; F f={&n}; golden_section_search(a,b,c,f,k,tol); vf_assert(n<=(k<1?2:k+1)); } \
 LIM(goldend_##nm)(int&n,const P&a,const P&b,const P&c){ ORD(a,b,c) n=0; F f={&n}; golden_section_search(a,b,c,f,k); vf_assert(n<=(k<1?2:k+1)); } \
 LIM(goldenx_##nm)(int&n,const P&a,const P&b,const P&c){ ORD(a,b,c) n=0; F f={&n}; golden_section_search(a,b,c,at(b),f,k,P(-1)); vf_assert(n<=(k<1?1:k)); }
G(0) G(1) G(2) G(3) GN(neg,-1)
#define B(k) BN(k,k)
#define BN(nm,k) LIM(brent_##nm)(int&n,const P&a,const P&b,const P&c,const P&tol,const P&eps){ ORD(a,b,c) n=0; F f={&n}; brent_line_search(a,b,c,at(b),f,k,tol,eps); vf_assert(n<=(k<0?0:k)); } \
 LIM(brentd_##nm)(int&n,const P&a,const P&b,const P&c){ ORD(a,b,c) n=0; F f={&n}; brent_line_search(a,b,c,at(b),f,k); vf_assert(n<=(k<0?0:k)); }
B(0) B(1) B(2) BN(neg,-1)
// functions on which the search never converges: exactly the limit, however large
struct Flat{ int*n; P operator()(P) const { ++*n; return 3; } };
struct Down{ int*n; P operator()(P) const { return -++*n; } };
struct Up{ int*n; P operator()(P) const { return 5+ ++*n; } };
struct Alt{ int*n; P operator()(P) const { ++*n; return *n%2? P(*n) : P(-*n); } };
struct Wave{ int*n; P operator()(P) const { ++*n; return (*n*7)%5-*n/P(3); } };
#define BIG(W,k) LIM(flat_golden_##W##_##k)(int&n,P&x,P&y){ n=0; W f={&n}; const Vector<2,P> r=golden_section_search(P(1),P(2),P(4),P(4),f,k,P(-1)); x=r[0]; y=r[1]; vf_assert(n==k); } \
 LIM(flat_brent_##W##_##k)(int&n,P&x,P&y){ n=0; W f={&n}; const Vector<2,P> r=brent_line_search(P(1),P(2),P(4),P(4),f,k,P(-1),P(0)); x=r[0]; y=r[1]; vf_assert(n==k); }
BIG(Flat,7) BIG(Down,7) BIG(Up,7) BIG(Alt,7) BIG(Wave,7) BIG(Flat,40) BIG(Up,40) BIG(Down,30) BIG(Flat,250) BIG(Up,100)
