// SL(n): exp(v) is the matrix exponential of sum v_i G_i and ln its inverse on the algebra; the
// matrix exponential and logarithm themselves are opaque functions here
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include <cmath>
#define OPQ(n,d) extern "C" void pure_mexp##n##_d##d##_o##d(const double*,double*); extern "C" void pure_mlog##n##_d##d##_o##d(const double*,double*); \
 namespace TooN{ template<typename B> inline Matrix<n,n,double> exp(const Matrix<n,n,double,B>&m){ double a[d],b[d]; for(int i=0;i<d;i++) a[i]=m[i/n][i%n]; pure_mexp##n##_d##d##_o##d(a,b); Matrix<n,n,double> r; for(int i=0;i<d;i++) r[i/n][i%n]=b[i]; return r; } \
 template<typename B> inline Matrix<n,n,double> log(const Matrix<n,n,double,B>&m){ double a[d],b[d]; for(int i=0;i<d;i++) a[i]=m[i/n][i%n]; pure_mlog##n##_d##d##_o##d(a,b); Matrix<n,n,double> r; for(int i=0;i<d;i++) r[i/n][i%n]=b[i]; return r; } }
OPQ(2,4) OPQ(3,9) OPQ(4,16)
#include "groups.h"
using namespace TooN; using namespace gr;
// generators by the documented order: n-1 diagonal differences, the symmetric pairs, the antisymmetric pairs
template<int n> static inline void gen(int k,P*g){ for(int i=0;i<n*n;i++) g[i]=0; if(k<n-1){ g[k*n+k]=1; g[(k+1)*n+k+1]=-1; return; } const int c=n*(n-1)/2; bool as=k>=n-1+c; int r=(k-(n-1))%c; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(r--==0){ g[i*n+j]=as?-1:1; g[j*n+i]=1; } }
#define SLX(n,d) \
 LIB(sl_exp##n)(Arr<P,d>&r,Arr<P,d>&q,const Vector<d-1,P>&v){ const SL<n,P> x=SL<n,P>::exp(v); Sl<n>::out(x,r); Vector<Dynamic,P> w(d-1); w=v; const SL<n,P> y(w); Sl<n>::out(y,q); } \
 REF(sl_exp##n)(Arr<P,d>&r,Arr<P,d>&q,const Vector<d-1,P>&v){ const P*p=reinterpret_cast<const P*>(&v); P m[d],g[d]; for(int i=0;i<d;i++) m[i]=0; for(int k=0;k<d-1;k++){ gen<n>(k,g); for(int i=0;i<d;i++) m[i]+=p[k]*g[i]; } pure_mexp##n##_d##d##_o##d(m,r); for(int i=0;i<d;i++) q[i]=r[i]; } \
 LIB(sl_ln##n)(Arr<P,d>&r,const Arr<P,d>&q){ const SL<n,P> x=Sl<n>::make(q); P l[d]; pure_mlog##n##_d##d##_o##d(q,l); P t=0; for(int i=0;i<n;i++) t+=l[i*n+i]; const Vector<d-1,P> v=x.ln(); P g[d]; for(int i=0;i<d;i++) r[i]=0; for(int k=0;k<d-1;k++){ gen<n>(k,g); for(int i=0;i<d;i++) r[i]+=v[k]*g[i]; } r[d-1]+=t; } \
 REF(sl_ln##n)(Arr<P,d>&r,const Arr<P,d>&q){ pure_mlog##n##_d##d##_o##d(q,r); } \
 LIB(sl_gen##n)(Arr<P,(d-1)*d>&r){ for(int k=0;k<d-1;k++){ const Matrix<n,n,P> g=SL<n,P>::generator(k); for(int i=0;i<d;i++) r[k*d+i]=g[i/n][i%n]; } } \
 REF(sl_gen##n)(Arr<P,(d-1)*d>&r){ for(int k=0;k<d-1;k++) gen<n>(k,r+k*d); }
SLX(2,4) SLX(3,9) SLX(4,16)
// coercion to determinant 1
LIB(sl_coerce)(P&r,Arr<P,4>&o,const Matrix<2,2,P>&m){ { const P*p=reinterpret_cast<const P*>(&m); P d=p[0]*p[3]-p[1]*p[2]; vf_assume(d>0); } const SL<2,P> x(m); Sl<2>::out(x,o); r=0; }
REF(sl_coerce)(P&r,Arr<P,4>&o,const Matrix<2,2,P>&m){ const P*p=reinterpret_cast<const P*>(&m); P d=p[0]*p[3]-p[1]*p[2]; vf_assume(d>0); for(int i=0;i<4;i++) o[i]=p[i]/std::sqrt(d); r=0; }
