// Numerical derivatives of an arbitrary function: every probe, the difference formulas and the extrapolation table.
// The function is opaque at the first K step sizes and not a number at the next one, which ends the refinement.
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 120
#include "solve.h"
#include <TooN/functions/derivatives.h>
using namespace so;
template<int n> struct Fn;
#define OPQ(n) extern "C" double pure_field##n##_d##n(const double*); extern "C" float pure_field##n##_f##n(const float*); \
 template<> struct Fn<n>{ static double at(const double*p){ return pure_field##n##_d##n(p); } static float at(const float*p){ return pure_field##n##_f##n(p); } };
OPQ(1) OPQ(2) OPQ(3)
static inline P ab(P x){ return x<0?-x:x; }
static inline double stp(P v,int q){ double s=1; for(int i=0;i<q;i++) s/=1.1; double w=v<0?-v:v; return s*(w*1e-3>1e-3?w*1e-3:1e-3); }
// the function as a user would write it; x0 is the point asked about
template<int n,int K> struct F{ const P*x0; template<class V> P operator()(const V&v) const { vf_assert(v.size()==n); P a[n]; bool out=false,ok[n]; for(bool&o:ok) o=false; for(int i=0;i<n;i++) a[i]=v[i]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P d=a[i]-x0[i]; double h=stp(x0[j],K); if(d==h||d==-h) out=true; bool known=d==0; for(int q=0;q<=K;q++){ double hq=stp(x0[j],q); known=known||d==hq||d==-hq; } ok[i]=ok[i]||known; } for(int i=0;i<n;i++) { vf_assert(ok[i]); vf_assume(ok[i]); } if(out) return std::numeric_limits<P>::quiet_NaN(); return Fn<n>::at(a); } };
// Neville's table for y at steps 1, 1/c, 1/c^2 ...: the entry whose larger difference from its two parents is smallest,
// up to a row without improvement whose highest order moved by more than twice the smallest error
template<int K> static inline void table(const double*y,double&val,double&err){ double t[K][K]; bool any=false; for(int i=0;i<K;i++){ t[i][0]=y[i]; double cj=1; bool better=false; for(int j=1;j<=i;j++){ cj*=1.1; t[i][j]=(cj*t[i][j-1]-t[i-1][j-1])/(cj-1); double a=t[i][j]-t[i][j-1],b=t[i][j]-t[i-1][j-1]; a=std::abs(a); b=std::abs(b); double e=std::max(a,b); if(!any||e<err){ any=true; err=e; val=t[i][j]; better=true; } } if(i>0&&!better&&std::abs(t[i][i]-t[i-1][i-1])>2*err) return; } }
template<int n,int K> static inline void grad(const P*x,int i,double&val,double&err){ double y[K]; for(int q=0;q<K;q++){ double h=stp(x[i],q); P a[n],b[n]; for(int k=0;k<n;k++) a[k]=b[k]=x[k]; a[i]=x[i]+h; b[i]=x[i]-h; y[q]=(Fn<n>::at(a)-Fn<n>::at(b))/(2*h); } table<K>(y,val,err); }
template<int n,int K> static inline void curv(const P*x,int i,double&val,double&err){ double y[K]; for(int q=0;q<K;q++){ double h=stp(x[i],q); P a[n],b[n],c[n]; for(int k=0;k<n;k++) a[k]=b[k]=c[k]=x[k]; a[i]=x[i]+h; b[i]=x[i]-h; y[q]=(Fn<n>::at(a)-2*Fn<n>::at(c)+Fn<n>::at(b))/(h*h); } table<K>(y,val,err); }
template<int n,int K> static inline void cross(const P*x,int i,int j,double&val,double&err){ double y[K]; for(int q=0;q<K;q++){ double h=stp(x[i],q),s=0; for(int u=1;u>=-1;u-=2) for(int w=1;w>=-1;w-=2){ P a[n]; for(int k=0;k<n;k++) a[k]=x[k]; a[i]=x[i]+u*h; a[j]=x[j]+w*h; s+=u*w*Fn<n>::at(a); } y[q]=s/(4*h*h); } table<K>(y,val,err); }
template<class S> struct Buf{ P p[S::N]; Buf(const P*x){ for(P&q:p) q=0; for(int i=0;i<S::n;i++) p[S::pos(i)]=x[i]; } };
// points on either side of the scale at which the step stops shrinking
#define BIG(x,n) for(int i=0;i<n;i++) { vf_assume(x[i]>0); vf_assume(x[i]>1); }
#define NEG(x,n) for(int i=0;i<n;i++) { vf_assume(x[i]<0); vf_assume(x[i]<-1); }
#define LOW(x,n) for(int i=0;i<n;i++){ vf_assume(x[i]<1); vf_assume(x[i]>0); }
#define GR(n,K,W,S) \
 LIB(generic_grad_##n##_##K##_##W##_##S)(Arr<P,n>&g,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) F<n,K> f={x}; Buf<S<n>> bx(x); S<n>::with((P*)bx.p,[&](auto&v){ const auto r=numerical_gradient(f,v); vf_assert(r.size()==n); for(int i=0;i<n;i++) g[i]=r[i]; }); } \
 REF(generic_grad_##n##_##K##_##W##_##S)(Arr<P,n>&g,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) for(int i=0;i<n;i++){ double v,e; grad<n,K>(x,i,v,e); g[i]=v; } } \
 LIB(generic_grade_##n##_##K##_##W##_##S)(Arr<P,n>&g,Arr<P,n>&er,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) F<n,K> f={x}; Buf<S<n>> bx(x); S<n>::with((P*)bx.p,[&](auto&v){ const auto r=numerical_gradient_with_errors(f,v); vf_assert(r.num_rows()==n&&r.num_cols()==2); for(int i=0;i<n;i++){ g[i]=r[i][0]; er[i]=r[i][1]; } }); } \
 REF(generic_grade_##n##_##K##_##W##_##S)(Arr<P,n>&g,Arr<P,n>&er,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) for(int i=0;i<n;i++){ double v,e; grad<n,K>(x,i,v,e); g[i]=v; er[i]=e; } }
#define HE(n,K,W,S) \
 LIB(generic_hess_##n##_##K##_##W##_##S)(Arr<P,n*n>&g,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) F<n,K> f={x}; Buf<S<n>> bx(x); S<n>::with((P*)bx.p,[&](auto&v){ const auto r=numerical_hessian(f,v); vf_assert(r.num_rows()==n&&r.num_cols()==n); for(int i=0;i<n*n;i++) g[i]=r[i/n][i%n]; }); } \
 REF(generic_hess_##n##_##K##_##W##_##S)(Arr<P,n*n>&g,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) for(int i=0;i<n;i++) for(int j=i;j<n;j++){ double v,e; if(i==j) curv<n,K>(x,i,v,e); else cross<n,K>(x,i,j,v,e); g[i*n+j]=g[j*n+i]=v; } } \
 LIB(generic_hesse_##n##_##K##_##W##_##S)(Arr<P,n*n>&g,Arr<P,n*n>&er,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) F<n,K> f={x}; Buf<S<n>> bx(x); S<n>::with((P*)bx.p,[&](auto&v){ const auto r=numerical_hessian_with_errors(f,v); for(int i=0;i<n*n;i++){ g[i]=r.first[i/n][i%n]; er[i]=r.second[i/n][i%n]; } }); } \
 REF(generic_hesse_##n##_##K##_##W##_##S)(Arr<P,n*n>&g,Arr<P,n*n>&er,const Arr<P,S<n>::N>&X){ P x[n]; for(int i=0;i<n;i++) x[i]=X[S<n>::pos(i)]; W(x,n) for(int i=0;i<n;i++) for(int j=i;j<n;j++){ double v,e; if(i==j) curv<n,K>(x,i,v,e); else cross<n,K>(x,i,j,v,e); g[i*n+j]=g[j*n+i]=v; er[i*n+j]=er[j*n+i]=e; } }
GR(1,4,BIG,VFix) GR(2,3,LOW,VFix) HE(2,3,BIG,VFix) GR(1,2,BIG,VFix) GR(1,2,NEG,VFix) GR(1,2,LOW,VFix) GR(1,3,BIG,VFix) GR(2,2,BIG,VFix) GR(2,2,BIG,VDyn) GR(3,2,LOW,VFix) GR(3,2,BIG,VDyn) GR(2,2,LOW,VCol) GR(2,2,BIG,VSubD)
HE(1,2,BIG,VFix) HE(2,2,BIG,VFix) HE(2,2,LOW,VDyn) HE(3,2,LOW,VFix) HE(3,2,BIG,VFix) HE(2,2,BIG,VColD) HE(1,3,BIG,VFix)
