// Debug initialisation: every element of every default-constructed owner holds the documented pattern
// FLAGS: -DTOON_INITIALIZE_SNAN
// FLAGS: -DTOON_INITIALIZE_QNAN -DPREC=float
// FLAGS: -DTOON_INITIALIZE_NAN
// FLAGS: -DTOON_INITIALIZE_VAL=7
// FLAGS: -DTOON_INITIALIZE_VAL=-3 -DPREC=float
// FLAGS-THOROUGH: -DTOON_INITIALIZE_SNAN -DPREC=float -std=gnu++20
// FLAGS-THOROUGH: -DTOON_INITIALIZE_QNAN -DTOON_CHECK_BOUNDS
#include "shapes.h"
#include <limits>
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define MC ,
#if defined TOON_INITIALIZE_SNAN
#define PAT std::numeric_limits<P>::signaling_NaN()
#elif defined TOON_INITIALIZE_VAL
#define PAT P(TOON_INITIALIZE_VAL)
#else
#define PAT std::numeric_limits<P>::quiet_NaN()
#endif
template<int S,class Q,class B> int cnt(const Vector<S,Q,B>&v){ return v.size(); }
template<int R,int C,class Q,class B> int cnt(const Matrix<R,C,Q,B>&m){ return m.num_rows()*m.num_cols(); }
template<int S,class Q,class B> Q at(const Vector<S,Q,B>&v,int k){ return v[k]; }
template<int R,int C,class Q,class B> Q at(const Matrix<R,C,Q,B>&m,int k){ return m(k/m.num_cols(),k%m.num_cols()); }
template<class T,int N> void save(const T&t,P(&p)[N],int&n){ n=cnt(t); for(int i=0;i<N;i++) p[i]=at(t,i); }
// default construction
#define DC(n,T,N,ARGS) LIB(dc_##n)(P(&o)[N],int&k){ T t ARGS; save(t,o,k); } REF(dc_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 LIB(dn_##n)(P(&o)[N],int&k){ T*t=new T ARGS; save(*t,o,k); delete t; } REF(dn_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 LIB(da_##n)(P(&o)[N],int&k){ T t[2]={T ARGS MC T ARGS}; save(t[1],o,k); } REF(da_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 /* initialised objects hold the values given */ \
 LIB(in_##n)(P(&o)[N],int&k,const P&s){ T u ARGS; u=Zeros; u+=Ones*s; T t(u); save(t,o,k); } REF(in_##n)(P(&o)[N],int&k,const P&s){ k=N; for(int i=0;i<N;i++) o[i]=s; }
#define MK3
#define CM ,
typedef Vector<1,P> V1; typedef Vector<5,P> V5; typedef Vector<260,P> VH; typedef Vector<Dynamic,P> VD; typedef Vector<Resizable,P> VR;
typedef Matrix<1,1,P> M1; typedef Matrix<2,3,P> M23; typedef Matrix<3,2,P,ColMajor> M32; typedef Matrix<14,19,P> MH; typedef Matrix<Dynamic,Dynamic,P> MD; typedef Matrix<Dynamic,Dynamic,P,ColMajor> MDC; typedef Matrix<3,Dynamic,P> M3D; typedef Matrix<Dynamic,3,P,ColMajor> MD3;
template<int S,class Q,class B> void one(Vector<S,Q,B>&v,const Q&s){ for(int i=0;i<v.size();i++) v[i]=s; }
#define DCF(n,T,N) LIB(dc_##n)(P(&o)[N],int&k){ T t; save(t,o,k); } REF(dc_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 LIB(dn_##n)(P(&o)[N],int&k){ T*t=new T; save(*t,o,k); delete t; } REF(dn_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 LIB(da_##n)(P(&o)[N],int&k){ T t[2]; save(t[1],o,k); } REF(da_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; }
DCF(V1,V1,1) DCF(V5,V5,5) DCF(VH,VH,260) DCF(M1,M1,1) DCF(M23,M23,6) DCF(M32,M32,6) DCF(MH,MH,266)
#define DCR(n,T,N,...) LIB(dc_##n)(P(&o)[N],int&k){ T t(__VA_ARGS__); save(t,o,k); } REF(dc_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; } \
 LIB(dn_##n)(P(&o)[N],int&k){ T*t=new T(__VA_ARGS__); save(*t,o,k); delete t; } REF(dn_##n)(P(&o)[N],int&k){ k=N; for(int i=0;i<N;i++) o[i]=PAT; }
DCR(VD,VD,4,4) DCR(VD1,VD,1,1) DCR(VR,VR,4,4) DCR(MD,MD,6,2,3) DCR(MD41,MD,4,4,1) DCR(MDC,MDC,6,2,3) DCR(M3D,M3D,6,3,2) DCR(MD3,MD3,6,2,3) DCR(V5s,V5,5,5) DCR(M23s,M23,6,2,3)
// growing a resizable vector
LIB(grow)(P(&o)[5],const P(&a)[2]){ VR v(2); v[0]=a[0]; v[1]=a[1]; v.resize(5); for(int i=0;i<5;i++) o[i]=v[i]; }
REF(grow)(P(&o)[5],const P(&a)[2]){ o[0]=a[0]; o[1]=a[1]; for(int i=2;i<5;i++) o[i]=PAT; }
LIB(grow0)(P(&o)[3]){ VR v; v.resize(3); for(int i=0;i<3;i++) o[i]=v[i]; }
REF(grow0)(P(&o)[3]){ for(int i=0;i<3;i++) o[i]=PAT; }
LIB(regrow)(P(&o)[4],const P(&a)[2]){ VR v(3); v[0]=a[0]; v.resize(1); v.resize(4); for(int i=0;i<4;i++) o[i]=v[i]; }
REF(regrow)(P(&o)[4],const P(&a)[2]){ o[0]=a[0]; for(int i=1;i<4;i++) o[i]=PAT; }
// initialised objects hold the initialising values
#define SRC3 Vector<3,P> q=makeVector(a[0],a[1],a[2])
#define IV(n,EXPR) LIB(iv_##n)(P(&o)[9],const P(&a)[3]){ SRC3; Vector<3,P> x(EXPR); Vector<Dynamic,P> y(EXPR); Vector<Resizable,P> z(EXPR); for(int i=0;i<3;i++){ o[i]=x[i]; o[3+i]=y[i]; o[6+i]=z[i]; } }
IV(copy,q) REF(iv_copy)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=a[i%3]; }
IV(add,q+q) REF(iv_add)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=a[i%3]+a[i%3]; }
IV(neg,-q) REF(iv_neg)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=-a[i%3]; }
IV(slice,(q.template slice<0 MC 3>())) REF(iv_slice)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=a[i%3]; }
IV(zeros,Zeros(3)) REF(iv_zeros)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=0; }
IV(ones,Ones(3)) REF(iv_ones)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=1; }
IV(prod,(q.as_diagonal()*q)) REF(iv_prod)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=a[i%3]*a[i%3]; }
IV(cross,(q^q)) REF(iv_cross)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=0; }
LIB(iv_list)(P(&o)[9],const P(&a)[3]){ Vector<3,P> x({a[0],a[1],a[2]}); Vector<Dynamic,P> y={a[0],a[1],a[2]}; Vector<Resizable,P> z={a[0],a[1],a[2]}; for(int i=0;i<3;i++){ o[i]=x[i]; o[3+i]=y[i]; o[6+i]=z[i]; } }
REF(iv_list)(P(&o)[9],const P(&a)[3]){ for(int i=0;i<9;i++) o[i]=a[i%3]; }
#define IM(n,EXPR) LIB(im_##n)(P(&o)[4][4],const P(&a)[4]){ Matrix<2,2,P> q; q[0][0]=a[0];q[0][1]=a[1];q[1][0]=a[2];q[1][1]=a[3]; Matrix<2,2,P> x(EXPR); Matrix<Dynamic,Dynamic,P> y(EXPR); Matrix<2,2,P,ColMajor> z(EXPR); Matrix<Dynamic,2,P> w(EXPR); for(int i=0;i<4;i++){ o[0][i]=x(i/2,i%2); o[1][i]=y(i/2,i%2); o[2][i]=z(i/2,i%2); o[3][i]=w(i/2,i%2); } }
#define RM(n,E) REF(im_##n)(P(&o)[4][4],const P(&a)[4]){ for(int k=0;k<4;k++) for(int i=0;i<4;i++) o[k][i]=E; }
IM(copy,q) RM(copy,a[i])
IM(t,q.T()) RM(t,a[(i%2)*2+i/2])
IM(add,q+q) RM(add,a[i]+a[i])
IM(neg,-q) RM(neg,-a[i])
IM(zeros,Zeros(2 MC 2)) RM(zeros,0)
IM(ident,Identity(2)) RM(ident,i==0||i==3)
IM(prod,q*q) RM(prod,a[(i/2)*2]*a[i%2]+a[(i/2)*2+1]*a[2+i%2])
// every change of size: kept elements keep their value, new ones are filled
#define GROW(f,t) \
 LIB(size_##f##_##t)(P(&o)[6],const P(&a)[6]){ VR v(f); for(int i=0;i<f;i++) v[i]=a[i]; v.resize(t); for(int i=0;i<t;i++) o[i]=v[i]; } \
 REF(size_##f##_##t)(P(&o)[6],const P(&a)[6]){ for(int i=0;i<t;i++) o[i]=i<f?a[i]:P(PAT); }
#define GR(f) GROW(f,1) GROW(f,2) GROW(f,3) GROW(f,4) GROW(f,5) GROW(f,6)
GR(1) GR(2) GR(3) GR(4) GR(5) GROW(0,1) GROW(0,2) GROW(0,6)
