// One simplex step, restart or construction from an arbitrary simplex with an arbitrary function
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#include <TooN/optimization/downhill_simplex.h>
using namespace so;
enum { DY=-1 };
#define OPQ(n) extern "C" double pure_goal##n##_d##n(const double*); extern "C" float pure_goal##n##_f##n(const float*); \
 template<> struct Fn<n>{ static double at(const double*p){ return pure_goal##n##_d##n(p); } static float at(const float*p){ return pure_goal##n##_f##n(p); } \
  template<class V> P operator()(const V&v) const { P a[n]; vf_assert(v.size()==n); for(int i=0;i<n;i++) a[i]=v[i]; return at(a); } };
template<int n> struct Fn; OPQ(1) OPQ(2) OPQ(3)
// the stored simplex and values of a search object, through its read access
template<int n,int Z> struct S{ typedef DownhillSimplex<Z,P> D; D d; S(const P*start,P spread):d(Fn<n>(),wrapVector<n>(start),spread){}
 template<class X> static void load(D&d,const X&s,const P*v){ auto&m=const_cast<typename std::remove_const<typename std::remove_reference<decltype(d.get_simplex())>::type>::type&>(d.get_simplex()); auto&w=const_cast<typename std::remove_const<typename std::remove_reference<decltype(d.get_values())>::type>::type&>(d.get_values()); for(int i=0;i<=n;i++){ w[i]=v[i]; for(int j=0;j<n;j++) m[i][j]=s[i*n+j]; } }
 static void out(const D&d,P*s,P*v){ vf_assert(d.get_simplex().num_rows()==n+1&&d.get_simplex().num_cols()==n&&d.get_values().size()==n+1); for(int i=0;i<=n;i++){ v[i]=d.get_values()[i]; for(int j=0;j<n;j++) s[i*n+j]=d.get_simplex()[i][j]; } } };
// a search object in an arbitrary state: any vertices, each value the function there, any step coefficients
#define MAKE(n,Z,d,s0) P zz_##d[n]; for(P&x:zz_##d) x=0; S<n,Z> h_##d(zz_##d,1); auto&d=h_##d.d; P v0_##d[n+1]; for(int i=0;i<=n;i++) v0_##d[i]=Fn<n>::at(s0+i*n); S<n,Z>::load(d,s0,v0_##d);
#define COEF(d) d.alpha=k[0]; d.rho=k[1]; d.gamma=k[2]; d.sigma=k[3];
template<int n> static inline void step(const P*s0,const P*k,P*s,P*v){ for(int i=0;i<n*(n+1);i++) s[i]=s0[i]; for(int i=0;i<=n;i++) v[i]=Fn<n>::at(s0+i*n);
 int b=0,w=0; for(int i=1;i<=n;i++){ if(v[i]<v[b]) b=i; if(v[i]>v[w]) w=i; } 
 P second=v[b],c[n],xr[n],xn[n]; for(int i=0;i<=n;i++) if(i!=w&&v[i]>second) second=v[i]; 
 for(int j=0;j<n;j++){ c[j]=0; for(int i=0;i<=n;i++) if(i!=w) c[j]+=s[i*n+j]; c[j]/=n; xr[j]=c[j]+k[0]*(c[j]-s[w*n+j]); } P fr=Fn<n>::at(xr);
 if(fr<v[b]){ for(int j=0;j<n;j++) xn[j]=c[j]+k[1]*k[0]*(c[j]-s[w*n+j]); P fe=Fn<n>::at(xn); bool e=fe<fr; for(int j=0;j<n;j++) s[w*n+j]=e?xn[j]:xr[j]; v[w]=e?fe:fr; return; }
 if(fr<second){ for(int j=0;j<n;j++) s[w*n+j]=xr[j]; v[w]=fr; return; }
 if(fr<v[w]){ for(int j=0;j<n;j++) xn[j]=c[j]+k[2]*(c[j]-s[w*n+j]); P fc=Fn<n>::at(xn); if(fc<=fr){ for(int j=0;j<n;j++) s[w*n+j]=xn[j]; v[w]=fc; return; } }
 for(int i=0;i<=n;i++) if(i!=b){ for(int j=0;j<n;j++) s[i*n+j]=s[b*n+j]+k[3]*(s[i*n+j]-s[b*n+j]); v[i]=Fn<n>::at(s+i*n); } }
#define AS(n) Arr<P,n*(n+1)>&s,Arr<P,n+1>&v,const Arr<P,n*(n+1)>&s0
#define SIM(n,nm,Z) \
 LIB(generic_step_##n##_##nm)(AS(n),const Arr<P,4>&k){ MAKE(n,Z,d,s0) COEF(d) d.find_next_point(Fn<n>()); S<n,Z>::out(d,s,v); } \
 REF(generic_step_##n##_##nm)(AS(n),const Arr<P,4>&k){ step<n>(s0,k,s,v); } \
 LIB(generic_default_##n##_##nm)(AS(n)){ MAKE(n,Z,d,s0) d.find_next_point(Fn<n>()); S<n,Z>::out(d,s,v); } \
 REF(generic_default_##n##_##nm)(AS(n)){ const P k[4]={1,2,P(0.5),P(0.5)}; step<n>(s0,k,s,v); } \
 LIB(fresh_##n##_##nm)(Arr<P,n*(n+1)>&s,Arr<P,n+1>&v,const Arr<P,n>&c,const P&spread){ S<n,Z> d(c,spread); S<n,Z>::out(d.d,s,v); } \
 REF(fresh_##n##_##nm)(Arr<P,n*(n+1)>&s,Arr<P,n+1>&v,const Arr<P,n>&c,const P&spread){ for(int i=0;i<=n;i++){ for(int j=0;j<n;j++) s[i*n+j]=c[j]+(i==j?spread:P(0)); v[i]=Fn<n>::at(s+i*n); } } \
 LIB(again_##n##_##nm)(AS(n),const Arr<P,n>&c,const P&spread){ MAKE(n,Z,d,s0) d.restart(Fn<n>(),wrapVector<n>(c),spread); S<n,Z>::out(d,s,v); } \
 REF(again_##n##_##nm)(AS(n),const Arr<P,n>&c,const P&spread){ for(int i=0;i<=n;i++){ for(int j=0;j<n;j++) s[i*n+j]=c[j]+(i==j?spread:P(0)); v[i]=Fn<n>::at(s+i*n); } } \
 LIB(generic_best_##n##_##nm)(AS(n),const P&spread){ MAKE(n,Z,d,s0) d.restart(Fn<n>(),spread); S<n,Z>::out(d,s,v); } \
 REF(generic_best_##n##_##nm)(AS(n),const P&spread){ for(int i=0;i<=n;i++) v[i]=Fn<n>::at(s0+i*n); int b=0; for(int i=1;i<=n;i++) if(v[i]<v[b]) b=i; for(int i=0;i<=n;i++){ for(int j=0;j<n;j++) s[i*n+j]=s0[b*n+j]+(i==j?spread:P(0)); v[i]=Fn<n>::at(s+i*n); } } \
 LIB(generic_stop_##n##_##nm)(bool&r,const Arr<P,n*(n+1)>&s0,const P&e,const P&z){ MAKE(n,Z,d,s0) d.epsilon=e; d.zero_epsilon=z; r=d.finished(); } \
 REF(generic_stop_##n##_##nm)(bool&r,const Arr<P,n*(n+1)>&s0,const P&e,const P&z){ P v[n+1]; for(int i=0;i<=n;i++) v[i]=Fn<n>::at(s0+i*n); int b=0,w=0; for(int i=1;i<=n;i++){ if(v[i]<v[b]) b=i; if(v[i]>v[w]) w=i; } P q=0,t=0; for(int j=0;j<n;j++){ P x=s0[b*n+j]-s0[w*n+j]; q+=x*x; t+=s0[b*n+j]*s0[b*n+j]; } q=std::sqrt(q); t=std::sqrt(t); r=q/t<e||q<z; }
// no stored value goes stale and the best never gets worse, ties included
#define KP(n,nm,Z) CHK(TIES(n,nm))(const Arr<P,n*(n+1)>&s0,const Arr<P,4>&k){ MAKE(n,Z,d,s0) COEF(d) P b0=d.get_values()[d.get_best()],w0=d.get_values()[d.get_worst()]; d.find_next_point(Fn<n>()); P s[n*(n+1)],v[n+1]; S<n,Z>::out(d,s,v); for(int i=0;i<=n;i++) vf_assert(v[i]==Fn<n>::at(s+i*n)); for(int i=0;i<=n;i++) vf_assert(!(v[d.get_best()]>v[i])&&!(v[d.get_worst()]<v[i])); vf_assert(!(v[d.get_best()]>b0)); (void)w0; }
#define TIES(n,nm) keep_##n##_##nm
KP(1,st,1) KP(1,dy,DY) KP(2,st,2) KP(2,dy,DY)
#undef TIES
#define TIES(n,nm) generic_keep_##n##_##nm
KP(3,st,3) KP(3,dy,DY)
SIM(1,st,1) SIM(1,dy,DY) SIM(2,st,2) SIM(2,dy,DY) SIM(3,st,3) SIM(3,dy,DY)
// one iteration is a step followed by the stopping test
#define IT(n,nm,Z) LIB(generic_iter_##n##_##nm)(AS(n),bool&r){ MAKE(n,Z,d,s0) r=d.iterate(Fn<n>()); S<n,Z>::out(d,s,v); } REF(generic_iter_##n##_##nm)(AS(n),bool&r){ MAKE(n,Z,d,s0) d.find_next_point(Fn<n>()); r=!d.finished(); S<n,Z>::out(d,s,v); }
IT(1,st,1) IT(2,st,2) IT(2,dy,DY)
