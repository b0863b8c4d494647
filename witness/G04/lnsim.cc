// Logarithms of similarities: the translation must solve V u = t with V the integral of the closed form
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS
#include "groups.h"
#include <cmath>
using namespace TooN; using namespace gr;
enum Rg{big,tiny};
template<int gs,int gt> static inline void simc(P s,P t,P*c){ P e=std::exp(s);
  if(gs==big&&gt==big){ P n=s*s+t*t,si=std::sin(t),co=std::cos(t); c[0]=(e-1)/s; c[1]=(e*(s*si-t*co)+t)/(n*t); c[2]=((e-1)/s-(e*(s*co+t*si)-s)/n)/(t*t); }
  else if(gs==tiny&&gt==tiny){ c[0]=1+s/2+s*s/6; c[1]=(P)1/2+s/3+s*s/8-t*t/24; c[2]=(P)1/6+s/8+s*s/20-t*t/120; }
  else if(gs==tiny){ P si=std::sin(t),co=std::cos(t),t2=t*t;
    P s0=(1-co)/t,s1=si/t2-co/t,s2=-co/t+2*si/t2+2*(co-1)/(t*t2); P k0=si/t,k1=si/t+(co-1)/t2,k2=si/t+2*co/t2-2*si/(t*t2);
    c[0]=1+s/2+s*s/6; c[1]=(s0+s*s1+s*s/2*s2)/t; c[2]=((1-k0)+s*((P)1/2-k1)+s*s/2*((P)1/3-k2))/t2; }
  else { P m0=(e-1)/s,m1=(e-m0)/s,m2=(e-2*m1)/s,m3=(e-3*m2)/s,m4=(e-4*m3)/s; c[0]=m0; c[1]=m1-t*t/6*m3; c[2]=m2/2-t*t/24*m4; } }
template<int g> static inline void srng(P s){ if(g==big) vf_assume(s*s>1e-6); else vf_assume(s*s<0.5e-12); }
// scale q[3]=exp of a free parameter
#define LS2(gs,gt) \
 LIB(ln_sim2_##gs##_##gt)(Arr<P,2>&o,Arr<P,2>&u,const Arr<P,4>&q){ P k[4]={q[0],q[1],q[2],std::exp(q[3])},m[4]; So2::ref(q,m); P t=std::atan2(m[2],m[0]); srng<gs>(q[3]); srng<gt>(t); const SIM2<P> x=Sim2::make(k); const Vector<4,P> v=x.ln(); P c[3]; simc<gs,gt>(q[3],t,c); P a=c[0]-c[2]*t*t,b=c[1]*t; o[0]=a*v[0]-b*v[1]; o[1]=b*v[0]+a*v[1]; u[0]=v[2]; u[1]=v[3]; } \
 REF(ln_sim2_##gs##_##gt)(Arr<P,2>&o,Arr<P,2>&u,const Arr<P,4>&q){ P m[4]; So2::ref(q,m); u[0]=std::atan2(m[2],m[0]); u[1]=q[3]; srng<gs>(q[3]); srng<gt>(u[0]); o[0]=q[1]; o[1]=q[2]; }
LS2(big,big) LS2(big,tiny) LS2(tiny,big) LS2(tiny,tiny)
// the logarithm of the rotation part is decided in ln.cc; here it is taken as given
template<int g> static inline P rlog(const P*q,P*r){ const SO3<P> R=So3::make(q); const Vector<3,P> l=R.ln(); for(int i=0;i<3;i++) r[i]=l[i]; P s=r[0]*r[0]+r[1]*r[1]+r[2]*r[2]; if(g==big) vf_assume(s>1e-5); else vf_assume(s<0.5e-12); P R9[9]; So3::ref(q,R9); P c=(R9[0]+R9[4]+R9[8]-1)/2; if(g==big) vf_assume(c>-0.7&&c<0.7); else vf_assume(c>0.75); return std::sqrt(s); }
#define LS3(gs,gt) \
 LIB(ln_sim3_##gs##_##gt)(Arr<P,3>&o,Arr<P,4>&u,const Arr<P,8>&q){ P k[8],r[3],c[3]; for(int i=0;i<7;i++) k[i]=q[i]; k[7]=std::exp(q[7]); P t=rlog<gt>(q,r); srng<gs>(q[7]); const SIM3<P> x=Sim3::make(k); const Vector<7,P> v=x.ln(); simc<gs,gt>(q[7],t,c); P a[3],b[3]; \
   for(int i=0;i<3;i++){ int j=(i+1)%3,l=(i+2)%3; a[i]=r[j]*v[l]-r[l]*v[j]; } for(int i=0;i<3;i++){ int j=(i+1)%3,l=(i+2)%3; b[i]=r[j]*a[l]-r[l]*a[j]; } for(int i=0;i<3;i++) o[i]=c[0]*v[i]+c[1]*a[i]+c[2]*b[i]; for(int i=0;i<4;i++) u[i]=v[3+i]; } \
 REF(ln_sim3_##gs##_##gt)(Arr<P,3>&o,Arr<P,4>&u,const Arr<P,8>&q){ P r[3]; rlog<gt>(q,r); srng<gs>(q[7]); for(int i=0;i<3;i++){ o[i]=q[4+i]; u[i]=r[i]; } u[3]=q[7]; }
LS3(big,big) LS3(big,tiny) LS3(tiny,big) LS3(tiny,tiny)
