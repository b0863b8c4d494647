// Logarithms on every branch, against the closed forms and their inverses
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "groups.h"
#include <cmath>
using namespace TooN; using namespace gr;
#define MC ,
template<int n> static inline P dt(const P*a,const P*b){ P s=0; for(int i=0;i<n;i++) s+=a[i]*b[i]; return s; }
static inline void cr(const P*a,const P*b,P*o){ for(int i=0;i<3;i++){ int j=(i+1)%3,k=(i+2)%3; o[i]=a[j]*b[k]-a[k]*b[j]; } }
// cosine of the angle and the axis times its sine
static inline P angle(const P*R,P*a){ for(int i=0;i<3;i++){ int j=(i+1)%3,k=(i+2)%3; a[i]=(R[k*3+j]-R[j*3+k])/2; } return (R[0]+R[4]+R[8]-1)/2; }
LIB(ln_so2)(P&r,const Arr<P,1>&q){ const SO2<P> x=So2::make(q); r=x.ln(); }
REF(ln_so2)(P&r,const Arr<P,1>&q){ P m[4]; So2::ref(q,m); r=std::atan2(m[2],m[0]); }
// small angles, middle angles, near the half turn with the largest component k and the sign of it
enum { near0, half, k0p, k0n, k1p, k1n, k2p, k2n };
template<int g> static inline void side(const P*R,P*S,P&c,P*a){ c=angle(R,a); P s2=dt<3>(a,a); if(g==near0){ vf_assume(c>0.75); vf_assume(std::sqrt(s2)>1e-6); } else if(g==half){ vf_assume(c>-0.7&&c<0.7); vf_assume(s2>0.1); } else { vf_assume(c<-0.75);
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) S[i*3+j]=(R[i*3+j]+R[j*3+i])/2-(i==j)*c; 
  const int k=(g-k0p)/2,n=(g-k0p)%2; for(int l=0;l<3;l++) if(l!=k){ P u=S[k*4],v=S[l*4]; vf_assume(u>v); vf_assume(u*u>v*v); } vf_assume(S[k*4]>0); P d=dt<3>(S+3*k,a); if(n){ vf_assume(d<0); vf_assume(a[k]<0);} else { vf_assume(d>0); vf_assume(a[k]>0); } } }
template<int g> static inline void lnr(const P*R,P*u){ P S[9],c,a[3]; side<g>(R,S,c,a); P s=std::sqrt(dt<3>(a,a));
  if(g==near0){ for(int i=0;i<3;i++) u[i]=a[i]*(std::asin(s)/s); } else if(g==half){ for(int i=0;i<3;i++) u[i]=a[i]*(std::acos(c)/s); }
  else { const int k=(g-k0p)/2,n=(g-k0p)%2; P l=std::sqrt(dt<3>(S+3*k,S+3*k)); for(int i=0;i<3;i++) u[i]=(n?-1:1)*(M_PI-std::asin(s))*S[3*k+i]/l; } }
template<int g> static inline void lim(const P*q){ P R[9],S[9],c,a[3]; So3::ref(q,R); side<g>(R,S,c,a); }
#define L3(g) \
 LIB(ln_so3_##g)(Arr<P,3>&u,const Arr<P,4>&q){ lim<g>(q); const SO3<P> x=So3::make(q); const Vector<3,P> v=x.ln(); for(int i=0;i<3;i++) u[i]=v[i]; } \
 REF(ln_so3_##g)(Arr<P,3>&u,const Arr<P,4>&q){ P R[9]; So3::ref(q,R); lnr<g>(R,u); }
L3(near0) L3(half) L3(k0p) L3(k0n) L3(k1p) L3(k1n) L3(k2p) L3(k2n)
// exactly the identity, and exactly a half turn (either sign of the axis is right)
LIB(ln_unit)(Arr<P,3>&u,Arr<P,6>&v,Arr<P,3>&w,Arr<P,4>&x,Arr<P,7>&y,P&z){ { const Vector<3,P> a=SO3<P>().ln(),b=SE2<P>().ln(); for(int i=0;i<3;i++){u[i]=a[i];w[i]=b[i];} } { const Vector<6,P> a=SE3<P>().ln(); for(int i=0;i<6;i++) v[i]=a[i]; } { const Vector<4,P> a=SIM2<P>().ln(); for(int i=0;i<4;i++) x[i]=a[i]; } { const Vector<7,P> a=SIM3<P>().ln(); for(int i=0;i<7;i++) y[i]=a[i]; } z=SO2<P>().ln(); }
REF(ln_unit)(Arr<P,3>&u,Arr<P,6>&v,Arr<P,3>&w,Arr<P,4>&x,Arr<P,7>&y,P&z){ for(int i=0;i<3;i++) u[i]=w[i]=0; for(int i=0;i<6;i++) v[i]=0; for(int i=0;i<4;i++) x[i]=0; for(int i=0;i<7;i++) y[i]=0; z=0; }
#define TURN(k) \
 LIB(ln_turn_##k)(Arr<P,9>&u,const Arr<P,3>&n){ const int a=(k+1)%3,b=(k+2)%3; P s=dt<3>(n,n); P d[3]={2*n[0]*n[0]/s,2*n[1]*n[1]/s,2*n[2]*n[2]/s}; vf_assume(d[k]>d[a]); vf_assume(d[k]*d[k]>d[a]*d[a]); vf_assume(d[k]>d[b]); vf_assume(d[k]*d[k]>d[b]*d[b]); SO3<P> x; P*w=reinterpret_cast<P*>(&x); for(int i=0;i<9;i++) w[i]=2*n[i/3]*n[i%3]/s-(i%4==0); const Vector<3,P> v=x.ln(); for(int i=0;i<9;i++) u[i]=v[i/3]*v[i%3]; } \
 REF(ln_turn_##k)(Arr<P,9>&u,const Arr<P,3>&n){ const int a=(k+1)%3,b=(k+2)%3; P s=dt<3>(n,n); P d[3]={2*n[0]*n[0]/s,2*n[1]*n[1]/s,2*n[2]*n[2]/s}; vf_assume(d[k]>d[a]); vf_assume(d[k]*d[k]>d[a]*d[a]); vf_assume(d[k]>d[b]); vf_assume(d[k]*d[k]>d[b]*d[b]); for(int i=0;i<9;i++) { const P pi=M_PI; u[i]=(pi*n[i/3])*(pi*n[i%3])/s; } }
TURN(0) TURN(1) TURN(2)
// planar rigid motions
template<int g> static inline void rg2(P t){ if(g==0) vf_assume(t*t>1e-6); else vf_assume(t*t<0.5e-12); }
#define L2(g) \
 LIB(ln_se2_##g)(Arr<P,3>&u,const Arr<P,3>&q){ P m[4]; So2::ref(q,m); rg2<g>(std::atan2(m[2],m[0])); const SE2<P> x=Se2::make(q); const Vector<3,P> v=x.ln(); for(int i=0;i<3;i++) u[i]=v[i]; } \
 REF(ln_se2_##g)(Arr<P,3>&u,const Arr<P,3>&q){ P m[4]; So2::ref(q,m); P t=std::atan2(m[2],m[0]); rg2<g>(t); P c=std::cos(t/2),s=std::sin(t/2),k=g==0?t/2/s:1; u[0]=k*(c*q[1]+s*q[2]); u[1]=k*(c*q[2]-s*q[1]); u[2]=t; }
L2(0) L2(1)
// spatial rigid motions, given the rotation's logarithm: t - r x t/2 + k r x (r x t)
template<int g> static inline void rg3(const P*r){ P s=dt<3>(r,r); if(g==0) vf_assume(s>1e-5); else if(g==1) vf_assume(s>4.5e-10&&s<0.5e-6); else vf_assume(s<1e-12); }
template<int g> static inline void rlog(const P*q,P*r){ P R[9]; So3::ref(q,R); lnr<g==0?half:near0>(R,r); }
#define L6(g) \
 LIB(ln_se3_##g)(Arr<P,6>&u,const Arr<P,7>&q){ P r[3]; rlog<g>(q,r); rg3<g>(r); const SE3<P> x=Se3::make(q); const Vector<6,P> v=x.ln(); for(int i=0;i<6;i++) u[i]=v[i]; } \
 REF(ln_se3_##g)(Arr<P,6>&u,const Arr<P,7>&q){ P r[3],a[3],b[3]; rlog<g>(q,r); rg3<g>(r); const P*t=q+4; cr(r,t,a); cr(r,a,b); P s=dt<3>(r,r),d=dt<3>(r,t); \
   for(int i=0;i<3;i++){ u[3+i]=r[i]; if(g==0){ P h=std::sqrt(s)/2; u[i]=t[i]-a[i]/2+(1-h*std::cos(h)/std::sin(h))/s*b[i]; } else u[i]=t[i]-(1-s/24)/2*a[i]+b[i]/8-r[i]*d/24; } }
L6(0) L6(2)
