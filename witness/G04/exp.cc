// Exponentials against the closed forms (and the documented series for tiny arguments)
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "groups.h"
#include <cmath>
using namespace TooN; using namespace gr;
#define MC ,
#define BIG(x) vf_assume((x)>1e-5)
#define MID(x) vf_assume((x)>1.5e-8&&(x)<0.5e-6)
#define TINY(x) vf_assume((x)>0&&(x)<0.5e-8)
// rotation w by coefficients A,B: I + A[w] + B[w]^2, and V = I + B[w] + C[w]^2
static inline void rod(const P*w,P A,P B,P*m){ P h[9]={0,-w[2],w[1],w[2],0,-w[0],-w[1],w[0],0},q[9]; mul<3,3,3>(h,h,q); for(int i=0;i<9;i++) m[i]=(i%4==0)+A*h[i]+B*q[i]; }
enum Rg{big,mid,tiny,zero};
template<int g> static inline void rng(P x){ if(g==big) BIG(x); if(g==mid) MID(x); if(g==tiny) TINY(x); }
template<int g> static inline void coef(P t2,P&A,P&B,P&C){ if(g==big){ P t=std::sqrt(t2); A=std::sin(t)/t; B=(1-std::cos(t))/t2; C=(1-A)/t2; } else if(g==mid){ A=1-t2/6*(1-t2/20); B=(P)1/2-t2/24; C=((P)1-t2/20)/6; } else { A=1-t2/6; B=(P)1/2; C=0; } }
static inline P sq(const P*w){ return w[0]*w[0]+w[1]*w[1]+w[2]*w[2]; }
LIB(exp_so2)(Arr<P,4>&r,Arr<P,4>&q,const P&t){ const SO2<P> x=SO2<P>::exp(t),y(t); So2::out(x,r); So2::out(y,q); }
REF(exp_so2)(Arr<P,4>&r,Arr<P,4>&q,const P&t){ P c=std::cos(t),s=std::sin(t); r[0]=r[3]=c; r[1]=-s; r[2]=s; for(int i=0;i<4;i++) q[i]=r[i]; }
#define SO3X(g) \
 LIB(exp_so3_##g)(Arr<P,9>&r,Arr<P,9>&q,const Vector<3,P>&w){ rng<g>(sq(reinterpret_cast<const P*>(&w))); const SO3<P> x=SO3<P>::exp(w); So3::out(x,r); Vector<Dynamic,P> d(3); d=w; const SO3<P> y(d); So3::out(y,q); } \
 REF(exp_so3_##g)(Arr<P,9>&r,Arr<P,9>&q,const Vector<3,P>&w){ const P*v=reinterpret_cast<const P*>(&w); rng<g>(sq(v)); P A,B,C; coef<g>(sq(v),A,B,C); rod(v,A,B,r); for(int i=0;i<9;i++) q[i]=r[i]; } \
 LIB(exp_se3_##g)(Arr<P,16>&r,Arr<P,16>&q,const Vector<6,P>&w){ rng<g>(sq(reinterpret_cast<const P*>(&w)+3)); const SE3<P> x=SE3<P>::exp(w); Se3::out(x,r); Matrix<6,2,P> m; m.T()[1]=w; const SE3<P> y(m.T()[1]); Se3::out(y,q); } \
 REF(exp_se3_##g)(Arr<P,16>&r,Arr<P,16>&q,const Vector<6,P>&w){ const P*v=reinterpret_cast<const P*>(&w); rng<g>(sq(v+3)); P A,B,C,R[9],V[9],t[3]; coef<g>(sq(v+3),A,B,C); rod(v+3,A,B,R); rod(v+3,B,C,V); mul<3,3,1>(V,v,t); hom<3>(R,t,1,r); for(int i=0;i<16;i++) q[i]=r[i]; } \
 LIB(exp_se2_##g)(Arr<P,9>&r,Arr<P,9>&q,const Vector<3,P>&w){ rng<g>(w[2]*w[2]); const SE2<P> x=SE2<P>::exp(w),y(w); Se2::out(x,r); Se2::out(y,q); } \
 REF(exp_se2_##g)(Arr<P,9>&r,Arr<P,9>&q,const Vector<3,P>&w){ P t=w[2]; rng<g>(t*t); P A,B,C; coef<g>(t*t,A,B,C); if(g==tiny) A=1; if(g==big){ A=std::sin(t)/t; B=(1-std::cos(t))/(t*t); } P R[4]={std::cos(t),-std::sin(t),std::sin(t),std::cos(t)},u[2]={A*w[0]-B*t*w[1],B*t*w[0]+A*w[1]}; hom<2>(R,u,1,r); for(int i=0;i<9;i++) q[i]=r[i]; }
SO3X(big) SO3X(mid) SO3X(tiny)
// zero tangent vectors give the identity
LIB(exp_zero)(Arr<P,9>&r,Arr<P,16>&q,Arr<P,9>&u){ const SO3<P> x=SO3<P>::exp(Vector<3,P>(Zeros)); So3::out(x,r); const SE3<P> y=SE3<P>::exp(Vector<6,P>(Zeros)); Se3::out(y,q); const SE2<P> z=SE2<P>::exp(Vector<3,P>(Zeros)); Se2::out(z,u); }
REF(exp_zero)(Arr<P,9>&r,Arr<P,16>&q,Arr<P,9>&u){ for(int i=0;i<9;i++) r[i]=u[i]=i%4==0; for(int i=0;i<16;i++) q[i]=i%5==0; }
LIB(exp_zerosim)(Arr<P,9>&r,Arr<P,16>&q){ const SIM2<P> x=SIM2<P>::exp(Vector<4,P>(Zeros)); Sim2::out(x,r); const SIM3<P> y=SIM3<P>::exp(Vector<7,P>(Zeros)); Sim3::out(y,q); }
REF(exp_zerosim)(Arr<P,9>&r,Arr<P,16>&q){ for(int i=0;i<9;i++) r[i]=i%4==0; for(int i=0;i<16;i++) q[i]=i%5==0; }
// pure translation
LIB(exp_trans)(Arr<P,16>&r,Arr<P,16>&q,const Vector<3,P>&t){ Vector<6,P> v=Zeros; v.template slice<0,3>()=t; const SE3<P> y=SE3<P>::exp(v); Se3::out(y,r); Vector<7,P> w=Zeros; w.template slice<0,3>()=t; const SIM3<P> z=SIM3<P>::exp(w); Sim3::out(z,q); }
REF(exp_trans)(Arr<P,16>&r,Arr<P,16>&q,const Vector<3,P>&t){ for(int i=0;i<16;i++) r[i]=q[i]=i%5==0; for(int i=0;i<3;i++) r[i*4+3]=q[i*4+3]=t[i]; }
// similarities: V = c0 I + c1 [w] + c2 [w]^2, c0=int e^{sx}, c1=int e^{sx} sin(tx)/t, c2=int e^{sx}(1-cos(tx))/t^2 over [0,1]
template<int gs,int gt> static inline void simc(P s,P t,P*c){ P e=std::exp(s);
  if(gs==big&&gt==big){ P n=s*s+t*t,si=std::sin(t),co=std::cos(t); c[0]=(e-1)/s; c[1]=(e*(s*si-t*co)+t)/(n*t); c[2]=((e-1)/s-(e*(s*co+t*si)-s)/n)/(t*t); }
  else if(gs==tiny&&gt==tiny){ c[0]=1+s/2+s*s/6; c[1]=(P)1/2+s/3+s*s/8-t*t/24; c[2]=(P)1/6+s/8+s*s/20-t*t/120; }
  else if(gs==tiny){ P si=std::sin(t),co=std::cos(t),t2=t*t; // moments m_k of x^k sin, x^k (1-cos) up to s^2
    P s0=(1-co)/t,s1=si/t2-co/t,s2=-co/t+2*si/t2+2*(co-1)/(t*t2); P k0=si/t,k1=si/t+(co-1)/t2,k2=si/t+2*co/t2-2*si/(t*t2);
    c[0]=1+s/2+s*s/6; c[1]=(s0+s*s1+s*s/2*s2)/t; c[2]=((1-k0)+s*((P)1/2-k1)+s*s/2*((P)1/3-k2))/t2; }
  else { P m0=(e-1)/s,m1=(e-m0)/s,m2=(e-2*m1)/s,m3=(e-3*m2)/s,m4=(e-4*m3)/s; c[0]=m0; c[1]=m1-t*t/6*m3; c[2]=m2/2-t*t/24*m4; } }
template<int g> static inline void srng(P s){ if(g==big) vf_assume(s*s>1e-6); else vf_assume(s*s<0.5e-12); }
#define SIMX(gs,gt) \
 LIB(exp_sim2_##gs##_##gt)(Arr<P,9>&r,const Vector<4,P>&w){ srng<gs>(w[3]); srng<gt>(w[2]); const SIM2<P> x=SIM2<P>::exp(w); Sim2::out(x,r); } \
 REF(exp_sim2_##gs##_##gt)(Arr<P,9>&r,const Vector<4,P>&w){ srng<gs>(w[3]); srng<gt>(w[2]); P c[3],t=w[2]; simc<gs,gt>(w[3],t,c); P R[4]={std::cos(t),-std::sin(t),std::sin(t),std::cos(t)},a=c[0]-c[2]*t*t,b=c[1]*t,u[2]={a*w[0]-b*w[1],b*w[0]+a*w[1]}; hom<2>(R,u,std::exp(w[3]),r); } \
 LIB(exp_sim3_##gs##_##gt)(Arr<P,16>&r,const Vector<7,P>&w){ const P*v=reinterpret_cast<const P*>(&w); srng<gs>(w[6]); if(gt==big) vf_assume(sq(v+3)>1e-5); else vf_assume(sq(v+3)<0.5e-12); const SIM3<P> x=SIM3<P>::exp(w); Sim3::out(x,r); } \
 REF(exp_sim3_##gs##_##gt)(Arr<P,16>&r,const Vector<7,P>&w){ const P*v=reinterpret_cast<const P*>(&w); srng<gs>(w[6]); if(gt==big) vf_assume(sq(v+3)>1e-5); else vf_assume(sq(v+3)<0.5e-12); P c[3],t=std::sqrt(sq(v+3)); simc<gs,gt>(w[6],t,c); P A,B,C,R[9],V[9],u[3],h[9]; coef<gt==big?big:tiny>(sq(v+3),A,B,C); rod(v+3,A,B,R); rod(v+3,c[1],c[2],V); for(int i=0;i<9;i++) V[i]+=(i%4==0)*(c[0]-1); (void)h; mul<3,3,1>(V,v,u); hom<3>(R,u,std::exp(w[6]),r); }
SIMX(big,big) SIMX(tiny,big) SIMX(big,tiny) SIMX(tiny,tiny)
