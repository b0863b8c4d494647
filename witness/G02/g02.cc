// Generators and generator fields against the documented basis of each algebra
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "groups.h"
#define MC ,
using namespace TooN; using namespace gr;
// documented basis: e_k as a plain N x N matrix
static inline void gen3(int i,P*m,int N){ const int a=(i+1)%3,b=(i+2)%3; m[a*N+b]=-1; m[b*N+a]=1; }
static inline void gse3(int k,P*m){ for(int i=0;i<16;i++) m[i]=0; if(k<3) m[k*4+3]=1; else if(k<6) gen3(k-3,m,4); else m[0]=m[5]=m[10]=1; }
static inline void gse2(int k,P*m){ for(int i=0;i<9;i++) m[i]=0; if(k<2) m[k*3+2]=1; else if(k==2){ m[1]=-1; m[3]=1; } else m[0]=m[4]=1; }
static inline void gso3(int k,P*m){ for(int i=0;i<9;i++) m[i]=0; gen3(k,m,3); }
static inline void gso2(int,P*m){ m[0]=m[3]=0; m[1]=-1; m[2]=1; }
template<int n> static inline void gsl(int k,P*m){ for(int i=0;i<n*n;i++) m[i]=0; if(k<n-1){ m[k*n+k]=1; m[(k+1)*n+k+1]=-1; return; } int q=k-(n-1); const int h=n*(n-1)/2; bool anti=q>=h; if(anti) q-=h; int c=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++){ if(c==q){ m[j*n+i]=1; m[i*n+j]=anti?-1:1; } c++; } }
#define GEN(n,G,rf) \
 LIB(gen_##n)(Arr<P,G::D*G::N*G::N>&r){ for(int k=0;k<G::D;k++){ const Matrix<G::N,G::N,P> m=G::Obj::generator(k); for(int i=0;i<G::N*G::N;i++) r[k*G::N*G::N+i]=m(i/G::N,i%G::N); } } \
 REF(gen_##n)(Arr<P,G::D*G::N*G::N>&r){ for(int k=0;k<G::D;k++) rf(k,r+k*G::N*G::N); }
#define FIELD(n,G,rf) \
 LIB(fld_##n)(Arr<P,G::D*G::N>&r,const Arr<P,G::N>&v){ Vector<G::N,P> p; for(int i=0;i<G::N;i++) p[i]=v[i]; for(int k=0;k<G::D;k++){ const Vector<G::N,P> m=G::Obj::generator_field(k,p); for(int i=0;i<G::N;i++) r[k*G::N+i]=m[i]; } } \
 REF(fld_##n)(Arr<P,G::D*G::N>&r,const Arr<P,G::N>&v){ for(int k=0;k<G::D;k++){ P m[G::N*G::N]; rf(k,m); mul<G::N,G::N,1>(m,v,r+k*G::N); } } \
 LIB(fldv_##n)(Arr<P,G::D*G::N>&r,const Arr<P,G::N*2>&v){ Matrix<G::N,2,P> p; for(int i=0;i<G::N*2;i++) p(i/2,i%2)=v[i]; for(int k=0;k<G::D;k++){ const Vector<G::N,P> m=G::Obj::generator_field(k,p.T()[1]); for(int i=0;i<G::N;i++) r[k*G::N+i]=m[i]; } } \
 REF(fldv_##n)(Arr<P,G::D*G::N>&r,const Arr<P,G::N*2>&v){ for(int k=0;k<G::D;k++){ P m[G::N*G::N],w[G::N]; rf(k,m); for(int i=0;i<G::N;i++) w[i]=v[i*2+1]; mul<G::N,G::N,1>(m,w,r+k*G::N); } } \
 LIB(fldg_##n)(Arr<P,G::D*G::N>&r,const Vector<G::N,P>&v){ Vector<G::N,P> p=v; for(int k=0;k<G::D;k++){ const Vector<G::N,P> m=G::Obj::generator_field(k,p)-G::Obj::generator(k)*p; for(int i=0;i<G::N;i++) r[k*G::N+i]=m[i]; } } \
 REF(fldg_##n)(Arr<P,G::D*G::N>&r,const Vector<G::N,P>&v){ for(int i=0;i<G::D*G::N;i++) r[i]=0; (void)v; }
GEN(so3,So3,gso3) GEN(se2,Se2,gse2) GEN(se3,Se3,gse3) GEN(sim2,Sim2,gse2) GEN(sim3,Sim3,gse3) GEN(sl2,Sl<2>,gsl<2>) GEN(sl3,Sl<3>,gsl<3>) GEN(sl4,Sl<4>,gsl<4>) GEN(sl5,Sl<5>,gsl<5>)
FIELD(so3,So3,gso3) FIELD(se3,Se3,gse3) FIELD(sim3,Sim3,gse3)
LIB(gen_so2)(Arr<P,4>&r){ const Matrix<2,2,P> m=SO2<P>::generator(); for(int i=0;i<4;i++) r[i]=m(i/2,i%2); }
REF(gen_so2)(Arr<P,4>&r){ gso2(0,r); }
// the derivative along coordinate k at the identity: the first-order part of exp for a vanishing coefficient
// (small-argument branch; remainder terms of second order vanish in the odd part up to the cubic series term)
#define DER(n,G,V) \
 LIB(der_##n)(Arr<P,G::D*G::N*G::N>&r,const P&e){ vf_assume(e*e>0&&e*e<1e-10); for(int k=0;k<G::D;k++){ V p=Zeros,q=Zeros; p[k]=e; q[k]=-e; const G::Obj x=G::Obj::exp(p),y=G::Obj::exp(q); P a[G::N*G::N],b[G::N*G::N]; G::out(x,a); G::out(y,b); const Matrix<G::N,G::N,P> g=G::Obj::generator(k); for(int i=0;i<G::N*G::N;i++){ const P d=(a[i]-b[i])/(2*e)-g(i/G::N,i%G::N); r[k*G::N*G::N+i]=d; } } } \
 REF(der_##n)(Arr<P,G::D*G::N*G::N>&r,const P&e){ vf_assume(e*e>0&&e*e<1e-10); for(int k=0;k<G::D;k++) for(int i=0;i<G::N*G::N;i++){ P m[G::N*G::N]; rf_##n(k,m); r[k*G::N*G::N+i]=k>=G::L0&&k<G::L1?-e*e/6*m[i]:(P)0; } }
struct So3d:So3{ static const int L0=0,L1=3; }; struct Se3d:Se3{ static const int L0=3,L1=6; };
#define rf_so3 gso3
#define rf_se3 gse3
DER(so3,So3d,Vector<3 MC P>) DER(se3,Se3d,Vector<6 MC P>)
