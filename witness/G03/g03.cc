// Adjoints: T X(v) T^-1 = X(Ad v); dual form preserves the pairing; matrix forms apply both sides
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "groups.h"
using namespace TooN; using namespace gr;
#define MC ,
// algebra element as a matrix, and back
static inline void hat2(const P*v,P*m,bool sc){ P s=sc?v[3]:(P)0; m[0]=s; m[1]=-v[2]; m[2]=v[0]; m[3]=v[2]; m[4]=s; m[5]=v[1]; m[6]=m[7]=m[8]=0; }
static inline void hat3(const P*v,P*m,bool sc){ P s=sc?v[6]:(P)0; m[0]=m[5]=m[10]=s; m[1]=-v[5]; m[2]=v[4]; m[4]=v[5]; m[6]=-v[3]; m[8]=-v[4]; m[9]=v[3]; m[3]=v[0]; m[7]=v[1]; m[11]=v[2]; m[12]=m[13]=m[14]=m[15]=0; }
static inline void vee2(const P*m,P*v,bool sc){ v[0]=m[2]; v[1]=m[5]; v[2]=m[3]; if(sc) v[3]=m[0]; }
static inline void vee3(const P*m,P*v,bool sc){ v[0]=m[3]; v[1]=m[7]; v[2]=m[11]; v[3]=(m[9]-m[6])/2; v[4]=(m[2]-m[8])/2; v[5]=(m[4]-m[1])/2; if(sc) v[6]=m[0]; }
template<class G,bool S> struct A2{ static void hat(const P*v,P*m){hat2(v,m,S);} static void vee(const P*m,P*v){vee2(m,v,S);} };
template<class G,bool S> struct A3{ static void hat(const P*v,P*m){hat3(v,m,S);} static void vee(const P*m,P*v){vee3(m,v,S);} };
template<class G,class A> static inline void Ad(const P*a,const P*v,P*o){ const int N=G::N; P x[N*N],y[N*N],h[N*N],w[N*N]; G::ref(a,x); inv<N,true>(x,y); A::hat(v,h); mul<N,N,N>(x,h,w); mul<N,N,N>(w,y,h); A::vee(h,o); }
template<class G,class A> static inline void AdM(const P*a,P*o){ const int D=G::D; for(int k=0;k<D;k++){ P e[D],c[D]; for(int i=0;i<D;i++) e[i]=i==k; Ad<G,A>(a,e,c); for(int i=0;i<D;i++) o[i*D+k]=c[i]; } }
#define ADJ(n,G,A) \
 LIB(adj_##n)(Vector<G::D,P>&r,const Arr<P,G::K>&a,const Vector<G::D,P>&v){ const G::Obj x=G::make(a); r=x.adjoint(v); } \
 REF(adj_##n)(Vector<G::D,P>&r,const Arr<P,G::K>&a,const Vector<G::D,P>&v){ P o[G::D]; Ad<G,A>(a,reinterpret_cast<const P*>(&v),o); for(int i=0;i<G::D;i++) r[i]=o[i]; } \
 LIB(adjv_##n)(Arr<P,G::D>&r,const Arr<P,G::K>&a,const Arr<P,G::D*2>&m){ const G::Obj x=G::make(a); Matrix<G::D,2,P> c; for(int i=0;i<G::D*2;i++) c(i/2,i%2)=m[i]; Vector<Dynamic,P> d(G::D); d=c.T()[1]; Vector<G::D,P> u=x.adjoint(c.T()[0]),w=x.adjoint(d); for(int i=0;i<G::D;i++) r[i]=u[i]+3*w[i]; } \
 REF(adjv_##n)(Arr<P,G::D>&r,const Arr<P,G::K>&a,const Arr<P,G::D*2>&m){ P v[G::D]; for(int i=0;i<G::D;i++) v[i]=m[i*2]+3*m[i*2+1]; Ad<G,A>(a,v,r); } \
 LIB(adjm_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a,const Matrix<G::D,G::D,P>&m){ const G::Obj x=G::make(a); r=x.adjoint(m); } \
 REF(adjm_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a,const Matrix<G::D,G::D,P>&m){ const int D=G::D; P A_[D*D],t[D*D],o[D*D]; AdM<G,A>(a,A_); mul<D,D,D>(A_,reinterpret_cast<const P*>(&m),t); for(int i=0;i<D;i++) for(int j=0;j<D;j++){ P s=0; for(int k=0;k<D;k++) s+=t[i*D+k]*A_[j*D+k]; o[i*D+j]=s; } P*q=reinterpret_cast<P*>(&r); for(int i=0;i<D*D;i++) q[i]=o[i]; } \
 LIB(adjs_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a){ const G::Obj x=G::make(a); r=x.adjoint(r.T()); } \
 REF(adjs_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a){ const int D=G::D; P A_[D*D],t[D*D],o[D*D]; P*q=reinterpret_cast<P*>(&r); AdM<G,A>(a,A_); for(int i=0;i<D;i++) for(int j=0;j<D;j++){ P s=0; for(int k=0;k<D;k++) s+=A_[i*D+k]*q[j*D+k]; t[i*D+j]=s; } for(int i=0;i<D;i++) for(int j=0;j<D;j++){ P s=0; for(int k=0;k<D;k++) s+=t[i*D+k]*A_[j*D+k]; o[i*D+j]=s; } for(int i=0;i<D*D;i++) q[i]=o[i]; }
#define DUAL(n,G,A) \
 LIB(pair_##n)(P&r,const Arr<P,G::K>&a,const Vector<G::D,P>&v,const Vector<G::D,P>&w){ const G::Obj x=G::make(a); r=x.trinvadjoint(w)*x.adjoint(v); } \
 REF(pair_##n)(P&r,const Arr<P,G::K>&a,const Vector<G::D,P>&v,const Vector<G::D,P>&w){ r=0; for(int i=0;i<G::D;i++) r+=v[i]*w[i]; (void)a; } \
 LIB(dual_##n)(Vector<G::D,P>&r,const Arr<P,G::K>&a,const Vector<G::D,P>&w){ const G::Obj x=G::make(a); P A_[G::D*G::D]; AdM<G,A>(a,A_); const Vector<G::D,P> u=x.trinvadjoint(w); for(int i=0;i<G::D;i++){ P s=0; for(int k=0;k<G::D;k++) s+=A_[k*G::D+i]*u[k]; r[i]=s; } } \
 REF(dual_##n)(Vector<G::D,P>&r,const Arr<P,G::K>&a,const Vector<G::D,P>&w){ for(int i=0;i<G::D;i++) r[i]=w[i]; (void)a; } \
 LIB(dualm_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a,const Matrix<G::D,G::D,P>&m){ const int D=G::D; const G::Obj x=G::make(a); const Matrix<D,D,P> u=x.trinvadjoint(m); P A_[D*D],t[D*D],o[D*D]; AdM<G,A>(a,A_); for(int i=0;i<D;i++) for(int j=0;j<D;j++){ P s=0; for(int k=0;k<D;k++) s+=A_[k*D+i]*u(k,j); t[i*D+j]=s; } mul<D,D,D>(t,A_,o); P*q=reinterpret_cast<P*>(&r); for(int i=0;i<D*D;i++) q[i]=o[i]; } \
 REF(dualm_##n)(Matrix<G::D,G::D,P>&r,const Arr<P,G::K>&a,const Matrix<G::D,G::D,P>&m){ for(int i=0;i<G::D;i++) for(int j=0;j<G::D;j++) r(i,j)=m(i,j); (void)a; }
ADJ(se2,Se2,A2<Se2 MC false>) ADJ(sim2,Sim2,A2<Sim2 MC true>) ADJ(se3,Se3,A3<Se3 MC false>) ADJ(sim3,Sim3,A3<Sim3 MC true>)
DUAL(se3,Se3,A3<Se3 MC false>) DUAL(sim3,Sim3,A3<Sim3 MC true>)
LIB(adj_so3)(Vector<3,P>&r,const Arr<P,4>&a,const Vector<3,P>&v){ const SO3<P> x=So3::make(a); r=x.adjoint(v); }
REF(adj_so3)(Vector<3,P>&r,const Arr<P,4>&a,const Vector<3,P>&v){ P m[9],t[9],o[9],h[9]={0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0}; So3::ref(a,m); mul<3,3,3>(m,h,t); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ o[i*3+j]=0; for(int k=0;k<3;k++) o[i*3+j]+=t[i*3+k]*m[j*3+k]; } r[0]=o[7]; r[1]=o[2]; r[2]=o[3]; }
// run-time sized covariances
LIB(dyn_se3)(Arr<P,36>&r,const Arr<P,7>&a,const Arr<P,36>&m){ const SE3<P> x=Se3::make(a); Matrix<Dynamic,Dynamic,P> c(6,6); for(int i=0;i<36;i++) c(i/6,i%6)=m[i]; const Matrix<6,6,P> u=x.adjoint(c.T()); for(int i=0;i<36;i++) r[i]=u(i/6,i%6); }
REF(dyn_se3)(Arr<P,36>&r,const Arr<P,7>&a,const Arr<P,36>&m){ P A_[36],t[36]; AdM<Se3,A3<Se3,false> >(a,A_); for(int i=0;i<6;i++) for(int j=0;j<6;j++){ P s=0; for(int k=0;k<6;k++) s+=A_[i*6+k]*m[j*6+k]; t[i*6+j]=s; } for(int i=0;i<6;i++) for(int j=0;j<6;j++){ P s=0; for(int k=0;k<6;k++) s+=t[i*6+k]*A_[j*6+k]; r[i*6+j]=s; } }
