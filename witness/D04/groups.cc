// Transformations: every element of every result is set, on every degenerate combination of rotation, translation and scale
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS
// TIME: 200
#include "groups.h"
using namespace gr;
template<class X> static inline std::enable_if_t<std::is_arithmetic<X>::value> put(P*&o,const X&x){ *o++=P(x); }
template<int n,class Q,class B> static inline void put(P*&o,const Vector<n,Q,B>&x){ for(int i=0;i<x.size();i++) *o++=P(x[i]); }
template<int n,int m,class Q,class B> static inline void put(P*&o,const Matrix<n,m,Q,B>&x){ for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) *o++=P(x(i,j)); }
#define RAW(T) template<> struct Rw<T> { static void o(P*&p,const T&x){ const P*w=reinterpret_cast<const P*>(&x); for(unsigned i=0;i<sizeof(T)/sizeof(P);i++) *p++=w[i]; } };
template<class T> struct Rw;
RAW(SO2<P>) RAW(SO3<P>) RAW(SE2<P>) RAW(SE3<P>)
template<> struct Rw<SIM2<P>>{ static void o(P*&p,const SIM2<P>&x){ put(p,x.get_rotation().get_matrix()); put(p,x.get_translation()); put(p,x.get_scale()); } };
template<> struct Rw<SIM3<P>>{ static void o(P*&p,const SIM3<P>&x){ put(p,x.get_rotation().get_matrix()); put(p,x.get_translation()); put(p,x.get_scale()); } };
template<int n> struct Rw<SL<n,P>>{ static void o(P*&p,const SL<n,P>&x){ put(p,x.get_matrix()); } };
#define O(x) { auto r=x; put(p,r); }
#define G_(x) { auto r=x; Rw<decltype(r)>::o(p,r); }
#define OUT Arr<P,900>&out
// exponentials: z selects which coordinates are zero
#define EX(n,T,D,z) CHK(generic_exp_##n##_##z)(OUT,const Arr<P,D>&v){ P*p=out; Vector<D,P> a; for(int i=0;i<D;i++) a[i]=(z>>i)&1?P(0):v[i]; G_(T::exp(a)) T g(a); G_(g) G_(g.inverse()) G_(g*g) g*=g; G_(g) }
#define EXT(n,T,D,z) CHK(generic_tiny_##n##_##z)(OUT,const Arr<P,D>&v){ P*p=out; Vector<D,P> a; for(int i=0;i<D;i++) a[i]=(z>>i)&1?P(0):P(1e-12); G_(T::exp(a)) }
EX(so3,SO3<P>,3,0) EX(so3,SO3<P>,3,7) EX(so3,SO3<P>,3,6) EX(so3,SO3<P>,3,1) EXT(so3,SO3<P>,3,0) EXT(so3,SO3<P>,3,6)
EX(se2,SE2<P>,3,0) EX(se2,SE2<P>,3,7) EX(se2,SE2<P>,3,3) EX(se2,SE2<P>,3,4) EXT(se2,SE2<P>,3,0) EXT(se2,SE2<P>,3,3)
EX(se3,SE3<P>,6,0) EX(se3,SE3<P>,6,63) EX(se3,SE3<P>,6,7) EX(se3,SE3<P>,6,56) EXT(se3,SE3<P>,6,0) EXT(se3,SE3<P>,6,7)
EX(sim2,SIM2<P>,4,0) EX(sim2,SIM2<P>,4,15) EX(sim2,SIM2<P>,4,8) EX(sim2,SIM2<P>,4,4) EX(sim2,SIM2<P>,4,12) EXT(sim2,SIM2<P>,4,0) EXT(sim2,SIM2<P>,4,3)
EX(sim3,SIM3<P>,7,0) EX(sim3,SIM3<P>,7,127) EX(sim3,SIM3<P>,7,64) EX(sim3,SIM3<P>,7,56) EX(sim3,SIM3<P>,7,120) EXT(sim3,SIM3<P>,7,0) EXT(sim3,SIM3<P>,7,7)
CHK(generic_exp_so2)(OUT,const P&a){ P*p=out; G_(SO2<P>::exp(a)) G_(SO2<P>::exp(P(0))) SO2<P> g(a); G_(g.inverse()) O(g.ln()) O(SO2<P>().ln()) O(g.get_matrix()) O(g.generator()) }
// logarithms and adjoints: the identity, a half turn, no translation, unit scale, anything
static inline void half(P*q,int t,int R,int K){ if(t==0){ q[0]=1; for(int i=1;i<K;i++) q[i]=0; } if(t==1){ q[0]=0; q[1]=1; } if(t==2){ q[0]=0; q[3]=1; } if(t==3) for(int i=4;i<K;i++) q[i]=0; if(t==4){ for(int i=1;i<4;i++) q[i]=0; q[0]=1; } }
#define LN3(n,T,t) CHK(generic_ln_##n##_##t)(OUT,const Arr<P,T::K>&v){ P*p=out; P q[T::K]; for(int i=0;i<T::K;i++) q[i]=v[i]; if(T::D==7){ vf_assume(v[7]>0); } half(q,t,4,T::K); if(T::D==7){ q[7]=t==0||t==3?P(1):v[7]; } T::Obj g=T::make(q); O(g.ln()) }
#define AD3(n,T,t) CHK(generic_adj_##n##_##t)(OUT,const Arr<P,T::K>&v,const Arr<P,T::D>&w,const Arr<P,T::D*T::D>&m){ P*p=out; P q[T::K]; for(int i=0;i<T::K;i++) q[i]=v[i]; half(q,t,4,T::K); if(T::D==7) q[7]=t==0||t==3?P(1):v[7]; const T::Obj g=T::make(q); O(g.adjoint(Vector<T::D,P>(wrapVector<T::D>(w)))) ADM_##n }
#define ADM_so3
#define ADM_se3 O(g.trinvadjoint(wrapVector<6>(w))) O((g.adjoint(wrapMatrix<6,6>(m)))) O((g.trinvadjoint(wrapMatrix<6,6>(m))))
#define ADM_sim3 O(g.trinvadjoint(wrapVector<7>(w))) O((g.adjoint(wrapMatrix<7,7>(m)))) O((g.trinvadjoint(wrapMatrix<7,7>(m))))
#define L3(t) LN3(so3,So3,t) LN3(se3,Se3,t) LN3(sim3,Sim3,t) AD3(so3,So3,t) AD3(se3,Se3,t) AD3(sim3,Sim3,t)
L3(0) L3(1) L3(2) L3(3) L3(4) L3(5)
#define LN2(n,T,t) CHK(generic_ln_##n##_##t)(OUT,const Arr<P,T::K>&v,const Arr<P,T::D>&w,const Arr<P,T::D*T::D>&m){ P*p=out; P q[T::K]; for(int i=0;i<T::K;i++) q[i]= (t==0||(t==1&&i==0)||(t==2&&i>0)) ? P(0) : v[i]; if(T::D==4){ if(t==0||t==2) q[3]=1; else { vf_assume(v[3]>0); } } const T::Obj g=T::make(q); O(g.ln()) O(g.adjoint(Vector<T::D,P>(wrapVector<T::D>(w)))) O((g.adjoint(wrapMatrix<T::D,T::D>(m)))) }
#define L2(t) LN2(se2,Se2,t) LN2(sim2,Sim2,t)
L2(0) L2(1) L2(2) L2(3)
// rotations from a pair of vectors: general, the same, parallel
CHK(refuse_pair)(OUT,const Arr<P,3>&a,const Arr<P,3>&b){ P*p=out; vf_assume(a[0]>0); G_((SO3<P>(Vector<3,P>(wrapVector<3>(a)),Vector<3,P>(wrapVector<3>(b))))) }
CHK(refuse_pair_same)(OUT,const Arr<P,3>&a){ P*p=out; vf_assume(a[0]>0); G_((SO3<P>(Vector<3,P>(wrapVector<3>(a)),Vector<3,P>(wrapVector<3>(a))))) }
CHK(pair_axes)(OUT){ P*p=out; G_((SO3<P>(makeVector(P(1),P(0),P(0)),makeVector(P(0),P(1),P(0))))) G_((SO3<P>(makeVector(P(1),P(0),P(0)),makeVector(P(2),P(0),P(0))))) }
// defaults
CHK(defaults)(OUT){ P*p=out; G_(SO2<P>()) G_(SO3<P>()) G_(SE2<P>()) G_(SE3<P>()) G_(SIM2<P>()) G_(SIM3<P>()) G_((SL<2,P>())) G_((SL<3,P>())) G_((SL<4,P>())) O(SO3<P>().ln()) O(SE2<P>().ln()) O(SE3<P>().ln()) O(SIM2<P>().ln()) O(SIM3<P>().ln()) }
#define CO(T,n,N) CHK(generic_refuse_coerce_##T)(OUT,const Arr<P,N*N>&m){ P*p=out; T<P> g(wrapMatrix<N,N>(m)); G_(g) }
CO(SO2,so2,2) CO(SO3,so3,3)
#define GN(T,n,k) CHK(generators_##n##_##k)(OUT){ P*p=out; O(T::generator(k)) }
GN(SO3<P>,so3,0) GN(SO3<P>,so3,1) GN(SO3<P>,so3,2) GN(SE2<P>,se2,0) GN(SE2<P>,se2,1) GN(SE2<P>,se2,2) GN(SIM2<P>,sim2,0) GN(SIM2<P>,sim2,2) GN(SIM2<P>,sim2,3)
#define GF(T,n,k) CHK(fields_##n##_##k)(OUT,const Arr<P,4>&v){ P*p=out; O(T::generator_field(k,Vector<4,P>(wrapVector<4>(v)))) }
GF(SE3<P>,se3,0) GF(SE3<P>,se3,3) GF(SE3<P>,se3,4) GF(SE3<P>,se3,5) GF(SIM3<P>,sim3,0) GF(SIM3<P>,sim3,3) GF(SIM3<P>,sim3,4) GF(SIM3<P>,sim3,5) GF(SIM3<P>,sim3,6)
#define SLX(n) CHK(generic_sl_exp_##n)(OUT){ P*p=out; G_((SL<n,P>::exp(Vector<n*n-1,P>(Zeros)))) SL<n,P> g; G_(g.inverse()) G_((g*g)) for(int i=0;i<n*n-1;i++) O((SL<n,P>::generator(i))) }
SLX(2) SLX(3) SLX(4)
