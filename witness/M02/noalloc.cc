// Operations on small fixed-size objects: obligations named noalloc_* must reach no allocation
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// FLAGS: -DPREC=int
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/wls.h>
#include "vf.h"
using namespace TooN;
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
#define NA(n) CHK(noalloc_##n)
typedef Vector<3,P> V3; typedef Matrix<3,3,P> M3; typedef Matrix<2,3,P,ColMajor> M23; typedef Vector<2,P> V2;
NA(vec)(V3&r,const V3&a,const V3&b,const P&s){ r=a+b; r+=a-b; r-=s*a; r=r*s; r/=s; r=-r; r=a^b; r=r+a/s; r*=a*b; V3 c(r); c=r; c=c^(a+b); r=c; }
NA(vecb)(bool&r,const V3&a,const V3&b){ r=(a==b)||(a+b!=a); }
NA(slice)(V3&r,const V3&a,V3&b){ r.template slice<0,2>()=a.template slice<1,2>(); r.slice(1,2)=b.slice(0,2); r.slice(0,2)+=a.slice(1,2); r.as_row()[0]=a; r.as_col().T()[0]+=b; b.template slice<1,1>()*=2; r=r.as_slice(); }
NA(mat)(M3&r,const M3&a,const M3&b,const V3&v,const P&s){ r=a*b; r=r+a; r-=s*b.T(); r=r.T()*a; r/=s; r*=s; M3 c=r*b+a; r=c-a; r[0]=v; r.T()[1]=v*s; r=-r; r(0,1)+=a[1][2]; }
NA(mat2)(M23&r,const Matrix<2,2,P>&a,const Matrix<2,3,P>&b,const V3&v){ r=a*b; r=a*(b+r); r.template slice<0,1,2,2>()=a; r.slice(0,0,1,2)=a.template slice<1,0,1,2>(); r.T()=b.T(); Matrix<3,2,P> t=r.T(); r=t.T(); r.diagonal_slice()=a[1]; r=r*v.as_diagonal(); }
NA(mv)(V2&r,V3&q,const Matrix<2,3,P>&b,const V3&v){ r=b*v; q=r*b; q=q+r*b; r+=b*(v+q); q=v.as_diagonal()*q; q=(b.T()*b)*v; }
NA(outer)(M3&r,const V3&v,const V3&w,const P&s){ r=v.as_col()*w.as_row(); r+=v.as_diagonal()*r; r=s*(v.as_col()*w.as_row())-r; r+=s*Identity; r-=Ones*s; r=r*v.as_diagonal(); }
NA(obj)(V3&v,M3&m,const P&s){ v=Zeros; v=Ones; v+=s*Ones; m=Identity; m=Identity*s; m+=Identity; m=Zeros; m=Ones*s; V3 z(Zeros); M3 y(Identity); v=z; m=y; }
NA(fill)(V3&v,M3&m,const P&s){ v=makeVector(s,s,s); Fill(v)=s,s+1,s; Fill(m)=s,s,s,s,s,s,s,s,s; m=Data(s,s,s,s,s,s,s,s,s); }
NA(help)(V3&r,M3&m,P(&o)[6],const V3&v,const M3&a){ o[0]=norm(v); o[1]=norm_sq(v); o[2]=norm_1(v); o[3]=norm_inf(v); o[4]=max_value(v); o[5]=trace(a); r=unit(v); normalize(r); m=cross_product_matrix(v); V2 p=project(v); r=unproject(p); o[0]+=norm_fro(a); Symmetrize(m); }
NA(so2)(SO2<P>&r,V2&v,const SO2<P>&a,const SO2<P>&b,const P&s,const Matrix<2,2,P>&m,Matrix<2,2,P>&o){ r=a*b; r=r.inverse(); r*=a; v=r*v; v=v*a; r=SO2<P>::exp(s); v[0]=r.ln(); o=r*m; o=o*a; o=SO2<P>::generator(); SO2<P> q(m); r=q; SO2<P> i; r=i; }
NA(so3)(SO3<P>&r,V3&v,const SO3<P>&a,const SO3<P>&b,const M3&m,M3&o){ r=a*b; r=r.inverse(); r*=a; v=r*v; v=v*a; o=r*m; o=o*a; o=SO3<P>::generator(1); v=SO3<P>::generator_field(2,v); v=r.adjoint(v); SO3<P> i; r=i; }
NA(so3e)(SO3<P>&r,const V3&v){ r=SO3<P>::exp(v); }
NA(so3l)(V3&v,const SO3<P>&r){ v=r.ln(); }
NA(refuse_so3m)(SO3<P>&r,const M3&m){ r=SO3<P>(m); }
NA(refuse_so3v)(SO3<P>&r,const V3&v,const V3&w){ r=SO3<P>(v,w); }
NA(se2)(SE2<P>&r,V2&v,V3&w,const SE2<P>&a,const SE2<P>&b,const SO2<P>&q,M3&o){ r=a*b; r=r.inverse(); r*=a; v=r*v; w=r*w; w=w*a; o=r*o; o=o*a; o=SE2<P>::generator(1); w=r.adjoint(w); o=r.adjoint(o); r=q*r; r.get_translation()=v; SE2<P> i; r=i; }
NA(se2e)(SE2<P>&r,V3&o,const V3&v,const SE2<P>&a){ r=SE2<P>::exp(v); o=a.ln(); }
NA(se3)(SE3<P>&r,V3&v,Vector<4,P>&w,Vector<6,P>&t,const SE3<P>&a,const SE3<P>&b,const SO3<P>&q,Matrix<4,4,P>&o,Matrix<6,6,P>&c){ r=a*b; r=r.inverse(); r*=a; r.left_multiply_by(b); v=r*v; w=r*w; w=w*a; o=r*o; o=o*a; o=SE3<P>::generator(1); w=SE3<P>::generator_field(4,w); t=r.adjoint(t); t=r.trinvadjoint(t); c=r.adjoint(c); c=r.trinvadjoint(c); r=q*r; r.get_translation()=v; SE3<P> i; r=i; }
NA(se3e)(SE3<P>&r,const Vector<6,P>&v){ r=SE3<P>::exp(v); }
NA(se3l)(Vector<6,P>&o,const SE3<P>&a){ o=a.ln(); }
NA(sim2)(SIM2<P>&r,V2&v,V3&w,const SIM2<P>&a,const SIM2<P>&b,M3&o){ r=a*b; r=r.inverse(); r*=a; v=r*v; w=r*w; w=w*a; o=r*o; o=o*a; o=SIM2<P>::generator(1); SIM2<P> i; r=i; }
NA(sim3)(SIM3<P>&r,V3&v,Vector<4,P>&w,const SIM3<P>&a,const SIM3<P>&b,Matrix<4,4,P>&o){ r=a*b; r=r.inverse(); r*=a; r.left_multiply_by(b); v=r*v; w=r*w; w=w*a; o=r*o; o=o*a; o=SIM3<P>::generator(1); w=SIM3<P>::generator_field(6,w); SIM3<P> i; r=i; }
NA(sl)(SL<3,P>&r,V3&v,const SL<3,P>&a,const SL<3,P>&b,M3&o){ r=a*b; v=r*v; v=v*a; o=r*o; o=o*a; o=SL<3,P>::generator(1); SL<3,P> i; r=i; }
NA(adj)(Vector<6,P>&u,Vector<7,P>&v,Matrix<6,6,P>&c,Matrix<7,7,P>&d,V3&w,M3&e,const SE3<P>&a,const SIM3<P>&b,const SE2<P>&f,const SO3<P>&h){ u=a.adjoint(u); u=a.trinvadjoint(u); c=a.adjoint(c); c=a.trinvadjoint(c); v=b.adjoint(v); v=b.trinvadjoint(v); d=b.adjoint(d); d=b.trinvadjoint(d); w=f.adjoint(w); e=f.adjoint(e); w=h.adjoint(w); Matrix<6,6,P> x=a.adjoint(c.T()); Matrix<7,7,P> y=b.trinvadjoint(d.T()); c=x; d=y; }
NA(mixg)(SE2<P>&a,SE3<P>&b,SIM2<P>&c,SIM3<P>&d,const SO2<P>&q,const SO3<P>&r,V3&v,Vector<4,P>&w,V2&u){ a=q*a; b=r*b; d=d*b; v=v.as_col()*w.as_row()*w; a*=a; b*=b; c*=c; d*=d; u=project(v); v=unproject(u); v=project(w); w=unproject(v); w=d*w; w=w*b; }
NA(wls)(WLS<3,P>&w,const V3&j,const P&m,const P&s){ w.clear(); w.add_prior(s); w.add_prior(j); w.add_mJ(m,j,s); WLS<3,P> z(w); w+=z; }
// an array of fixed-size objects is contiguous: the elements are the object
template<class T> T& ob(P*p){ return *reinterpret_cast<T*>(p); }
LIB(inl_v)(P(&r)[7],const P(&a)[7],const P&s){ Vector<7,P>&v=ob<Vector<7,P> >(r); for(int i=0;i<7;i++) v[i]=a[6-i]; v[3]=s; }
REF(inl_v)(P(&r)[7],const P(&a)[7],const P&s){ for(int i=0;i<7;i++) r[i]=a[6-i]; r[3]=s; }
LIB(inl_m)(P(&r)[6],P(&q)[6],const P(&a)[6]){ Matrix<2,3,P>&v=ob<Matrix<2,3,P> >(r); Matrix<2,3,P,ColMajor>&w=ob<Matrix<2,3,P,ColMajor> >(q); for(int i=0;i<6;i++){ v(i/3,i%3)=a[i]; w(i/3,i%3)=a[i]; } }
REF(inl_m)(P(&r)[6],P(&q)[6],const P(&a)[6]){ for(int i=0;i<6;i++){ r[i]=a[i]; q[i/3+i%3*2]=a[i]; } }
LIB(inl_arr)(P(&r)[9],const P(&a)[9]){ Vector<3,P>*v=reinterpret_cast<Vector<3,P>*>(r); for(int i=0;i<9;i++) v[i/3][i%3]=a[i]; }
REF(inl_arr)(P(&r)[9],const P(&a)[9]){ for(int i=0;i<9;i++) r[i]=a[i]; }
LIB(inl_ptr)(P(&r)[4],const P(&a)[3]){ Vector<3,P> v; for(int i=0;i<3;i++) v[i]=a[i]; Matrix<1,3,P> m; m[0]=v; const P*p=v.get_data_ptr(); const P*q=reinterpret_cast<const P*>(&v); const P*u=m.get_data_ptr(); r[0]=p[1]; r[1]=q[2]; r[2]=u[0]; r[3]=reinterpret_cast<const P*>(&m)[2]; }
REF(inl_ptr)(P(&r)[4],const P(&a)[3]){ r[0]=a[1]; r[1]=a[2]; r[2]=a[0]; r[3]=a[2]; }
