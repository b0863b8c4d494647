// Products, inverses and actions of every group against plain homogeneous matrices
// FLAGS: 
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "groups.h"
using namespace TooN; using namespace gr;
#define MC ,
// ---- identity, copies, products (both operands anything, including the same object), in-place products
#define GROUP(n,G,H) \
 LIB(ident_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q){ G::Obj g; G::out(g,r); G::Obj h=g*g; G::out(h,q); } \
 REF(ident_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q){ for(int i=0;i<G::N*G::N;i++) r[i]=q[i]=i%(G::N+1)==0; } \
 LIB(prod_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ const G::Obj x=G::make(a),y=G::make(b); const G::Obj z=x*y; G::out(z,r); } \
 REF(prod_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ P x[G::N*G::N],y[G::N*G::N]; G::ref(a,x); G::ref(b,y); mul<G::N,G::N,G::N>(x,y,r); } \
 LIB(prod3_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b,const Arr<P,G::K>&c){ G::Obj x=G::make(a),y=G::make(b),z=G::make(c); x=x*y*z; G::out(x,r); } \
 REF(prod3_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b,const Arr<P,G::K>&c){ P x[G::N*G::N],y[G::N*G::N],z[G::N*G::N],w[G::N*G::N]; G::ref(a,x); G::ref(b,y); G::ref(c,z); mul<G::N,G::N,G::N>(x,y,w); mul<G::N,G::N,G::N>(w,z,r); } \
 LIB(inpl_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ G::Obj x=G::make(a); const G::Obj y=G::make(b); x*=y; G::out(x,r); G::out(y,q); } \
 REF(inpl_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ P x[G::N*G::N],y[G::N*G::N]; G::ref(a,x); G::ref(b,y); mul<G::N,G::N,G::N>(x,y,r); for(int i=0;i<G::N*G::N;i++) q[i]=y[i]; } \
 LIB(chain_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ G::Obj x=G::make(a); const G::Obj y=G::make(b); (x*=y)*=y; G::out(x,r); } \
 REF(chain_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ P x[G::N*G::N],y[G::N*G::N],w[G::N*G::N]; G::ref(a,x); G::ref(b,y); mul<G::N,G::N,G::N>(x,y,w); mul<G::N,G::N,G::N>(w,y,r); } \
 LIB(self_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ G::Obj x=G::make(a); x*=x; G::out(x,r); } \
 REF(self_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ P x[G::N*G::N]; G::ref(a,x); mul<G::N,G::N,G::N>(x,x,r); } \
 LIB(cpy_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a){ G::Obj x=G::make(a),y(x),z; z=y; x=G::Obj(); G::out(y,r); G::out(z,q); } \
 REF(cpy_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a){ G::ref(a,r); G::ref(a,q); }
#define INVG(n,G,H) \
 LIB(inv_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ const G::Obj x=G::make(a); const G::Obj y=x.inverse(); G::out(y,r); } \
 REF(inv_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ P x[G::N*G::N]; G::ref(a,x); inv<G::N,H>(x,r); } \
 LIB(undo_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a){ G::Obj x=G::make(a); G::Obj y=x.inverse()*x, z=x*x.inverse(); G::out(y,r); G::out(z,q); } \
 REF(undo_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a){ P x[G::N*G::N]; G::ref(a,x); for(int i=0;i<G::N*G::N;i++) r[i]=q[i]=i%(G::N+1)==0; }
// ---- action on vectors and matrices of the full (homogeneous) size, by views of any kind
#define ACT(n,G) \
 LIB(vecr_##n)(Vector<G::N,P>&r,const Arr<P,G::K>&a,const Vector<G::N,P>&v){ const G::Obj x=G::make(a); r=x*v; } \
 REF(vecr_##n)(Vector<G::N,P>&r,const Arr<P,G::K>&a,const Vector<G::N,P>&v){ P x[G::N*G::N]; G::ref(a,x); P o[G::N]; const P*q=reinterpret_cast<const P*>(&v); mul<G::N,G::N,1>(x,q,o); for(int i=0;i<G::N;i++) r[i]=o[i]; } \
 LIB(vecl_##n)(Vector<G::N,P>&r,const Arr<P,G::K>&a,const Vector<G::N,P>&v){ const G::Obj x=G::make(a); r=v*x; } \
 REF(vecl_##n)(Vector<G::N,P>&r,const Arr<P,G::K>&a,const Vector<G::N,P>&v){ P x[G::N*G::N]; G::ref(a,x); P o[G::N]; const P*q=reinterpret_cast<const P*>(&v); mul<1,G::N,G::N>(q,x,o); for(int i=0;i<G::N;i++) r[i]=o[i]; } \
 LIB(self_vec_##n)(Vector<G::N,P>&r,Vector<G::N,P>&q,const Arr<P,G::K>&a){ const G::Obj x=G::make(a); r=x*r; q=q*x; } \
 REF(self_vec_##n)(Vector<G::N,P>&r,Vector<G::N,P>&q,const Arr<P,G::K>&a){ P x[G::N*G::N],o[G::N],p[G::N]; G::ref(a,x); mul<G::N,G::N,1>(x,reinterpret_cast<const P*>(&r),o); mul<1,G::N,G::N>(reinterpret_cast<const P*>(&q),x,p); for(int i=0;i<G::N;i++){ r[i]=o[i]; q[i]=p[i]; } } \
 LIB(view_##n)(Arr<P,G::N>&r,Arr<P,G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::N*3>&m){ const G::Obj x=G::make(a); Matrix<G::N,3,P> c; for(int i=0;i<G::N;i++) for(int j=0;j<3;j++) c(i,j)=m[i*3+j]; Vector<G::N,P> u=x*c.T()[1],w=c.T()[2]*x; Vector<Dynamic,P> d(G::N); d=c.T()[0]; Vector<G::N,P> e=x*d,f=d*x; for(int i=0;i<G::N;i++){ r[i]=u[i]+3*e[i]; q[i]=w[i]+3*f[i]; } } \
 REF(view_##n)(Arr<P,G::N>&r,Arr<P,G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::N*3>&m){ P x[G::N*G::N]; G::ref(a,x); for(int i=0;i<G::N;i++){ P s=0,t=0; for(int j=0;j<G::N;j++){ s+=x[i*G::N+j]*(m[j*3+1]+3*m[j*3]); t+=x[j*G::N+i]*(m[j*3+2]+3*m[j*3]); } r[i]=s; q[i]=t; } } \
 LIB(mat_##n)(Matrix<G::N,G::N,P>&r,Matrix<G::N,G::N,P>&q,const Arr<P,G::K>&a,const Matrix<G::N,G::N,P>&m){ const G::Obj x=G::make(a); r=x*m; q=m*x; } \
 REF(mat_##n)(Matrix<G::N,G::N,P>&r,Matrix<G::N,G::N,P>&q,const Arr<P,G::K>&a,const Matrix<G::N,G::N,P>&m){ P x[G::N*G::N]; G::ref(a,x); mul<G::N,G::N,G::N>(x,reinterpret_cast<const P*>(&m),reinterpret_cast<P*>(&r)); mul<G::N,G::N,G::N>(reinterpret_cast<const P*>(&m),x,reinterpret_cast<P*>(&q)); } \
 LIB(matd_##n)(Arr<P,G::N*2>&r,Arr<P,G::N*2>&q,const Arr<P,G::K>&a,const Arr<P,G::N*2>&m){ const G::Obj x=G::make(a); Matrix<Dynamic,Dynamic,P> c(G::N,2); for(int i=0;i<G::N;i++) for(int j=0;j<2;j++) c(i,j)=m[i*2+j]; Matrix<G::N,2,P,ColMajor> e=x*c; Matrix<2,G::N,P> f=c.T()*x; for(int i=0;i<G::N;i++) for(int j=0;j<2;j++){ r[i*2+j]=e(i,j); q[j*G::N+i]=f(j,i); } } \
 REF(matd_##n)(Arr<P,G::N*2>&r,Arr<P,G::N*2>&q,const Arr<P,G::K>&a,const Arr<P,G::N*2>&m){ P x[G::N*G::N]; G::ref(a,x); for(int i=0;i<G::N;i++) for(int j=0;j<2;j++){ P s=0,t=0; for(int k=0;k<G::N;k++){ s+=x[i*G::N+k]*m[k*2+j]; t+=x[k*G::N+i]*m[k*2+j]; } r[i*2+j]=s; q[j*G::N+i]=t; } }
// ---- action on points of the space the group acts on
#define PNT(n,G) \
 LIB(pnt_##n)(Vector<G::N-1,P>&r,Vector<G::N-1,P>&q,const Arr<P,G::K>&a,const Vector<G::N-1,P>&v){ const G::Obj x=G::make(a); r=x*v; q=x*q; } \
 REF(pnt_##n)(Vector<G::N-1,P>&r,Vector<G::N-1,P>&q,const Arr<P,G::K>&a,const Vector<G::N-1,P>&v){ P x[G::N*G::N]; G::ref(a,x); P o[G::N-1]; for(int i=0;i<G::N-1;i++){ P s=x[i*G::N+G::N-1],t=s; for(int j=0;j<G::N-1;j++){ s+=x[i*G::N+j]*v[j]; t+=x[i*G::N+j]*q[j]; } r[i]=s; o[i]=t; } for(int i=0;i<G::N-1;i++) q[i]=o[i]; } \
 LIB(pntv_##n)(Arr<P,G::N-1>&r,const Arr<P,G::K>&a,const Arr<P,(G::N-1)*2>&m){ const G::Obj x=G::make(a); Matrix<G::N-1,2,P> c; for(int i=0;i<G::N-1;i++) for(int j=0;j<2;j++) c(i,j)=m[i*2+j]; Vector<G::N-1,P> u=x*c.T()[1]; for(int i=0;i<G::N-1;i++) r[i]=u[i]; } \
 REF(pntv_##n)(Arr<P,G::N-1>&r,const Arr<P,G::K>&a,const Arr<P,(G::N-1)*2>&m){ P x[G::N*G::N]; G::ref(a,x); for(int i=0;i<G::N-1;i++){ P s=x[i*G::N+G::N-1]; for(int j=0;j<G::N-1;j++) s+=x[i*G::N+j]*m[j*2+1]; r[i]=s; } }
// ---- parts: constructors, accessors
#define ALL(n,G,H) GROUP(n,G,H) INVG(n,G,H) ACT(n,G)
ALL(so2,So2,false) ALL(so3,So3,false) ALL(se2,Se2,true) PNT(se2,Se2) ALL(se3,Se3,true) PNT(se3,Se3)
ALL(sim2,Sim2,true) PNT(sim2,Sim2) ALL(sim3,Sim3,true) PNT(sim3,Sim3)
GROUP(sl2,Sl<2>,false) ACT(sl2,Sl<2>) GROUP(sl3,Sl<3>,false) ACT(sl3,Sl<3>) GROUP(sl4,Sl<4>,false) ACT(sl4,Sl<4>)
#define LMUL(n,G) \
 LIB(lmul_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ G::Obj x=G::make(a); const G::Obj y=G::make(b); x.left_multiply_by(y); G::out(x,r); G::out(y,q); } \
 REF(lmul_##n)(Arr<P,G::N*G::N>&r,Arr<P,G::N*G::N>&q,const Arr<P,G::K>&a,const Arr<P,G::K>&b){ P x[G::N*G::N],y[G::N*G::N]; G::ref(a,x); G::ref(b,y); mul<G::N,G::N,G::N>(y,x,r); for(int i=0;i<G::N*G::N;i++) q[i]=y[i]; } \
 LIB(lmself_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ G::Obj x=G::make(a); x.left_multiply_by(x); G::out(x,r); } \
 REF(lmself_##n)(Arr<P,G::N*G::N>&r,const Arr<P,G::K>&a){ P x[G::N*G::N]; G::ref(a,x); mul<G::N,G::N,G::N>(x,x,r); }
LMUL(se3,Se3) LMUL(sim3,Sim3)
// rotation followed by a transformation
#define ROTL(n,G,R,h) \
 LIB(rotl_##n)(Arr<P,G::N*G::N>&r,const Arr<P,R::K>&a,const Arr<P,G::K>&b){ const R::Obj x=R::make(a); const G::Obj y=G::make(b); G::Obj z=x*y; G::out(z,r); } \
 REF(rotl_##n)(Arr<P,G::N*G::N>&r,const Arr<P,R::K>&a,const Arr<P,G::K>&b){ P x[h*h],z[h],e[G::N*G::N],y[G::N*G::N]; R::ref(a,x); for(int i=0;i<h;i++) z[i]=0; hom<h>(x,z,1,e); G::ref(b,y); mul<G::N,G::N,G::N>(e,y,r); }
ROTL(se2,Se2,So2,2) ROTL(se3,Se3,So3,3)
LIB(simse)(Arr<P,16>&r,const Arr<P,Sim3::K>&a,const Arr<P,Se3::K>&b){ const SIM3<P> x=Sim3::make(a); const SE3<P> y=Se3::make(b); const SIM3<P> z=x*y; Sim3::out(z,r); }
REF(simse)(Arr<P,16>&r,const Arr<P,Sim3::K>&a,const Arr<P,Se3::K>&b){ P x[16],y[16]; Sim3::ref(a,x); Se3::ref(b,y); mul<4,4,4>(x,y,r); }
// parts
LIB(part_se2)(Arr<P,9>&r,Arr<P,9>&q,const Arr<P,1>&a,const Vector<2,P>&t){ const SO2<P> R=So2::make(a); SE2<P> x(R,t); Se2::out(x,r); SE2<P> y; y.get_rotation()=R; y.get_translation()=t; const SE2<P>&z=y; SE2<P> w(z.get_rotation(),z.get_translation()); Se2::out(w,q); }
REF(part_se2)(Arr<P,9>&r,Arr<P,9>&q,const Arr<P,1>&a,const Vector<2,P>&t){ P x[4]; So2::ref(a,x); P u[2]={t[0],t[1]}; hom<2>(x,u,1,r); hom<2>(x,u,1,q); }
LIB(part_se3)(Arr<P,16>&r,Arr<P,16>&q,const Arr<P,4>&a,const Vector<3,P>&t){ const SO3<P> R=So3::make(a); SE3<P> x(R,t); Se3::out(x,r); SE3<P> y; y.get_rotation()=R; y.get_translation()=t; const SE3<P>&z=y; SE3<P> w(z.get_rotation(),z.get_translation()); Se3::out(w,q); }
REF(part_se3)(Arr<P,16>&r,Arr<P,16>&q,const Arr<P,4>&a,const Vector<3,P>&t){ P x[9]; So3::ref(a,x); P u[3]={t[0],t[1],t[2]}; hom<3>(x,u,1,r); hom<3>(x,u,1,q); }
LIB(part_sim2)(Arr<P,9>&r,Arr<P,9>&q,const Arr<P,1>&a,const Vector<2,P>&t,const P&s){ const SO2<P> R=So2::make(a); SIM2<P> x(R,t,s); Sim2::out(x,r); SIM2<P> y; y.get_rotation()=R; y.get_translation()=t; y.get_scale()=s; const SIM2<P>&z=y; SIM2<P> w(z.get_rotation(),z.get_translation(),z.get_scale()); Sim2::out(w,q); }
REF(part_sim2)(Arr<P,9>&r,Arr<P,9>&q,const Arr<P,1>&a,const Vector<2,P>&t,const P&s){ P x[4]; So2::ref(a,x); P u[2]={t[0],t[1]}; hom<2>(x,u,s,r); hom<2>(x,u,s,q); }
LIB(part_sim3)(Arr<P,16>&r,Arr<P,16>&q,const Arr<P,4>&a,const Vector<3,P>&t,const P&s){ const SO3<P> R=So3::make(a); SIM3<P> x(R,t,s); Sim3::out(x,r); SIM3<P> y; y.get_rotation()=R; y.get_translation()=t; y.get_scale()=s; const SIM3<P>&z=y; SIM3<P> w(z.get_rotation(),z.get_translation(),z.get_scale()); Sim3::out(w,q); }
REF(part_sim3)(Arr<P,16>&r,Arr<P,16>&q,const Arr<P,4>&a,const Vector<3,P>&t,const P&s){ P x[9]; So3::ref(a,x); P u[3]={t[0],t[1],t[2]}; hom<3>(x,u,s,r); hom<3>(x,u,s,q); }
LIB(idas)(Arr<P,16>&r,const Arr<P,8>&a){ SIM3<P> x=Sim3::make(a); x=Identity; Sim3::out(x,r); }
REF(idas)(Arr<P,16>&r,const Arr<P,8>&a){ for(int i=0;i<16;i++) r[i]=i%5==0; }
LIB(getm)(Arr<P,4>&r,Arr<P,9>&q,Arr<P,9>&u,const Arr<P,1>&a,const Arr<P,4>&b,const Arr<P,9>&c){ SO2<P> x=So2::make(a); SO3<P> y=So3::make(b); SL<3,P> z=Sl<3>::make(c); for(int i=0;i<4;i++) r[i]=x.get_matrix()(i/2,i%2); for(int i=0;i<9;i++){ q[i]=y.get_matrix()[i/3][i%3]; u[i]=z.get_matrix()[i/3][i%3]; } }
REF(getm)(Arr<P,4>&r,Arr<P,9>&q,Arr<P,9>&u,const Arr<P,1>&a,const Arr<P,4>&b,const Arr<P,9>&c){ So2::ref(a,r); So3::ref(b,q); Sl<3>::ref(c,u); }
// SL: inverse solves A x = 1 whatever the pivots; a matrix is scaled to unit determinant
LIB(slinv2)(Arr<P,4>&r,const Arr<P,4>&a){ vf_assume(a[0]*a[3]-a[1]*a[2]!=0); const SL<2,P> x=Sl<2>::make(a); const SL<2,P> y=x.inverse(); Sl<2>::out(y,r); }
REF(slinv2)(Arr<P,4>&r,const Arr<P,4>&a){ P d=a[0]*a[3]-a[1]*a[2]; vf_assume(d!=0); r[0]=a[3]/d; r[1]=-a[1]/d; r[2]=-a[2]/d; r[3]=a[0]/d; }
LIB(slinv3)(Arr<P,9>&r,const Arr<P,9>&a){ const SL<3,P> x=Sl<3>::make(a); const SL<3,P> y=x.inverse(); P o[9]; Sl<3>::out(y,o); mul<3,3,3>(a,o,r); }
REF(slinv3)(Arr<P,9>&r,const Arr<P,9>&a){ for(int i=0;i<9;i++) r[i]=i%4==0; (void)a; }
// mixed precision: the result is the product in the wider precision
#ifdef MIXED
#endif
