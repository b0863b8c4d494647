// Sums and products of vectors and matrices of complex numbers (no conjugation anywhere), and planar complex data
// FLAGS: -fcx-limited-range
// FLAGS: -fcx-limited-range -DTOON_CHECK_BOUNDS -std=gnu++20 -DQ_=float
#include "vf.h"
#include <complex>
#include <TooN/TooN.h>
#include <TooN/internal/planar_complex.hh>
using namespace TooN;
#ifndef Q_
#define Q_ double
#endif
typedef Q_ Q; typedef std::complex<Q> C; typedef const Q CQ;
struct Z{ Q r,i; };
static Z operator+(Z a,Z b){ return {a.r+b.r,a.i+b.i}; } static Z operator-(Z a,Z b){ return {a.r-b.r,a.i-b.i}; } static Z operator*(Z a,Z b){ return {a.r*b.r-a.i*b.i,a.r*b.i+a.i*b.r}; }
static Z g(CQ*a,int k){ return {a[2*k],a[2*k+1]}; } static void s(Q*a,int k,Z z){ a[2*k]=z.r; a[2*k+1]=z.i; }
template<class V> static void in(V&v,CQ*a){ for(int i=0;i<v.size();i++) v[i]=C(a[2*i],a[2*i+1]); }
template<class M> static void inm(M&m,CQ*a){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) m(i,j)=C(a[2*(i*m.num_cols()+j)],a[2*(i*m.num_cols()+j)+1]); }
template<class V> static void out(const V&v,Q*a){ for(int i=0;i<v.size();i++){ C q=v[i]; a[2*i]=q.real(); a[2*i+1]=q.imag(); } }
template<class M> static void outm(const M&m,Q*a){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++){ C q=m(i,j); int k=i*m.num_cols()+j; a[2*k]=q.real(); a[2*k+1]=q.imag(); } }
static Vector<3,C> vs(CQ*a){ Vector<3,C> v; in(v,a); return v; } static Vector<Dynamic,C> vd(CQ*a){ Vector<Dynamic,C> v(3); in(v,a); return v; } static Vector<Resizable,C> vr(CQ*a){ Vector<Resizable,C> v; v.resize(3); in(v,a); return v; }
static Matrix<3,3,C> ms(CQ*a){ Matrix<3,3,C> v; inm(v,a); return v; } static Matrix<Dynamic,Dynamic,C> md(CQ*a){ Matrix<Dynamic,Dynamic,C> v(3,3); inm(v,a); return v; } static Matrix<3,3,C,ColMajor> mc(CQ*a){ Matrix<3,3,C,ColMajor> v; inm(v,a); return v; }
#define J2(a,b) a##_##b
#define J(a,b) J2(a,b)
// vector by vector, three kinds of left and right operand
#define VV(n,x,y) LIB(J(dot,n))(Q(&r)[2],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); C d=p*q; r[0]=d.real(); r[1]=d.imag(); } REF(J(dot,n))(Q(&r)[2],CQ(&a)[6],CQ(&b)[6]){ Z q={0,0}; for(int i=0;i<3;i++) q=q+g(a,i)*g(b,i); s(r,0,q); } \
 LIB(J(sum,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); out(Vector<3,C>(p+q),r); } REF(J(sum,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ for(int i=0;i<3;i++) s(r,i,g(a,i)+g(b,i)); } \
 LIB(J(dif,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); p-=q; out(p,r); } REF(J(dif,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ for(int i=0;i<3;i++) s(r,i,g(a,i)-g(b,i)); } \
 LIB(J(outer,n))(Q(&r)[18],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); outm(Matrix<3,3,C>(p.as_col()*q.as_row()),r); } REF(J(outer,n))(Q(&r)[18],CQ(&a)[6],CQ(&b)[6]){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) s(r,3*i+j,g(a,i)*g(b,j)); } \
 LIB(J(diag,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); out(Vector<3,C>(p.as_diagonal()*q),r); } REF(J(diag,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[6]){ for(int i=0;i<3;i++) s(r,i,g(a,i)*g(b,i)); } \
 LIB(J(eq,n))(int(&r)[2],CQ(&a)[6],CQ(&b)[6]){ auto p=x(a); auto q=y(b); r[0]=p==q; r[1]=p!=q; } REF(J(eq,n))(int(&r)[2],CQ(&a)[6],CQ(&b)[6]){ int e=1; for(int i=0;i<6;i++) if(!(a[i]==b[i])) { e=0; break; } r[0]=e; r[1]=!e; }
VV(ss,vs,vs) VV(sd,vs,vd) VV(ds,vd,vs) VV(dd,vd,vd) VV(rs,vr,vs) VV(sr,vs,vr)
#define VM(n,x,m) LIB(J(mv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ auto p=x(a); auto q=m(b); out(Vector<3,C>(q*p),r); } REF(J(mv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ for(int i=0;i<3;i++){ Z q={0,0}; for(int k=0;k<3;k++) q=q+g(b,3*i+k)*g(a,k); s(r,i,q); } } \
 LIB(J(vm,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ auto p=x(a); auto q=m(b); out(Vector<3,C>(p*q),r); } REF(J(vm,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ for(int i=0;i<3;i++){ Z q={0,0}; for(int k=0;k<3;k++) q=q+g(a,k)*g(b,3*k+i); s(r,i,q); } } \
 LIB(J(tv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ auto p=x(a); auto q=m(b); out(Vector<3,C>(q.T()*p),r); } REF(J(tv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[18]){ for(int i=0;i<3;i++){ Z q={0,0}; for(int k=0;k<3;k++) q=q+g(b,3*k+i)*g(a,k); s(r,i,q); } }
VM(ss,vs,ms) VM(sd,vs,md) VM(ds,vd,ms) VM(dd,vd,md) VM(sc,vs,mc)
#define MM(n,x,y) LIB(J(mm,n))(Q(&r)[18],CQ(&a)[18],CQ(&b)[18]){ auto p=x(a); auto q=y(b); outm(Matrix<3,3,C>(p*q),r); } REF(J(mm,n))(Q(&r)[18],CQ(&a)[18],CQ(&b)[18]){ for(int i=0;i<3;i++) for(int j=0;j<3;j++){ Z q={0,0}; for(int k=0;k<3;k++) q=q+g(a,3*i+k)*g(b,3*k+j); s(r,3*i+j,q); } } \
 LIB(J(msub,n))(Q(&r)[18],CQ(&a)[18],CQ(&b)[18]){ auto p=x(a); auto q=y(b); outm(Matrix<3,3,C>(p.T()-q),r); } REF(J(msub,n))(Q(&r)[18],CQ(&a)[18],CQ(&b)[18]){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) s(r,3*i+j,g(a,3*j+i)-g(b,3*i+j)); }
MM(ss,ms,ms) MM(sd,ms,md) MM(dd,md,md) MM(cs,mc,ms) MM(sc,ms,mc)
LIB(scal)(Q(&r)[6],CQ(&a)[6],CQ(&b)[2]){ auto v=vs(a); C k(b[0],b[1]); out(Vector<3,C>(v*k),r); } REF(scal)(Q(&r)[6],CQ(&a)[6],CQ(&b)[2]){ for(int i=0;i<3;i++) s(r,i,g(a,i)*g(b,0)); }
LIB(lscal)(Q(&r)[6],CQ(&a)[6],CQ(&b)[2]){ auto v=vd(a); C k(b[0],b[1]); out(Vector<3,C>(k*v),r); } REF(lscal)(Q(&r)[6],CQ(&a)[6],CQ(&b)[2]){ for(int i=0;i<3;i++) s(r,i,g(b,0)*g(a,i)); }
LIB(neg)(Q(&r)[6],CQ(&a)[6]){ auto v=vd(a); out(Vector<3,C>(-v),r); } REF(neg)(Q(&r)[6],CQ(&a)[6]){ for(int i=0;i<6;i++) r[i]=-a[i]; }
LIB(ims)(Q(&r)[18],CQ(&a)[18],CQ(&b)[2]){ auto m=md(a); m*=C(b[0],b[1]); outm(m,r); } REF(ims)(Q(&r)[18],CQ(&a)[18],CQ(&b)[2]){ for(int i=0;i<9;i++) s(r,i,g(a,i)*g(b,0)); }
LIB(zero)(Q(&r)[6],CQ(&a)[6]){ Vector<3,C> v=Zeros; v[1]+=C(a[2],a[3]); out(v,r); } REF(zero)(Q(&r)[6],CQ(&a)[6]){ for(int i=0;i<6;i++) r[i]=0; r[2]=a[2]; r[3]=a[3]; }
LIB(copies)(Q(&r)[12],CQ(&a)[6]){ auto v=vd(a); auto w=v; w[0]=C(a[2],a[0]); Vector<Resizable,C> z=w; z.resize(2); z=v; out(w,r); out(z,r+6); } REF(copies)(Q(&r)[12],CQ(&a)[6]){ for(int i=0;i<6;i++) r[i]=r[6+i]=a[i]; r[0]=a[2]; r[1]=a[0]; }
// separate arrays of real and imaginary parts
#define PL(n,T,mk) LIB(J(planar,n))(Q(&r)[18],T(&re)[4],T(&im)[4]){ mk; out(v,r); C x=v[2]; r[8]=x.real(); r[9]=x.imag(); out(v.template slice<1,2>(),r+10); out(v.slice(2,2),r+14); } REF(J(planar,n))(Q(&r)[18],T(&re)[4],T(&im)[4]){ for(int i=0;i<4;i++){ r[2*i]=re[i]; r[2*i+1]=im[i]; } r[8]=re[2]; r[9]=im[2]; for(int i=0;i<2;i++){ r[10+2*i]=re[1+i]; r[11+2*i]=im[1+i]; r[14+2*i]=re[2+i]; r[15+2*i]=im[2+i]; } }
#define MC_ ,
PL(fix,Q,Vector<4 MC_ C MC_ ReferencePlanarComplex> v(std::make_pair(&re[0],&im[0])))
PL(cfix,CQ,const Vector<4 MC_ C MC_ ReferencePlanarComplex> v(std::make_pair(&re[0],&im[0])))
PL(dyn,Q,Vector<Dynamic MC_ C MC_ ReferencePlanarComplex> v(std::make_pair(&re[0],&im[0]) MC_ 4))
LIB(planardot)(Q(&r)[2],CQ(&a)[6],CQ(&re)[3],CQ(&im)[3]){ auto p=vs(a); Vector<3,C,ReferencePlanarComplex> v(std::make_pair(&re[0],&im[0])); C d=p*v; r[0]=d.real(); r[1]=d.imag(); } REF(planardot)(Q(&r)[2],CQ(&a)[6],CQ(&re)[3],CQ(&im)[3]){ Z q={0,0}; for(int i=0;i<3;i++) q=q+g(a,i)*Z{re[i],im[i]}; s(r,0,q); }
LIB(planarmat)(Q(&r)[6],CQ(&a)[18],CQ(&re)[3],CQ(&im)[3]){ auto p=ms(a); Vector<3,C,ReferencePlanarComplex> v(std::make_pair(&re[0],&im[0])); out(Vector<3,C>(p*v),r); } REF(planarmat)(Q(&r)[6],CQ(&a)[18],CQ(&re)[3],CQ(&im)[3]){ for(int i=0;i<3;i++){ Z q={0,0}; for(int k=0;k<3;k++) q=q+g(a,3*i+k)*Z{re[k],im[k]}; s(r,i,q); } }
#define MS(n,m) LIB(J(mneg,n))(Q(&r)[18],CQ(&a)[18]){ auto p=m(a); outm(Matrix<3,3,C>(-p),r); } REF(J(mneg,n))(Q(&r)[18],CQ(&a)[18]){ for(int i=0;i<18;i++) r[i]=-a[i]; } \
 LIB(J(scale,n))(Q(&r)[18],CQ(&a)[18],CQ(&k)[1]){ auto p=m(a); outm(Matrix<3,3,C>(k[0]*p.T()),r); } REF(J(scale,n))(Q(&r)[18],CQ(&a)[18],CQ(&k)[1]){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) s(r,3*i+j,{k[0]*a[2*(3*j+i)],k[0]*a[2*(3*j+i)+1]}); } \
 LIB(J(row,n))(Q(&r)[6],CQ(&a)[18]){ auto p=m(a); p[2]-=p[1]; out(Vector<3,C>(-p.T()[2]),r); p.T()[0]=Zeros; } REF(J(row,n))(Q(&r)[6],CQ(&a)[18]){ for(int i=0;i<3;i++){ Z z=g(a,3*i+2); if(i==2) z=z-g(a,5); s(r,i,{-z.r,-z.i}); } }
MS(s,ms) MS(d,md) MS(c,mc)
#define RV(n,x) LIB(J(realv,n))(Q(&r)[2],CQ(&a)[6],CQ(&b)[3]){ auto p=x(a); Vector<3,Q> q; for(int i=0;i<3;i++) q[i]=b[i]; C d=p*q; r[0]=d.real(); r[1]=d.imag(); } REF(J(realv,n))(Q(&r)[2],CQ(&a)[6],CQ(&b)[3]){ Z q={0,0}; for(int i=0;i<3;i++) q=q+Z{a[2*i]*b[i],a[2*i+1]*b[i]}; s(r,0,q); } \
 LIB(J(rsum,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[3]){ auto p=x(a); Vector<3,Q> q; for(int i=0;i<3;i++) q[i]=b[i]; out(Vector<3,C>(q+p),r); } REF(J(rsum,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[3]){ for(int i=0;i<3;i++){ r[2*i]=a[2*i]+b[i]; r[2*i+1]=a[2*i+1]; } } \
 LIB(J(vdiv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[1]){ auto p=x(a); out(Vector<3,C>(p/b[0]),r); } REF(J(vdiv,n))(Q(&r)[6],CQ(&a)[6],CQ(&b)[1]){ for(int i=0;i<6;i++) r[i]=a[i]/b[0]; }
RV(s,vs) RV(d,vd) RV(r,vr)
