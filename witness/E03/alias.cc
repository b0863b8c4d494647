// Statements whose operands share elements with the destination use the values from before the statement
// FLAGS:
// FLAGS: -DTOON_INITIALIZE_SNAN -DTOON_CHECK_BOUNDS
#include "shapes.h"
using namespace sh;
typedef double D; typedef const double CD;
#define EV(n) for(int i=0;i<n;i++)
// self assignment and compound self-updates, every storage
#define SELFV(S) \
LIB(CAT(selfv_,S))(Arr<D,S<3>::N>&a,CD&s){ S<3>::with(a,[&](auto&v){ v=v; v+=v; v=v*s; v-=v*s; v=v+v; v=-v; v=v/s; v=s*v-v; }); } REF(CAT(selfv_,S))(Arr<D,S<3>::N>&a,CD&s){ EV(3){ D&v=a[S<3>::pos(i)]; v=-(2*((2*v)*s-(2*v)*s*s))/s; v=s*v-v; } } \
LIB(CAT(selfs_,S))(Arr<D,S<3>::N>&a){ S<3>::with(a,[&](auto&v){ auto w=v.slice(0,3); v=w; v+=w; w=v+w; v=w.as_slice(); v-=v; }); } REF(CAT(selfs_,S))(Arr<D,S<3>::N>&a){ EV(3) a[S<3>::pos(i)]=0; } \
LIB(CAT(selfself_,S))(Arr<D,S<3>::N>&a,CD&s){ S<3>::with(a,[&](auto&v){ v-=v/s; }); } REF(CAT(selfself_,S))(Arr<D,S<3>::N>&a,CD&s){ EV(3) a[S<3>::pos(i)]-=a[S<3>::pos(i)]/s; } \
LIB(CAT(cross_,S))(Arr<D,S<3>::N>&a,const Vector<3>&b){ S<3>::with(a,[&](auto&v){ auto w=v.template slice<0,3>(); w=w^b; w=b^w; }); } REF(CAT(cross_,S))(Arr<D,S<3>::N>&a,CD(&b)[3]){ D x=a[S<3>::pos(0)],y=a[S<3>::pos(1)],z=a[S<3>::pos(2)]; D p=y*b[2]-z*b[1],q=z*b[0]-x*b[2],r=x*b[1]-y*b[0]; a[S<3>::pos(0)]=b[1]*r-b[2]*q; a[S<3>::pos(1)]=b[2]*p-b[0]*r; a[S<3>::pos(2)]=b[0]*q-b[1]*p; } \
LIB(CAT(mv_,S))(Arr<D,S<3>::N>&a,const Matrix<3>&b){ S<3>::with(a,[&](auto&v){ v=b*v; }); } REF(CAT(mv_,S))(Arr<D,S<3>::N>&a,CD(&b)[9]){ D t[3]; EV(3) t[i]=a[S<3>::pos(i)]; EV(3) a[S<3>::pos(i)]=b[3*i]*t[0]+b[3*i+1]*t[1]+b[3*i+2]*t[2]; } \
LIB(CAT(vm_,S))(Arr<D,S<3>::N>&a,const Matrix<3>&b){ S<3>::with(a,[&](auto&v){ v=v*b+v; v+=diagmult(v,v); }); } REF(CAT(vm_,S))(Arr<D,S<3>::N>&a,CD(&b)[9]){ D t[3]; EV(3) t[i]=a[S<3>::pos(i)]; EV(3){ D z=t[0]*b[i]+t[1]*b[3+i]+t[2]*b[6+i]+t[i]; a[S<3>::pos(i)]=z+z*z; } }
SELFV(VFix) SELFV(VRef) SELFV(VDyn) SELFV(VOwn) SELFV(VRsz) SELFV(VSub) SELFV(VSubD) SELFV(VCol) SELFV(VColD) SELFV(VRow) SELFV(VDiag) SELFV(VStrSubD)
#define EM for(int i=0;i<2;i++) for(int j=0;j<2;j++)
#define MP(S) a[S<2,2>::pos(i,j)]
#define MC ,
#define LOADM(S) D t[2][2]; EM t[i][j]=a[S<2,2>::pos(i,j)];
#define SELFM(S) \
LIB(CAT(selfm_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ S<2,2>::with(a,[&](auto&m){ m=m; m+=m; m=m*s; m-=m*s; m=m+m; m=-m; m=m/s; m=s*m-m; }); } REF(CAT(selfm_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ EM{ D&v=a[S<2 MC 2>::pos(i,j)]; v=-(2*((2*v)*s-(2*v)*s*s))/s; v=s*v-v; } } \
LIB(CAT(sq_,S))(Arr<D,S<2 MC 2>::N>&a){ S<2,2>::with(a,[&](auto&m){ m=m*m; }); } REF(CAT(sq_,S))(Arr<D,S<2 MC 2>::N>&a){ LOADM(S) EM MP(S)=t[i][0]*t[0][j]+t[i][1]*t[1][j]; } \
LIB(CAT(sqpe_,S))(Arr<D,S<2 MC 2>::N>&a){ S<2,2>::with(a,[&](auto&m){ m+=m*m; }); } REF(CAT(sqpe_,S))(Arr<D,S<2 MC 2>::N>&a){ LOADM(S) EM MP(S)=t[i][j]+t[i][0]*t[0][j]+t[i][1]*t[1][j]; } \
LIB(CAT(mtm_,S))(Arr<D,S<2 MC 2>::N>&a){ S<2,2>::with(a,[&](auto&m){ m=m.T()*m; }); } REF(CAT(mtm_,S))(Arr<D,S<2 MC 2>::N>&a){ LOADM(S) EM MP(S)=t[0][i]*t[0][j]+t[1][i]*t[1][j]; } \
LIB(CAT(symT_,S))(Arr<D,S<2 MC 2>::N>&a){ S<2,2>::with(a,[&](auto&m){ m=m+m.T(); }); } REF(CAT(symT_,S))(Arr<D,S<2 MC 2>::N>&a){ LOADM(S) EM MP(S)=t[i][j]+t[j][i]; } \
LIB(CAT(addIT_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ S<2,2>::with(a,[&](auto&m){ m-=m.T()*s; }); } REF(CAT(addIT_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ LOADM(S) EM MP(S)=t[i][j]-t[j][i]*s; } \
LIB(CAT(rowupd_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ S<2,2>::with(a,[&](auto&m){ m[1]=m[1]-m[0]*s; m[0]+=m[1]; m.T()[1]*=s; m[0]=m*m[0]; }); } REF(CAT(rowupd_,S))(Arr<D,S<2 MC 2>::N>&a,CD&s){ LOADM(S) for(int j=0;j<2;j++){ t[1][j]-=t[0][j]*s; t[0][j]+=t[1][j]; } t[0][1]*=s;t[1][1]*=s; D p=t[0][0]*t[0][0]+t[0][1]*t[0][1],q=t[1][0]*t[0][0]+t[1][1]*t[0][1]; t[0][0]=p;t[0][1]=q; EM MP(S)=t[i][j]; } \
LIB(CAT(diagm_,S))(Arr<D,S<2 MC 2>::N>&a){ S<2,2>::with(a,[&](auto&m){ m=diagmult(m[0],m); m=m*m.diagonal_slice().as_diagonal(); }); } REF(CAT(diagm_,S))(Arr<D,S<2 MC 2>::N>&a){ LOADM(S) D u[2][2]; EM u[i][j]=t[0][i]*t[i][j]; EM MP(S)=u[i][j]*u[j][j]; } \
LIB(CAT(ctor_,S))(Arr<D,S<2 MC 2>::N>&a,D(&o)[4]){ S<2,2>::with(a,[&](auto&m){ Matrix<2> c(m.T()); Matrix<2> e=m*m; Matrix<> f(m.T()*2); m=c; wrapMatrix(o,2,2)=e+f; }); } REF(CAT(ctor_,S))(Arr<D,S<2 MC 2>::N>&a,D(&o)[4]){ LOADM(S) EM MP(S)=t[j][i]; EM o[2*i+j]=t[i][0]*t[0][j]+t[i][1]*t[1][j]+2*t[j][i]; }
SELFM(MFix) SELFM(MFixC) SELFM(MDyn) SELFM(MDynC) SELFM(MT) SELFM(MTD) SELFM(MSub) SELFM(MSubD) SELFM(MSubT) SELFM(MSubC) SELFM(MRowDyn) SELFM(MColDyn) SELFM(MRef) SELFM(MOwn) SELFM(MOwnC)
// scalar operands that are elements of the destination, for the value-returning forms
LIB(scaleel)(Vector<3>&v,Matrix<2>&m){ v=v*v[0]; v=v/v[1]; v=v[2]*v; m=m*m(0,0); m=m(1,1)*m; m=m/m(0,1); } REF(scaleel)(D(&v)[3],D(&m)[4]){ D s=v[0]; EV(3) v[i]*=s; s=v[1]; EV(3) v[i]/=s; s=v[2]; EV(3) v[i]*=s; s=m[0]; EV(4) m[i]*=s; s=m[3]; EV(4) m[i]*=s; s=m[1]; EV(4) m[i]/=s; }
// compound scalar updates take the scalar by value, so an element of the object may be used
LIB(scaleself)(Vector<3>&v,Matrix<2>&m,D(&w)[3]){ v*=v[0]; v/=v[1]; m*=m(0,0); m/=m(1,0); auto q=wrapVector(w,3); q*=q[0]; q/=q[0]; } REF(scaleself)(D(&v)[3],D(&m)[4],D(&w)[3]){ D s=v[0]; EV(3) v[i]*=s; s=v[1]; EV(3) v[i]/=s; s=m[0]; EV(4) m[i]*=s; s=m[2]; EV(4) m[i]/=s; s=w[0]; EV(3) w[i]*=s; s=w[0]; EV(3) w[i]/=s; }
// identity / ones helpers reading the destination
LIB(addobj)(Matrix<2>&m,Vector<3>&v){ m=m+Identity; m=Identity-m; m=Ones*2.0+m; v=v+Ones; v=Ones-v; } REF(addobj)(D(&m)[4],D(&v)[3]){ EV(4){ D I=i==0||i==3; m[i]=I-(m[i]+I)+2; } EV(3) v[i]=1-(v[i]+1); }
// constructing from expressions over one object
LIB(newvec)(Vector<3>&v,D(&o)[3]){ Vector<3> a=v; v*=2; Vector<> b(v); v=a+b; Vector<Resizable> c(v); c=c+a; wrapVector(o,3)=c; } REF(newvec)(D(&v)[3],D(&o)[3]){ EV(3){ D a=v[i]; v[i]=3*a; o[i]=4*a; } }
