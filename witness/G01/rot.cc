// Rotations built from matrices and vectors (the orientation assertion of coerce() is a precondition, so NDEBUG)
// FLAGS: -DNDEBUG
// FLAGS: -DNDEBUG -DPREC=float -DTOON_CHECK_BOUNDS
#include "groups.h"
using namespace TooN; using namespace gr;
// building a rotation from a matrix keeps a rotation as it is and orthonormalises the rows of any other
LIB(som_so2)(Arr<P,4>&r,Arr<P,4>&q,const Arr<P,1>&a){ P s[4]; So2::mk(a,s); Matrix<2,2,P> m; for(int i=0;i<4;i++) m(i/2,i%2)=s[i]; SO2<P> x(m),y; y=m; So2::out(x,r); So2::out(y,q); }
REF(som_so2)(Arr<P,4>&r,Arr<P,4>&q,const Arr<P,1>&a){ So2::ref(a,r); So2::ref(a,q); }
LIB(som_so3)(Arr<P,9>&r,const Arr<P,4>&a){ P s[9]; So3::mk(a,s); Matrix<3,3,P> m; for(int i=0;i<9;i++) m(i/3,i%3)=s[i]; SO3<P> x(m); So3::out(x,r); }
REF(som_so3)(Arr<P,9>&r,const Arr<P,4>&a){ So3::ref(a,r); }
LIB(gs_so3)(Arr<P,9>&r,const Arr<P,9>&s){ Matrix<3,3,P> m; for(int i=0;i<9;i++) m(i/3,i%3)=s[i]; SO3<P> x(m); const P*w=reinterpret_cast<const P*>(&x); // rows orthonormal, row 0 along s0, row 1 in the span of s0,s1
 P o[9]; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ o[i*3+j]=0; for(int k=0;k<3;k++) o[i*3+j]+=w[i*3+k]*w[j*3+k]; } for(int i=0;i<9;i++) r[i]=o[i]; r[1]+=w[0]*s[1]-w[1]*s[0]; r[2]+=w[0]*s[2]-w[2]*s[0]; r[5]+=w[6]*s[3]+w[7]*s[4]+w[8]*s[5]; }
REF(gs_so3)(Arr<P,9>&r,const Arr<P,9>&s){ for(int i=0;i<9;i++) r[i]=i%4==0; (void)s; }
LIB(gsa_so3)(Arr<P,9>&r,const Arr<P,9>&s){ Matrix<3,3,P> m; for(int i=0;i<9;i++) m(i/3,i%3)=s[i]; SO3<P> x; x=m; const P*w=reinterpret_cast<const P*>(&x);
 P o[9]; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ o[i*3+j]=0; for(int k=0;k<3;k++) o[i*3+j]+=w[i*3+k]*w[j*3+k]; } for(int i=0;i<9;i++) r[i]=o[i]; r[1]+=w[0]*s[1]-w[1]*s[0]; r[2]+=w[0]*s[2]-w[2]*s[0]; r[5]+=w[6]*s[3]+w[7]*s[4]+w[8]*s[5]; }
REF(gsa_so3)(Arr<P,9>&r,const Arr<P,9>&s){ for(int i=0;i<9;i++) r[i]=i%4==0; (void)s; }
#define GS2(nm,...) LIB(gs_so2_##nm)(Arr<P,4>&r,const Arr<P,4>&s){ Matrix<2,2,P> m; for(int i=0;i<4;i++) m(i/2,i%2)=s[i]; __VA_ARGS__ const P*w=reinterpret_cast<const P*>(&x); r[0]=w[0]*w[0]+w[1]*w[1]; r[1]=w[0]*w[2]+w[1]*w[3]; r[2]=w[2]*w[2]+w[3]*w[3]; r[3]=w[0]*s[1]-w[1]*s[0]; } \
 REF(gs_so2_##nm)(Arr<P,4>&r,const Arr<P,4>&s){ r[0]=r[2]=1; r[1]=r[3]=0; (void)s; }
GS2(c,SO2<P> x(m);) GS2(a,SO2<P> x; x=m;)
GS2(se,SE2<P> g; g.get_rotation()=m; SO2<P> x=g.get_rotation();) GS2(sim,SIM2<P> g; g.get_rotation()=m; SO2<P> x=g.get_rotation();)
// rotation taking the direction of one vector into that of another
LIB(vv_so3)(Arr<P,9>&r,Arr<P,3>&q,const Vector<3,P>&a,const Vector<3,P>&b){ P c[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; vf_assume(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]>0); SO3<P> x(a,b); const P*w=reinterpret_cast<const P*>(&x); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ r[i*3+j]=0; for(int k=0;k<3;k++) r[i*3+j]+=w[i*3+k]*w[j*3+k]; } P o[3]; mul<3,3,1>(w,c,o); for(int i=0;i<3;i++) q[i]=o[i]-c[i]; P p[3]; P av[3]={a[0],a[1],a[2]}; mul<3,3,1>(w,av,p); q[0]+=p[1]*b[2]-p[2]*b[1]; q[1]+=p[2]*b[0]-p[0]*b[2]; q[2]+=p[0]*b[1]-p[1]*b[0]; }
REF(vv_so3)(Arr<P,9>&r,Arr<P,3>&q,const Vector<3,P>&a,const Vector<3,P>&b){ P c[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; vf_assume(c[0]*c[0]+c[1]*c[1]+c[2]*c[2]>0); for(int i=0;i<9;i++) r[i]=i%4==0; for(int i=0;i<3;i++) q[i]=0; }
LIB(vvid_so3)(Arr<P,9>&r,const Vector<3,P>&a){ vf_assume(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]>0); Vector<3,P> b=a*2; SO3<P> x(a,b); So3::out(x,r); }
REF(vvid_so3)(Arr<P,9>&r,const Vector<3,P>&a){ vf_assume(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]>0); for(int i=0;i<9;i++) r[i]=i%4==0; }
