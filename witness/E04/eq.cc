// Equality and inequality over every storage shape; the nan_ obligations also distinguish unordered elements
// FLAGS:
// FLAGS: -DPREC=float -DLEN=1 -DR_=3 -DC_=1 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS: -DPREC=int -DLEN=3 -DR_=2 -DC_=3
// FLAGS-THOROUGH: -DPREC=double -DLEN=6 -DR_=3 -DC_=4
#include "vcombos.h"
using namespace sh;
#ifndef PREC
#define PREC double
#define LEN 3
#define R_ 2
#define C_ 3
#endif
typedef PREC P;
#define MC ,
#define VE(nm,id,D,A,B) \
 LIB(CAT(nm##v_,id))(int(&r)[5],Arr<const P,D<LEN>::N>&d,Arr<const P,A<LEN>::N>&a,Arr<const P,B<LEN>::N>&b){ D<LEN>::with(d,[&](auto&w){A<LEN>::with(a,[&](auto&x){B<LEN>::with(b,[&](auto&y){ r[0]=x==y; r[1]=x!=y; r[2]=y==x; r[3]=w!=x; r[4]=x==x; });});}); } \
 REF(CAT(nm##v_,id))(int(&r)[5],Arr<const P,D<LEN>::N>&d,Arr<const P,A<LEN>::N>&a,Arr<const P,B<LEN>::N>&b){ bool e=true,f=true,g=true; for(int i=0;i<LEN;i++){ const P x=a[A<LEN>::pos(i)],y=b[B<LEN>::pos(i)],w=d[D<LEN>::pos(i)]; e=e&(x==y); f=f&(w==x); g=g&(x==x); } r[0]=e; r[1]=!e; r[2]=e; r[3]=!f; r[4]=g; }
#define VE0(o,id,D,A,B) VE(eq_,id,D,A,B)
#define VE1(o,id,D,A,B) VE(nan_eq_,id,D,A,B)
VCOMBOS(VE0,x) VCOMBOS(VE1,x)
#define ME(nm,id,D,A,B) \
 LIB(CAT(nm##m_,id))(int(&r)[4],Arr<const P,D<R_ MC C_>::N>&d,Arr<const P,A<R_ MC C_>::N>&a,Arr<const P,B<R_ MC C_>::N>&b){ D<R_,C_>::with(d,[&](auto&w){A<R_,C_>::with(a,[&](auto&x){B<R_,C_>::with(b,[&](auto&y){ r[0]=x==y; r[1]=x!=y; r[2]=y==x; r[3]=w!=x; });});}); } \
 REF(CAT(nm##m_,id))(int(&r)[4],Arr<const P,D<R_ MC C_>::N>&d,Arr<const P,A<R_ MC C_>::N>&a,Arr<const P,B<R_ MC C_>::N>&b){ bool e=true,f=true; for(int i=0;i<R_;i++) for(int j=0;j<C_;j++){ const P x=a[A<R_,C_>::pos(i,j)],y=b[B<R_,C_>::pos(i,j)],w=d[D<R_,C_>::pos(i,j)]; e=e&(x==y); f=f&(w==x); } r[0]=e; r[1]=!e; r[2]=e; r[3]=!f; }
#define ME0(o,id,D,A,B) ME(eq_,id,D,A,B)
#define ME1(o,id,D,A,B) ME(nan_eq_,id,D,A,B)
MCOMBOS(ME0,x) MCOMBOS(ME1,x)
LIB(zerov)(int(&r)[2],Vector<3,P>&a,Matrix<2,3,P>&m){ r[0]=a!=Zeros; r[1]=m!=Zeros; } REF(zerov)(int(&r)[2],P(&a)[3],P(&m)[6]){ bool e=false,f=false; for(int i=0;i<3;i++) e|=a[i]!=0; for(int i=0;i<6;i++) f|=m[i]!=0; r[0]=e; r[1]=f; }
LIB(zeroviews)(int(&r)[2],P(&m)[6]){ auto w=wrapMatrix(m,2,3); auto c=w.T()[1]; auto t=w.T(); r[0]=c!=Zeros; r[1]=t!=Zeros; } REF(zeroviews)(int(&r)[2],P(&m)[6]){ bool f=false; for(int i=0;i<6;i++) f|=m[i]!=0; r[0]=m[1]!=0||m[4]!=0; r[1]=f; }
LIB(mixedprec)(int(&r)[4],const Vector<3,float>&a,const Vector<3,double>&b,const Matrix<1,3,int>&m,const Matrix<1,3>&n){ r[0]=a==b; r[1]=b!=a; r[2]=m==n; r[3]=n!=m; } REF(mixedprec)(int(&r)[4],const float(&a)[3],const double(&b)[3],const int(&m)[3],const double(&n)[3]){ bool e=true,f=true; for(int i=0;i<3;i++){ e=e&(a[i]==b[i]); f=f&(m[i]==n[i]); } r[0]=e;r[1]=!e;r[2]=f;r[3]=!f; }
LIB(empty)(int(&r)[2]){ Vector<> a(0),b(0); Matrix<> m(0,3),n(0,3); r[0]=a==b; r[1]=m!=n; } REF(empty)(int(&r)[2]){ r[0]=1; r[1]=0; }
