// Products of operands of different precision: the scalar product is taken in the promoted precision
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_QNAN -std=gnu++14
#include "shapes.h"
#include <TooN/helpers.h>
using namespace sh;
#define BOTH(n,PA,PB,PR) \
LIB(n##_dot)(PR&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a*b; } REF(n##_dot)(PR&r,const PA(&a)[3],const PB(&b)[3]){ r=a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } \
LIB(n##_crs)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a^b; } REF(n##_crs)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]; } \
LIB(n##_mv)(Vector<2,PR>&r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b){ r=a*b; } REF(n##_mv)(PR(&r)[2],const PA(&a)[6],const PB(&b)[3]){ for(int i=0;i<2;i++) r[i]=a[3*i]*b[0]+a[3*i+1]*b[1]+a[3*i+2]*b[2]; } \
LIB(n##_vm)(Vector<3,PR>&r,const Vector<2,PA>&a,const Matrix<2,3,PB>&b){ r=a*b; } REF(n##_vm)(PR(&r)[3],const PA(&a)[2],const PB(&b)[6]){ for(int i=0;i<3;i++) r[i]=a[0]*b[i]+a[1]*b[3+i]; } \
LIB(n##_mm)(Matrix<2,2,PR>&r,const Matrix<2,3,PA>&a,const Matrix<3,2,PB>&b){ r=a*b; } REF(n##_mm)(PR(&r)[4],const PA(&a)[6],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<2;j++) r[2*i+j]=a[3*i]*b[j]+a[3*i+1]*b[2+j]+a[3*i+2]*b[4+j]; } \
LIB(n##_mmt)(Matrix<2,2,PR,ColMajor>&r,const Matrix<3,2,PA>&a,const Matrix<3,2,PB,ColMajor>&b){ r=a.T()*b; } REF(n##_mmt)(PR(&r)[4],const PA(&a)[6],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<2;j++) r[i+2*j]=a[i]*b[3*j]+a[2+i]*b[3*j+1]+a[4+i]*b[3*j+2]; } \
LIB(n##_out)(Matrix<2,3,PR>&r,const Vector<2,PA>&a,const Vector<3,PB>&b){ r=a.as_col()*b.as_row(); } REF(n##_out)(PR(&r)[6],const PA(&a)[2],const PB(&b)[3]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[i]*b[j]; } \
LIB(n##_dg)(Matrix<2,3,PR>&r,const Vector<2,PA>&a,const Matrix<2,3,PB>&b){ r=diagmult(a,b); } REF(n##_dg)(PR(&r)[6],const PA(&a)[2],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[i]*b[3*i+j]; } \
LIB(n##_gd)(Matrix<2,3,PR>&r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b){ r=diagmult(a,b); } REF(n##_gd)(PR(&r)[6],const PA(&a)[6],const PB(&b)[3]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[3*i+j]*b[j]; } \
LIB(n##_dd)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=diagmult(a,b); } REF(n##_dd)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]*b[i]; } \
LIB(n##_Dm)(Matrix<2,3,PR>&r,const Vector<2,PA>&a,const Matrix<2,3,PB>&b){ r=a.as_diagonal()*b; } REF(n##_Dm)(PR(&r)[6],const PA(&a)[2],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[i]*b[3*i+j]; } \
LIB(n##_mD)(Matrix<2,3,PR>&r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b){ r=a*DiagonalMatrix<3,PB>(b); } REF(n##_mD)(PR(&r)[6],const PA(&a)[6],const PB(&b)[3]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[3*i+j]*b[j]; } \
LIB(n##_Dv)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a.as_diagonal()*b; } REF(n##_Dv)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]*b[i]; } \
LIB(n##_vD)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a*DiagonalMatrix<3,PB>(b); } REF(n##_vD)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]*b[i]; } \
LIB(n##_DD)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ auto d=DiagonalMatrix<3,PA>(a)*DiagonalMatrix<3,PB>(b); r=d.diagonal_slice(); } REF(n##_DD)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]*b[i]; } \
LIB(n##_dyn)(Vector<Dynamic,PR>*r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b,PR(&o)[2]){ Matrix<Dynamic,Dynamic,PA> x(a); Vector<Dynamic,PB> y(b); Vector<Dynamic,PR> z=x*y; Matrix<Dynamic,3,PA> w(a); Vector<Resizable,PB> u(b); Vector<2,PR> q=w*u; for(int i=0;i<2;i++) o[i]=z[i]+3*q[i]; } REF(n##_dyn)(Vector<Dynamic,PR>*r,const PA(&a)[6],const PB(&b)[3],PR(&o)[2]){ for(int i=0;i<2;i++) o[i]=4*(a[3*i]*b[0]+a[3*i+1]*b[1]+a[3*i+2]*b[2]); } \
LIB(n##_tri)(PR&r,const Vector<2,PA>&a,const Matrix<2,2,PB>&b,const Vector<2,PB>&c){ r=a*b*c; } REF(n##_tri)(PR&r,const PA(&a)[2],const PB(&b)[4],const PB(&c)[2]){ r=a[0]*b[0]*c[0]+a[1]*b[2]*c[0]+a[0]*b[1]*c[1]+a[1]*b[3]*c[1]; }
BOTH(fd,float,double,double) BOTH(df,double,float,double) BOTH(id,int,double,double) BOTH(di,double,int,double) BOTH(ff,float,float,float) BOTH(fi,float,int,float) BOTH(if_,int,float,double) BOTH(ld,long double,double,long double) BOTH(dl,double,long double,long double)
