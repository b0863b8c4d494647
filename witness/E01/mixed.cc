// Mixed-precision element-wise arithmetic: no operand may be narrowed to an integer type on the way
#include "shapes.h"
using namespace sh;
#define BOTH(n,PA,PB,PR) \
LIB(n##_v)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a+b; } REF(n##_v)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]+b[i]; } \
LIB(n##_vs)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a-b; } REF(n##_vs)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]-b[i]; } \
LIB(n##_vl)(Vector<3,PR>&r,const PA&a,const Vector<3,PB>&b){ r=a*b; } REF(n##_vl)(PR(&r)[3],const PA&a,const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a*b[i]; } \
LIB(n##_vr)(Vector<3,PR>&r,const Vector<3,PA>&a,const PB&b){ r=a*b; } REF(n##_vr)(PR(&r)[3],const PA(&a)[3],const PB&b){ for(int i=0;i<3;i++) r[i]=a[i]*b; } \
LIB(n##_vd)(Vector<3,PR>&r,const Vector<3,PA>&a,const PB&b){ vf_assume(b!=0); r=a/b; } REF(n##_vd)(PR(&r)[3],const PA(&a)[3],const PB&b){ for(int i=0;i<3;i++) r[i]=a[i]/b; } \
LIB(n##_m)(Matrix<2,2,PR>&r,const Matrix<2,2,PA>&a,const Matrix<2,2,PB>&b){ r=a+b; } REF(n##_m)(PR(&r)[4],const PA(&a)[4],const PB(&b)[4]){ for(int i=0;i<4;i++) r[i]=a[i]+b[i]; } \
LIB(n##_ms)(Matrix<2,2,PR>&r,const Matrix<2,2,PA>&a,const Matrix<2,2,PB>&b){ r=a-b; } REF(n##_ms)(PR(&r)[4],const PA(&a)[4],const PB(&b)[4]){ for(int i=0;i<4;i++) r[i]=a[i]-b[i]; } \
LIB(n##_ml)(Matrix<2,2,PR>&r,const PA&a,const Matrix<2,2,PB>&b){ r=a*b; } REF(n##_ml)(PR(&r)[4],const PA&a,const PB(&b)[4]){ for(int i=0;i<4;i++) r[i]=a*b[i]; } \
LIB(n##_mr)(Matrix<2,2,PR>&r,const Matrix<2,2,PA>&a,const PB&b){ r=a*b; } REF(n##_mr)(PR(&r)[4],const PA(&a)[4],const PB&b){ for(int i=0;i<4;i++) r[i]=a[i]*b; } \
LIB(n##_md)(Matrix<2,2,PR>&r,const Matrix<2,2,PA>&a,const PB&b){ vf_assume(b!=0); r=a/b; } REF(n##_md)(PR(&r)[4],const PA(&a)[4],const PB&b){ for(int i=0;i<4;i++) r[i]=a[i]/b; } \
LIB(n##_ae)(Vector<3,PR>&r,const Vector<3,PA>&a,const Matrix<2,2,PB>&b,Matrix<2,2,PR>&m){ r+=a; m-=b; } REF(n##_ae)(PR(&r)[3],const PA(&a)[3],const PB(&b)[4],PR(&m)[4]){ for(int i=0;i<3;i++) r[i]+=a[i]; for(int i=0;i<4;i++) m[i]-=b[i]; } \
LIB(n##_dot)(PR&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a*b; } REF(n##_dot)(PR&r,const PA(&a)[3],const PB(&b)[3]){ r=a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } \
LIB(n##_crs)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a^b; } REF(n##_crs)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]; } \
LIB(n##_mv)(Vector<2,PR>&r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b){ r=a*b; } REF(n##_mv)(PR(&r)[2],const PA(&a)[6],const PB(&b)[3]){ for(int i=0;i<2;i++) r[i]=a[3*i]*b[0]+a[3*i+1]*b[1]+a[3*i+2]*b[2]; } \
LIB(n##_vm)(Vector<3,PR>&r,const Vector<2,PA>&a,const Matrix<2,3,PB>&b){ r=a*b; } REF(n##_vm)(PR(&r)[3],const PA(&a)[2],const PB(&b)[6]){ for(int i=0;i<3;i++) r[i]=a[0]*b[i]+a[1]*b[3+i]; } \
LIB(n##_mm)(Matrix<2,2,PR>&r,const Matrix<2,3,PA>&a,const Matrix<3,2,PB>&b){ r=a*b; } REF(n##_mm)(PR(&r)[4],const PA(&a)[6],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<2;j++) r[2*i+j]=a[3*i]*b[j]+a[3*i+1]*b[2+j]+a[3*i+2]*b[4+j]; } \
LIB(n##_dg)(Matrix<2,3,PR>&r,const Vector<2,PA>&a,const Matrix<2,3,PB>&b){ r=diagmult(a,b); } REF(n##_dg)(PR(&r)[6],const PA(&a)[2],const PB(&b)[6]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[i]*b[3*i+j]; } \
LIB(n##_gd)(Matrix<2,3,PR>&r,const Matrix<2,3,PA>&a,const Vector<3,PB>&b){ r=diagmult(a,b); } REF(n##_gd)(PR(&r)[6],const PA(&a)[6],const PB(&b)[3]){ for(int i=0;i<2;i++) for(int j=0;j<3;j++) r[3*i+j]=a[3*i+j]*b[j]; } \
LIB(n##_dd)(Vector<3,PR>&r,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=diagmult(a,b); } REF(n##_dd)(PR(&r)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++) r[i]=a[i]*b[i]; }
BOTH(fd,float,double,double) BOTH(df,double,float,double) BOTH(id,int,double,double) BOTH(di,double,int,double) BOTH(ff,float,float,float) BOTH(fi,float,int,float) BOTH(if_,int,float,double)
