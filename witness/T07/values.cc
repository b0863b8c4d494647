// Sums, products and quotients of operands of different precision carry the promoted precision throughout
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -std=gnu++20
// TIME: 100
#include "../E02/mixed.cc"
#define EL(n,PA,PB,PR) \
LIB(n##_add)(Vector<3,PR>&r,Vector<3,PR>&q,const Vector<3,PA>&a,const Vector<3,PB>&b){ r=a+b; q=a-b; } REF(n##_add)(PR(&r)[3],PR(&q)[3],const PA(&a)[3],const PB(&b)[3]){ for(int i=0;i<3;i++){ r[i]=a[i]+b[i]; q[i]=a[i]-b[i]; } } \
LIB(n##_madd)(Matrix<2,3,PR>&r,Matrix<2,3,PR>&q,const Matrix<2,3,PA>&a,const Matrix<2,3,PB>&b){ r=a+b; q=a-b; } REF(n##_madd)(PR(&r)[6],PR(&q)[6],const PA(&a)[6],const PB(&b)[6]){ for(int i=0;i<6;i++){ r[i]=a[i]+b[i]; q[i]=a[i]-b[i]; } } \
LIB(n##_sc)(Vector<3,PR>&r,Vector<3,PR>&q,const Vector<3,PA>&a,const PB&b){ r=a*b; q=b*a; } REF(n##_sc)(PR(&r)[3],PR(&q)[3],const PA(&a)[3],const PB&b){ for(int i=0;i<3;i++){ r[i]=a[i]*b; q[i]=b*a[i]; } } \
LIB(n##_msc)(Matrix<2,3,PR>&r,Matrix<2,3,PR>&q,const Matrix<2,3,PA>&a,const PB&b){ r=a*b; q=b*a; } REF(n##_msc)(PR(&r)[6],PR(&q)[6],const PA(&a)[6],const PB&b){ for(int i=0;i<6;i++){ r[i]=a[i]*b; q[i]=b*a[i]; } } \
LIB(n##_ad1)(Vector<3,PR>&r,Vector<3,PR>&q,const Vector<3,PA>&a,const PB&b){ r=a+Ones*b; q=Ones*b-a; } REF(n##_ad1)(PR(&r)[3],PR(&q)[3],const PA(&a)[3],const PB&b){ for(int i=0;i<3;i++){ r[i]=a[i]+b; q[i]=b-a[i]; } } \
LIB(n##_adI)(Matrix<2,2,PR>&r,Matrix<2,2,PR>&q,const Matrix<2,2,PA>&a,const PB&b){ r=a+Identity*b; q=Identity*b-a; } REF(n##_adI)(PR(&r)[4],PR(&q)[4],const PA(&a)[4],const PB&b){ for(int i=0;i<4;i++){ PB d=i%3?PB(0):b; r[i]=a[i]+d; q[i]=d-a[i]; } }
#define EQ(n,PA,PB,PR) \
LIB(n##_dv)(Vector<3,PR>&r,const Vector<3,PA>&a,const PB&b){ r=a/b; } REF(n##_dv)(PR(&r)[3],const PA(&a)[3],const PB&b){ for(int i=0;i<3;i++) r[i]=a[i]/b; } \
LIB(n##_mdv)(Matrix<2,3,PR>&r,const Matrix<2,3,PA>&a,const PB&b){ r=a/b; } REF(n##_mdv)(PR(&r)[6],const PA(&a)[6],const PB&b){ for(int i=0;i<6;i++) r[i]=a[i]/b; }
EL(fd,float,double,double) EL(df,double,float,double) EL(id,int,double,double) EL(di,double,int,double) EL(ff,float,float,float) EL(fi,float,int,float) EL(ld,long double,double,long double)
EQ(fd,float,double,double) EQ(df,double,float,double) EQ(di,double,int,double) EQ(ff,float,float,float)
