// determinant() where larger matrices go through LU, and determinant_LU itself
// FLAGS: -DTOON_DETERMINANT_LAPACK=3
// FLAGS: -DTOON_DETERMINANT_LAPACK=3 -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// FLAGS: -DTOON_DETERMINANT_LAPACK=2
#include "solve.h"
#include <TooN/LU.h>
#include <TooN/determinant.h>
using namespace so;
#define DT(nm,fn,Sh,n) \
 LIB(det##nm##_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ Sh<n,n>::with(a,[&](auto&m){ r=fn(m); }); } \
 REF(det##nm##_##Sh##_##n)(P&r,const Arr<P,Sh<n,n>::N>&a){ P m[n*n]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) m[i*n+j]=a[Sh<n,n>::pos(i,j)]; r=det<n>(m); }
#define SHP(F,nm,fn,n) F(nm,fn,MFix,n) F(nm,fn,MFixC,n) F(nm,fn,MDyn,n) F(nm,fn,MSub,n) F(nm,fn,MSubT,n) F(nm,fn,MOwn,n) F(nm,fn,MRowDyn,n) F(nm,fn,MT,n)
SHP(DT,any,determinant,2) SHP(DT,any,determinant,3)
SHP(DT,lu,determinant_LU,2) SHP(DT,lu,determinant_LU,3) DT(lu,determinant_LU,MFix,1) DT(any,determinant,MFix,1) DT(any,determinant,MDyn,1)
