// What the routines report about singular matrices: which pivot of LU is zero, which minor is not positive
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#define LM_INFO
#include "solve.h"
#include <TooN/LU.h>
#include <TooN/Lapack_Cholesky.h>
using namespace so;
#define LI(nm,Z,z) LIB(generic_info_##nm##_##z)(int&i,P&d,const Arr<P,9>&a){ Matrix<Z,Z,P> m(3,3); for(int r=0;r<3;r++) for(int c=0;c<3;c++) m(r,c)=c<=r&&!(r==z&&c==z)?a[r*3+c]:0; const LU<Z,P> l(m); i=l.get_info(); d=l.determinant(); } \
 REF(generic_info_##nm##_##z)(int&i,P&d,const Arr<P,9>&a){ i=z<3?z+1:0; d=z<3?0:a[0]*a[4]*a[8]; }
#define LA(z) LI(st,3,z) LI(dy,-1,z)
LA(0) LA(1) LA(2) LA(3)
// rank of a partly decomposed matrix
#define LR(nm,n,Z,...) LIB(generic_rank_##nm##_##n)(int&r,const Arr<P,n*n>&a){ Matrix<Z,Z,P> m(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=a[i*n+j]; const Lapack_Cholesky<Z,P> d(m); r=d.rank(); Lapack_Cholesky<Z,P> e __VA_ARGS__; e.compute(m); vf_assert(e.rank()==r); } \
 REF(generic_rank_##nm##_##n)(int&r,const Arr<P,n*n>&a){ P L[n*n]; r=n; for(int j=0;j<n;j++){ P d=a[j*n+j]; for(int q=0;q<j;q++) d-=L[j*n+q]*L[j*n+q]; if(!(d>0)){ r=j; return; } d=std::sqrt(d); for(int i=j+1;i<n;i++){ P v=a[i*n+j]; for(int q=0;q<j;q++) v-=L[i*n+q]*L[j*n+q]; L[i*n+j]=v/d; } } }
LR(st,3,3) LR(dy,3,-1,(3)) LR(st,1,1) LR(dy,2,-1,(2))
