// Filling with k values an object of n elements: stops unless k==n, never writes outside
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS
// FLAGS: -DPREC=int
#include "shapes.h"
#include <cstdlib>
#include <utility>
using namespace sh;
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
#define MC ,
template<class V,size_t... I> static inline void fill(V&v,const P*a,std::index_sequence<I...>){ ((Fill(v)=a[0]),...,a[I+1]); }
template<int k,class V> static inline void fil(V&v,const P*a){ fill(v,a,std::make_index_sequence<k-1>()); }
#define OB(S,n,k) \
 LIB(count_##S##_##n##_##k)(Arr<P,S<n>::N>&o,const Arr<P,k>&a){ S<n>::with(o,[&](auto&v){ fil<k>(v,a); }); } \
 REF(count_##S##_##n##_##k)(Arr<P,S<n>::N>&o,const Arr<P,k>&a){ if(k!=n) std::abort(); for(int i=0;i<n&&i<k;i++) o[S<n>::pos(i)]=a[i]; }
#define DY(S) OB(S,1,1) OB(S,1,2) OB(S,1,3) OB(S,2,1) OB(S,2,2) OB(S,2,3) OB(S,3,1) OB(S,3,2) OB(S,3,3) OB(S,3,4) OB(S,3,5) OB(S,6,5) OB(S,6,6) OB(S,6,7)
#define ST(S) OB(S,1,1) OB(S,2,1) OB(S,2,2) OB(S,3,1) OB(S,3,2) OB(S,3,3) OB(S,6,5) OB(S,6,6)
DY(VDyn) DY(VOwn) DY(VRsz) DY(VSubD) DY(VColD) DY(VRow) ST(VFix) ST(VRef) ST(VSub) ST(VCol)
#define OM(S,r,c,k) \
 LIB(count_##S##_##r##c##_##k)(Arr<P,S<r MC c>::N>&o,const Arr<P,k>&a){ S<r,c>::with(o,[&](auto&v){ fil<k>(v,a); }); } \
 REF(count_##S##_##r##c##_##k)(Arr<P,S<r MC c>::N>&o,const Arr<P,k>&a){ if(k!=r*c) std::abort(); for(int i=0;i<r*c&&i<k;i++) o[S<r,c>::pos(i/c,i%c)]=a[i]; }
#define MD(S) OM(S,1,1,1) OM(S,1,1,2) OM(S,2,1,1) OM(S,2,1,2) OM(S,2,1,3) OM(S,1,2,1) OM(S,1,2,2) OM(S,1,2,3) OM(S,2,3,1) OM(S,2,3,2) OM(S,2,3,3) OM(S,2,3,4) OM(S,2,3,5) OM(S,2,3,6) OM(S,2,3,7) OM(S,2,3,8) OM(S,3,2,4) OM(S,3,2,5) OM(S,3,2,6) OM(S,3,2,7)
#define MS(S) OM(S,1,1,1) OM(S,2,1,1) OM(S,2,1,2) OM(S,1,2,1) OM(S,1,2,2) OM(S,2,3,1) OM(S,2,3,2) OM(S,2,3,3) OM(S,2,3,4) OM(S,2,3,5) OM(S,2,3,6) OM(S,3,2,3) OM(S,3,2,4) OM(S,3,2,5) OM(S,3,2,6)
MD(MDyn) MD(MDynC) MD(MTD) MD(MSubD) MD(MSubT) MD(MOwn) MD(MOwnC) MD(MRowDyn) MD(MColDyn) MD(MRowDynC) MS(MFix) MS(MFixC) MS(MT) MS(MSub) MS(MRef) MS(MSubC)
