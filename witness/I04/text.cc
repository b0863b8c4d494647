// Text output and input of vectors and matrices: every element once, in order, a line per row
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_NAN
// FLAGS: -DPREC=int
#include "shapes.h"
#include <iostream>
using namespace sh;
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
#define MC ,
#define OV(S,n) \
 LIB(out_##S##_##n)(Arr<P,S<n>::N>&a){ S<n>::with(a,[&](auto&v){ std::cout<<"a"<<v<<"b"; }); } \
 REF(out_##S##_##n)(Arr<P,S<n>::N>&a){ std::cout<<"a"; for(int i=0;i<n;i++) std::cout<<a[S<n>::pos(i)]<<" "; std::cout<<"b"; } \
 LIB(in_##S##_##n)(Arr<P,S<n>::N>&a,P&z){ S<n>::with(a,[&](auto&v){ std::cin>>v>>z; }); } \
 REF(in_##S##_##n)(Arr<P,S<n>::N>&a,P&z){ for(int i=0;i<n;i++) std::cin>>a[S<n>::pos(i)]; std::cin>>z; }
#define VSET(S) OV(S,1) OV(S,3) OV(S,4)
VSET(VFix) VSET(VRef) VSET(VDyn) VSET(VOwn) VSET(VRsz) VSET(VSub) VSET(VSubD) VSET(VCol) VSET(VColD) VSET(VRow) VSET(VDiag) VSET(VDiagD) VSET(VStrSub) VSET(VStrSubD)
#define OM(S,r,c) \
 LIB(out_##S##_##r##c)(Arr<P,S<r MC c>::N>&a){ S<r,c>::with(a,[&](auto&v){ std::cout<<"a"<<v<<"b"; }); } \
 REF(out_##S##_##r##c)(Arr<P,S<r MC c>::N>&a){ std::cout<<"a"; for(int i=0;i<r;i++){ for(int j=0;j<c;j++){ if(j) std::cout<<" "; std::cout<<a[S<r MC c>::pos(i,j)]; } std::cout<<"\n"; } std::cout<<"b"; } \
 LIB(in_##S##_##r##c)(Arr<P,S<r MC c>::N>&a,P&z){ S<r,c>::with(a,[&](auto&v){ std::cin>>v>>z; }); } \
 REF(in_##S##_##r##c)(Arr<P,S<r MC c>::N>&a,P&z){ for(int i=0;i<r;i++) for(int j=0;j<c;j++) std::cin>>a[S<r MC c>::pos(i,j)]; std::cin>>z; }
#define MSET(S) OM(S,1,1) OM(S,2,3) OM(S,3,2) OM(S,3,3)
MSET(MFix) MSET(MFixC) MSET(MRef) MSET(MDyn) MSET(MRowDyn) MSET(MColDyn) MSET(MDynC) MSET(MRowDynC) MSET(MT) MSET(MTD) MSET(MSub) MSET(MSubD) MSET(MSubT) MSET(MSubC) MSET(MOwn) MSET(MOwnC)
// integer elements
LIB(out_int)(Arr<int,3>&a){ Vector<3,int> v; for(int i=0;i<3;i++) v[i]=a[i]; std::cout<<v; }
REF(out_int)(Arr<int,3>&a){ for(int i=0;i<3;i++) std::cout<<a[i]<<" "; }
LIB(out_mint)(Arr<int,4>&a){ Matrix<2,2,int> v; for(int i=0;i<4;i++) v(i/2,i%2)=a[i]; std::cout<<v; }
REF(out_mint)(Arr<int,4>&a){ for(int i=0;i<2;i++) std::cout<<a[2*i]<<" "<<a[2*i+1]<<"\n"; }
// expressions written directly
LIB(out_sum)(Arr<P,3>&a,Arr<P,3>&b){ Vector<3,P> v,w; for(int i=0;i<3;i++) v[i]=a[i],w[i]=b[i]; std::cout<<v+w<<2*v<<w.slice(1,2)<<(w.as_row()); }
REF(out_sum)(Arr<P,3>&a,Arr<P,3>&b){ for(int i=0;i<3;i++) std::cout<<a[i]+b[i]<<" "; for(int i=0;i<3;i++) std::cout<<2*a[i]<<" "; std::cout<<b[1]<<" "<<b[2]<<" "; std::cout<<b[0]<<" "<<b[1]<<" "<<b[2]<<"\n"; }
