// Comma filling and Data of every storage shape
// FLAGS:
// FLAGS: -DPREC=float -DRR=3 -DCC=1 -DTOON_CHECK_BOUNDS
// FLAGS: -DPREC=int
// FLAGS: -DRR=1 -DCC=4 -DTOON_INITIALIZE_SNAN -std=gnu++14
// FLAGS: -DRR=1 -DCC=1
// FLAGS-THOROUGH: -DRR=4 -DCC=3 -DTOON_NDEBUG_FILL
#include "shapes.h"
#include <utility>
using namespace sh;
#ifndef PREC
#define PREC double
#endif
#ifndef RR
#define RR 2
#define CC 3
#endif
typedef PREC P;
static const int K=RR*CC;
#if __cplusplus>=201703L
template<class V,size_t... I> static inline void fill(V&v,const P*a,std::index_sequence<I...>){ ((Fill(v)=a[0]),...,a[I+1]); }
#else
template<class V> static inline void fill(V&v,const P*a,std::index_sequence<>){ Fill(v)=a[0]; }
template<class V> static inline void fill(V&v,const P*a,std::index_sequence<0,1,2>){ Fill(v)=a[0],a[1],a[2],a[3]; }
#endif
template<class V> static inline void fil(V&v,const P*a){ fill(v,a,std::make_index_sequence<K-1>()); }
template<class V,size_t... I> static inline void dat(V&v,const P*a,std::index_sequence<I...>){ v=Data(a[I]...); }
#define VS(S) \
 LIB(fill_##S)(Arr<P,S<K>::N>&o,const Arr<P,K>&a){ S<K>::with(o,[&](auto&v){ fil(v,a); }); } \
 REF(fill_##S)(Arr<P,S<K>::N>&o,const Arr<P,K>&a){ for(int i=0;i<K;i++) o[S<K>::pos(i)]=a[i]; } \
 LIB(data_##S)(Arr<P,S<K>::N>&o,const Arr<P,K>&a){ S<K>::with(o,[&](auto&v){ dat(v,a,std::make_index_sequence<K>()); }); } \
 REF(data_##S)(Arr<P,S<K>::N>&o,const Arr<P,K>&a){ for(int i=0;i<K;i++) o[S<K>::pos(i)]=a[i]; }
VS(VFix) VS(VRef) VS(VDyn) VS(VOwn) VS(VRsz) VS(VSub) VS(VSubD) VS(VCol) VS(VColD) VS(VRow) VS(VDiag) VS(VDiagD) VS(VStrSub) VS(VStrSubD)
#define MS(S) \
 LIB(mfill_##S)(Arr<P,S<RR,CC>::N>&o,const Arr<P,K>&a){ S<RR,CC>::with(o,[&](auto&v){ fil(v,a); }); } \
 REF(mfill_##S)(Arr<P,S<RR,CC>::N>&o,const Arr<P,K>&a){ for(int i=0;i<K;i++) o[S<RR,CC>::pos(i/CC,i%CC)]=a[i]; } \
 LIB(mdata_##S)(Arr<P,S<RR,CC>::N>&o,const Arr<P,K>&a){ S<RR,CC>::with(o,[&](auto&v){ dat(v,a,std::make_index_sequence<K>()); }); } \
 REF(mdata_##S)(Arr<P,S<RR,CC>::N>&o,const Arr<P,K>&a){ for(int i=0;i<K;i++) o[S<RR,CC>::pos(i/CC,i%CC)]=a[i]; }
MS(MFix) MS(MFixC) MS(MRef) MS(MDyn) MS(MRowDyn) MS(MColDyn) MS(MDynC) MS(MRowDynC) MS(MT) MS(MTD) MS(MSub) MS(MSubD) MS(MSubT) MS(MSubC) MS(MOwn) MS(MOwnC)
