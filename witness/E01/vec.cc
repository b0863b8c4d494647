// Element-wise vector arithmetic over every storage shape
// FLAGS:
// FLAGS: -DPREC=float -DLEN=1 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS: -DPREC=double -DLEN=5
// FLAGS: -DPREC=int -DLEN=3
// FLAGS-THOROUGH: -DPREC=double -DLEN=2 -DTOON_INITIALIZE_SNAN
// FLAGS-THOROUGH: -DPREC=double -DLEN=9
// FLAGS-THOROUGH: -DPREC=double -DLEN=17
#include "vcombos.h"
using namespace sh;
#ifndef PREC
#define PREC double
#define LEN 3
#endif
typedef PREC P;
#define OB(op,k,D,A,B) \
 LIB(CAT(op##_,k))(P(&r)[D<LEN>::N],const P(&a)[A<LEN>::N],const P(&b)[B<LEN>::N],const P&s){ D<LEN>::with(r,[&](auto&z){ A<LEN>::with(a,[&](auto&x){ B<LEN>::with(b,[&](auto&y){ (void)z;(void)x;(void)y; L_##op; }); }); }); } \
 REF(CAT(op##_,k))(P(&r)[D<LEN>::N],const P(&a)[A<LEN>::N],const P(&b)[B<LEN>::N],const P&s){ for(int i=0;i<LEN;i++){ P&z=r[D<LEN>::pos(i)]; const P x=a[A<LEN>::pos(i)],y=b[B<LEN>::pos(i)]; (void)x;(void)y; R_##op; } }
#define L_asg z=x
#define R_asg z=x
#define L_add z=x+y
#define R_add z=x+y
#define L_sub z=x-y
#define R_sub z=x-y
#define L_mulr z=x*s
#define R_mulr z=x*s
#define L_mull z=s*x
#define R_mull z=s*x
#define L_div z=x/s
#define R_div z=x/s
#define L_addeq z+=x
#define R_addeq z+=x
#define L_subeq z-=x
#define R_subeq z-=x
#define L_muleq z*=s
#define R_muleq z*=s
#define L_diveq z/=s
#define R_diveq z/=s
#define L_neg z=-x
#define R_neg z=-x
#define L_mix z=2*(x-y)/s+(-(y*s))
#define R_mix z=2*(x-y)/s-y*s
#define L_chain (z+=x)*=s; (z-=y)/=s
#define R_chain z=((z+x)*s-y)/s
#define L_plusexpr z+=x+y; z-=x*s
#define R_plusexpr z=z+x+y-x*s
VCOMBOS(OB,asg) VCOMBOS(OB,add) VCOMBOS(OB,sub) VCOMBOS(OB,mulr) VCOMBOS(OB,mull) VCOMBOS(OB,div) VCOMBOS(OB,addeq) VCOMBOS(OB,subeq) VCOMBOS(OB,muleq) VCOMBOS(OB,diveq) VCOMBOS(OB,mix) VCOMBOS(OB,chain) VCOMBOS(OB,plusexpr) VCOMBOS(OB,neg)
