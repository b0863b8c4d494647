// Element-wise matrix arithmetic over every storage shape
// FLAGS:
// FLAGS: -DPREC=float -DRR=3 -DCC=2 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS: -DPREC=double -DRR=3 -DCC=1
// FLAGS: -DPREC=int -DRR=2 -DCC=3
// FLAGS-THOROUGH: -DPREC=double -DRR=1 -DCC=4 -DTOON_INITIALIZE_NAN
// FLAGS-THOROUGH: -DPREC=double -DRR=5 -DCC=6
#include "vcombos.h"
using namespace sh;
#ifndef PREC
#define PREC double
#define RR 2
#define CC 3
#endif
typedef PREC P;
#define SH(X) X<RR,CC>
#define OB(op,k,D,A,B) \
 LIB(CAT(op##_,k))(Arr<P,SH(D)::N>&r,Arr<const P,SH(A)::N>&a,Arr<const P,SH(B)::N>&b,const P&s){ SH(D)::with(r,[&](auto&z){ SH(A)::with(a,[&](auto&x){ SH(B)::with(b,[&](auto&y){ (void)z;(void)x;(void)y; L_##op; }); }); }); } \
 REF(CAT(op##_,k))(Arr<P,SH(D)::N>&r,Arr<const P,SH(A)::N>&a,Arr<const P,SH(B)::N>&b,const P&s){ for(int j=0;j<CC;j++) for(int i=0;i<RR;i++){ P&z=r[SH(D)::pos(i,j)]; const P x=a[SH(A)::pos(i,j)],y=b[SH(B)::pos(i,j)]; (void)x;(void)y; R_##op; } }
#define L_asg z=x
#define R_asg z=x
#define L_add z=x+y
#define R_add z=x+y
#define L_sub z=x-y
#define R_sub z=x-y
#define L_mulr z=x*s
#define R_mulr z=x*s
#define L_mull z=s*x
#define R_mull z=s*x
#define L_div z=x/s
#define R_div z=x/s
#define L_addeq z+=x
#define R_addeq z+=x
#define L_subeq z-=x
#define R_subeq z-=x
#define L_muleq z*=s
#define R_muleq z*=s
#define L_diveq z/=s
#define R_diveq z/=s
#define L_neg z=-x
#define R_neg z=-x
#define L_mix z=2*(x-y)/s+(-(y*s))
#define R_mix z=2*(x-y)/s-y*s
#define L_chain (z+=x)*=s; (z-=y)/=s
#define R_chain z=((z+x)*s-y)/s
#define L_plusexpr z+=x+y; z-=x*s
#define R_plusexpr z=z+x+y-x*s
MCOMBOS(OB,asg) MCOMBOS(OB,add) MCOMBOS(OB,sub) MCOMBOS(OB,mulr) MCOMBOS(OB,mull) MCOMBOS(OB,div) MCOMBOS(OB,addeq) MCOMBOS(OB,subeq) MCOMBOS(OB,muleq) MCOMBOS(OB,diveq) MCOMBOS(OB,mix) MCOMBOS(OB,chain) MCOMBOS(OB,plusexpr) MCOMBOS(OB,neg)
