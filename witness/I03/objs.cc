// Zeros, Ones, Identity and their multiples against the dense objects they stand for
// FLAGS: -DSUITE=1
// FLAGS: -DSUITE=2
// FLAGS: -DSUITE=1 -DPREC=float
// FLAGS: -DSUITE=2 -DPREC=float
// FLAGS-THOROUGH: -DSUITE=1 -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_NAN
// FLAGS-THOROUGH: -DSUITE=2 -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_NAN
#include "shapes.h"
#include <cstdlib>
using namespace sh;
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
#define MC ,
// vectors: e works on v (destination) and w (a second vector), r gives element i from W(i),V(i)
#define VE(nm,S,n,e,r) \
 LIB(nm##_##S##_##n)(Arr<P,S<n>::N>&o,const Arr<P,n>&wa,const P&s){ Vector<n,P> w; for(int i=0;i<n;i++) w[i]=wa[i]; S<n>::with(o,[&](auto&v){ e; }); } \
 REF(nm##_##S##_##n)(Arr<P,S<n>::N>&o,const Arr<P,n>&w,const P&s){ for(int i=0;i<n;i++){ P&v=o[S<n>::pos(i)]; v=(r); } }
#define VALL(S,n) \
 VE(zero,S,n,v=Zeros,0) VE(one,S,n,v=Ones,1) VE(neg,S,n,v=-Ones,-1) VE(sone,S,n,v=s*Ones,s) VE(ones,S,n,v=Ones*s,s) \
 VE(two,S,n,v=2*Ones,2) VE(div,S,n,v=Ones/s,1/s) VE(sdiv,S,n,v=s*Ones/3,s/3) VE(idiv,S,n,v=4*Ones/P(8),P(0.5)) VE(nn,S,n,v=-(s*Ones),-s) VE(sts,S,n,v=2*(s*Ones)*3,6*s) \
 VE(pe,S,n,v+=Ones,v+1) VE(me,S,n,v-=Ones,v-1) VE(pse,S,n,v+=s*Ones,v+s) VE(mse,S,n,v-=Ones*s,v-s) VE(pie,S,n,v+=2*Ones,v+2) VE(pde,S,n,v+=Ones/s,v+1/s) \
 VE(add,S,n,v=w+Ones,w[i]+1) VE(radd,S,n,v=Ones+w,w[i]+1) VE(sub,S,n,v=w-Ones,w[i]-1) VE(rsub,S,n,v=Ones-w,1-w[i]) \
 VE(adds,S,n,v=w+s*Ones,w[i]+s) VE(radds,S,n,v=Ones*s+w,w[i]+s) VE(subs,S,n,v=w-s*Ones,w[i]-s) VE(rsubs,S,n,v=s*Ones-w,s-w[i]) \
 VE(vadd,S,n,w=v+Ones;v=w,v+1) VE(vrsub,S,n,w=s*Ones-v;v=w,s-v) VE(vsub,S,n,w=v-2*Ones;v=w,v-2) VE(vself,S,n,v=v+Ones,v+1) \
 VE(szero,S,n,v=Zeros(n),0) VE(szone,S,n,v=Ones(n),1) VE(szs,S,n,v=s*Ones(n),s) VE(szd,S,n,v=Ones(n)/s,1/s) VE(szn,S,n,v=-Ones(n),-1) VE(szp,S,n,v=w+s*Ones(n),w[i]+s) VE(szm,S,n,v=w-Ones(n),w[i]-1)
#define VSET(S) VALL(S,1) VALL(S,3) VALL(S,5)
#if SUITE==1
VSET(VFix) VSET(VRef) VSET(VDyn) VSET(VOwn) VSET(VRsz) VSET(VSub) VSET(VSubD) VSET(VCol) VSET(VColD) VSET(VRow) VSET(VDiag) VSET(VDiagD) VSET(VStrSub) VSET(VStrSubD)
#endif
// matrices: I is 1 on the diagonal
#define ME(nm,S,r,c,e,x) \
 LIB(nm##_##S##_##r##c)(Arr<P,S<r MC c>::N>&o,const Arr<P,r*c>&wa,const P&s){ Matrix<r,c,P> w; for(int i=0;i<r*c;i++) w(i/c,i%c)=wa[i]; S<r,c>::with(o,[&](auto&m){ e; }); } \
 REF(nm##_##S##_##r##c)(Arr<P,S<r MC c>::N>&o,const Arr<P,r*c>&wa,const P&s){ for(int i=0;i<r*c;i++){ P&m=o[S<r,c>::pos(i/c,i%c)]; const P w=wa[i]; const P I=(i/c==i%c); m=(x); } }
#define MALL(S,r,c) \
 ME(zero,S,r,c,m=Zeros,0) ME(one,S,r,c,m=Ones,1) ME(sone,S,r,c,m=s*Ones,s) ME(ones,S,r,c,m=Ones*s,s) ME(two,S,r,c,m=2*Ones,2) ME(div,S,r,c,m=Ones/s,1/s) ME(sdiv,S,r,c,m=s*Ones/3,s/3) ME(neg,S,r,c,m=-Ones,-1) ME(nn,S,r,c,m=-(s*Ones),-s) \
 ME(pe,S,r,c,m+=Ones,m+1) ME(me,S,r,c,m-=Ones,m-1) ME(pse,S,r,c,m+=s*Ones,m+s) ME(mse,S,r,c,m-=Ones*s,m-s) \
 ME(add,S,r,c,m=w+Ones,w+1) ME(radd,S,r,c,m=Ones+w,w+1) ME(sub,S,r,c,m=w-Ones,w-1) ME(rsub,S,r,c,m=Ones-w,1-w) ME(adds,S,r,c,m=w+s*Ones,w+s) ME(subs,S,r,c,m=w-s*Ones,w-s) ME(rsubs,S,r,c,m=s*Ones-w,s-w) \
 ME(vadd,S,r,c,w=m+Ones;m=w,m+1) ME(vrsub,S,r,c,w=s*Ones-m;m=w,s-m) ME(vself,S,r,c,m=m-2*Ones,m-2) \
 ME(szero,S,r,c,m=Zeros(r MC c),0) ME(szone,S,r,c,m=Ones(r MC c),1) ME(szs,S,r,c,m=s*Ones(r MC c),s) ME(szd,S,r,c,m=Ones(r MC c)/s,1/s) ME(szn,S,r,c,m=-Ones(r MC c),-1) ME(szp,S,r,c,m=w+s*Ones(r MC c),w+s)
#define SQ(S,n) \
 ME(id,S,n,n,m=Identity,I) ME(sid,S,n,n,m=s*Identity,s*I) ME(ids,S,n,n,m=Identity*s,s*I) ME(tid,S,n,n,m=2*Identity,2*I) ME(idd,S,n,n,m=Identity/s,I/s) ME(sidd,S,n,n,m=s*Identity/3,s*I/3) ME(iidd,S,n,n,m=4*Identity/P(8),I/2) ME(idn,S,n,n,m=-Identity,-I) ME(idnn,S,n,n,m=-(s*Identity),-s*I) ME(idsts,S,n,n,m=2*(s*Identity)*3,6*s*I) \
 ME(idpe,S,n,n,m+=Identity,m+I) ME(idme,S,n,n,m-=Identity,m-I) ME(idpse,S,n,n,m+=s*Identity,m+s*I) ME(idmse,S,n,n,m-=Identity*s,m-s*I) ME(idpie,S,n,n,m+=2*Identity,m+2*I) \
 ME(idadd,S,n,n,m=w+Identity,w+I) ME(idradd,S,n,n,m=Identity+w,w+I) ME(idsub,S,n,n,m=w-Identity,w-I) ME(idrsub,S,n,n,m=Identity-w,I-w) ME(idadds,S,n,n,m=w+s*Identity,w+s*I) ME(idradds,S,n,n,m=Identity*s+w,w+s*I) ME(idsubs,S,n,n,m=w-s*Identity,w-s*I) ME(idrsubs,S,n,n,m=s*Identity-w,s*I-w) \
 ME(idvadd,S,n,n,w=m+Identity;m=w,m+I) ME(idvrsub,S,n,n,w=s*Identity-m;m=w,s*I-m) ME(idvself,S,n,n,m=m-2*Identity,m-2*I) \
 ME(idsz,S,n,n,m=Identity(n),I) ME(idszs,S,n,n,m=s*Identity(n),s*I) ME(idszd,S,n,n,m=Identity(n)/s,I/s) ME(idszn,S,n,n,m=-Identity(n),-I) ME(idszp,S,n,n,m=w+s*Identity(n),w+s*I) ME(zsq,S,n,n,m=Zeros(n),0) 
#define MSET(S) MALL(S,2,3) MALL(S,3,2) MALL(S,1,4) MALL(S,3,3) SQ(S,1) SQ(S,2) SQ(S,4)
#if SUITE==2
MSET(MFix) MSET(MFixC) MSET(MRef) MSET(MDyn) MSET(MRowDyn) MSET(MColDyn) MSET(MDynC) MSET(MRowDynC) MSET(MT) MSET(MTD) MSET(MSub) MSET(MSubD) MSET(MSubT) MSET(MSubC) MSET(MOwn) MSET(MOwnC)
#endif
