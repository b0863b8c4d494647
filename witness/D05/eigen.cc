// Queries of the symmetric eigen-decomposition, written out from the factors it returns
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/SymEigen.h>
using namespace so;
enum { DY=-1 };
// the decomposition holds whatever vectors and values are put into it
#define MK(n,Z) SymEigen<Z,P> e(n); e.get_evectors()=wrapMatrix<n,n>(V); e.get_evalues()=wrapVector<n>(L); const SymEigen<Z,P>&d=e;
#define IN(n) const Arr<P,n*n>&V,const Arr<P,n>&L
template<int n> static inline void comb(const P*V,const P*w,P*r){ for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P x=0; for(int k=0;k<n;k++) x+=V[k*n+i]*w[k]*V[k*n+j]; r[i*n+j]=x; } }
// values ascend: the largest magnitude is at one of the ends; those not above 1/c of it count as zero
template<int n> static inline void idg(const P*L,double c,P*w){ P m=-L[0]>L[n-1]?-L[0]:L[n-1]; for(int i=0;i<n;i++){ P a=L[i]<0?-L[i]:L[i]; w[i]=a*c>m?1/L[i]:P(0); } }
#define OUT(n,x) vf_assert(x.num_rows()==n&&x.num_cols()==n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i*n+j]=x(i,j);
#define E(n,nm,Z) \
 LIB(se_pinv_##n##_##nm)(Arr<P,n*n>&r,IN(n),const double&c){ vf_assume(c>0); MK(n,Z) auto x=d.get_pinv(c); OUT(n,x) } \
 REF(se_pinv_##n##_##nm)(Arr<P,n*n>&r,IN(n),const double&c){ vf_assume(c>0); P w[n]; idg<n>(L,c,w); comb<n>(V,w,r); } \
 LIB(se_pinvd_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ MK(n,Z) auto x=d.get_pinv(); OUT(n,x) } \
 REF(se_pinvd_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ P w[n]; idg<n>(L,1e9,w); comb<n>(V,w,r); } \
 LIB(se_invd_##n##_##nm)(Arr<P,n>&r,IN(n),const double&c){ vf_assume(c>0); MK(n,Z) auto x=d.get_inv_diag(c); vf_assert(x.size()==n); for(int i=0;i<n;i++) r[i]=x[i]; } \
 REF(se_invd_##n##_##nm)(Arr<P,n>&r,IN(n),const double&c){ vf_assume(c>0); idg<n>(L,c,r); } \
 LIB(se_det_##n##_##nm)(P&t,bool&p,bool&q,IN(n)){ MK(n,Z) t=d.get_determinant(); p=d.is_posdef(); q=d.is_negdef(); } \
 REF(se_det_##n##_##nm)(P&t,bool&p,bool&q,IN(n)){ t=1; p=q=true; for(int i=0;i<n;i++){ t*=L[i]; if(!(L[i]>0)) p=false; if(!(L[i]<0)) q=false; } } \
 LIB(se_sqrt_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ for(int i=0;i<n;i++) vf_assume(L[i]>=0); MK(n,Z) auto x=d.get_sqrtm(); OUT(n,x) } \
 REF(se_sqrt_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ P w[n]; for(int i=0;i<n;i++) w[i]=std::sqrt(L[i]); comb<n>(V,w,r); } \
 LIB(se_isqrt_##n##_##nm)(Arr<P,n*n>&r,IN(n),const double&c){ vf_assume(c>0); for(int i=0;i<n;i++) vf_assume(L[i]>=0); MK(n,Z) auto x=d.get_isqrtm(c); OUT(n,x) } \
 REF(se_isqrt_##n##_##nm)(Arr<P,n*n>&r,IN(n),const double&c){ vf_assume(c>0); P w[n],m=std::sqrt(L[n-1]); for(int i=0;i<n;i++){ P s=std::sqrt(L[i]); w[i]=s*c>m?1/s:P(0); } comb<n>(V,w,r); } \
 LIB(se_isqrtd_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ for(int i=0;i<n;i++) vf_assume(L[i]>0); MK(n,Z) auto x=d.get_isqrtm(); OUT(n,x) } \
 REF(se_isqrtd_##n##_##nm)(Arr<P,n*n>&r,IN(n)){ P w[n],m=std::sqrt(L[n-1]); for(int i=0;i<n;i++){ P s=std::sqrt(L[i]); w[i]=s*1e9>m?1/s:P(0); } comb<n>(V,w,r); }
#define EV(n,nm,Z,S) \
 LIB(se_bsv_##n##_##nm##_##S)(Arr<P,n>&r,IN(n),const Arr<P,S<n>::N>&b){ MK(n,Z) S<n>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.size()==n); for(int i=0;i<n;i++) r[i]=x[i]; }); } \
 REF(se_bsv_##n##_##nm##_##S)(Arr<P,n>&r,IN(n),const Arr<P,S<n>::N>&b){ P w[n],p[n*n]; idg<n>(L,1e9,w); comb<n>(V,w,p); for(int i=0;i<n;i++){ P x=0; for(int j=0;j<n;j++) x+=p[i*n+j]*b[S<n>::pos(j)]; r[i]=x; } }
#define EM(n,nm,Z,S,l) \
 LIB(se_bsm_##n##_##nm##_##S)(Arr<P,n*l>&r,IN(n),const Arr<P,S<n,l>::N>&b){ MK(n,Z) S<n,l>::with(b,[&](auto&v){ auto x=d.backsub(v); vf_assert(x.num_rows()==n&&x.num_cols()==l); for(int i=0;i<n;i++) for(int j=0;j<l;j++) r[i*l+j]=x(i,j); }); } \
 REF(se_bsm_##n##_##nm##_##S)(Arr<P,n*l>&r,IN(n),const Arr<P,S<n,l>::N>&b){ P w[n],p[n*n]; idg<n>(L,1e9,w); comb<n>(V,w,p); for(int i=0;i<n;i++) for(int q=0;q<l;q++){ P x=0; for(int j=0;j<n;j++) x+=p[i*n+j]*b[S<n,l>::pos(j,q)]; r[i*l+q]=x; } }
#define EA(n,nm,Z) E(n,nm,Z) EV(n,nm,Z,VFix) EV(n,nm,Z,VCol) EV(n,nm,Z,VOwn) EV(n,nm,Z,VSubD) EM(n,nm,Z,MFix,2) EM(n,nm,Z,MFixC,1) EM(n,nm,Z,MOwn,3) EM(n,nm,Z,MSubT,2)
EA(2,st,2) EA(3,st,3) EA(4,st,4) EA(1,st,1) EA(2,dy,DY) EA(3,dy,DY) EA(1,dy,DY)
