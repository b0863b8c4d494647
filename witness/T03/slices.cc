// Slices whose start, length or parent size is only known at run time, over the whole range of int
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -DPREC=float
#include <TooN/TooN.h>
#include "vf.h"
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define ANYINT(x) vf_assume(x>=-2147483647-1); vf_assume(x<=2147483647);
#define FITS(s,l,n) ((s)>=0&&(l)>=0&&(l)<=(n)&&(s)<=(n)-(l))
typedef Vector<Dynamic,P,Reference> VD; typedef Vector<5,P,Reference> V5; typedef Vector<Dynamic,const P,Reference> CVD; typedef Vector<5,P> W5; typedef Vector<Dynamic,P> WD; typedef Vector<Resizable,P> WR; typedef Vector<Dynamic,P,Internal::SliceVBase<Dynamic> > VS;
template<int A,int L,class V> static inline int ss(V&v){ return v.template slice<A,L>().size(); }
template<int A,int L,class V> static inline int sm(V&v,int s,int l){ return v.template slice<A,L>(s,l).size(); }
template<class V> static inline int sd(V&v,int s,int l){ return v.slice(s,l).size(); }
#define VV(nm,setup,need,e,len) GRD(wide_##nm)(int n,int s,int l,int st,P*p,int*o){ vf_assume(n>=0); vf_assume(n<1000); vf_assume(st>=0); vf_assume(st<1000); ANYINT(s) ANYINT(l) setup; vf_require(need); int z=e; vf_assert(z==(len)); *o=z; }
#define VO(k,setup,N) \
 VV(dyn_##k,setup,FITS(s,l,N),sd(v,s,l),l) VV(cdyn_##k,setup;const auto&w=v,FITS(s,l,N),sd(w,s,l),l) VV(twice_##k,setup;vf_assume(N>=3);auto w=v.slice(1,(N)-1),FITS(s,l,(N)-1),sd(w,s,l),l) VV(ref_##k,setup;auto w=v.ref(),FITS(s,l,N),sd(w,s,l),l) VV(as_##k,setup;auto w=v.as_slice(),FITS(s,l,N),sd(w,s,l),l)
#define VT(k,setup,N) VV(start_##k,setup,s==1&&FITS(1,l,N),(sm<1,Dynamic>(v,s,l)),l) VV(len_##k,setup,l==2&&FITS(s,2,N),(sm<Dynamic,2>(v,s,l)),2) VV(both_##k,setup,s==1&&l==2&&FITS(1,2,N),(sm<1,2>(v,s,l)),2) VV(cstart_##k,setup;const auto&w=v,s==1&&FITS(1,l,N),(sm<1,Dynamic>(w,s,l)),l) VV(clen_##k,setup;const auto&w=v,l==2&&FITS(s,2,N),(sm<Dynamic,2>(w,s,l)),2) VV(end_##k,setup,s==0&&FITS(0,l,N),(sm<0,Dynamic>(v,s,l)),l)
#define VN(k,setup,N) VV(fixed_##k,setup,FITS(1,2,N),(ss<1,2>(v)),2) VV(all_##k,setup,FITS(0,5,N),(ss<0,5>(v)),5) VV(empty_##k,setup,FITS(3,0,N),(ss<3,0>(v)),0) VV(cfixed_##k,setup;const auto&w=v,FITS(4,1,N),(ss<4,1>(w)),1)
VO(vd,VD v(p,n),n) VT(vd,VD v(p,n),n) VN(vd,VD v(p,n),n)
VO(v5,V5 v(p),5) VT(v5,V5 v(p),5)
VO(w5,W5 v=V5(p),5) VT(w5,W5 v=V5(p),5)
VO(wd,WD v(VD(p,n)),n) VT(wd,WD v(VD(p,n)),n) VN(wd,WD v(VD(p,n)),n)
VO(wr,WR v(VD(p,n)),n) VN(wr,WR v(VD(p,n)),n)
VO(vs,VS v(p,n,st,Internal::Slicing()),n) VT(vs,VS v(p,n,st,Internal::Slicing()),n) VN(vs,VS v(p,n,st,Internal::Slicing()),n)
// matrices
typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR; typedef Matrix<Dynamic,Dynamic,P,Reference::ColMajor> MCM; typedef Matrix<4,5,P,Reference::RowMajor> M45; typedef Matrix<4,5,P> W45; typedef Matrix<4,Dynamic,P,Reference::RowMajor> M4D; typedef Matrix<Dynamic,5,P,Reference::ColMajor> MD5; typedef Matrix<Dynamic,Dynamic,P> WDD;
template<class M> static inline int md(M&m,int a,int b,int r,int c,int*o){ auto x=m.slice(a,b,r,c); o[1]=x.num_cols(); return x.num_rows(); }
template<int A,int B,int R,int C,class M> static inline int mm(M&m,int a,int b,int r,int c,int*o){ auto x=m.template slice<A,B,R,C>(a,b,r,c); o[1]=x.num_cols(); return x.num_rows(); }
template<int A,int B,int R,int C,class M> static inline int ms(M&m,int*o){ auto x=m.template slice<A,B,R,C>(); o[1]=x.num_cols(); return x.num_rows(); }
#define MM(nm,setup,need,e,nr,nc) GRD(wide_m##nm)(int n,int k,int a,int b,int r,int c,P*p,int*o){ vf_assume(n>=0); vf_assume(n<1000); vf_assume(k>=0); vf_assume(k<1000); ANYINT(a) ANYINT(b) ANYINT(r) ANYINT(c) setup; vf_require(need); int z=e; vf_assert(z==(nr)&&o[1]==(nc)); }
#define BOX(a,b,r,c,R,C) (FITS(a,r,R)&&FITS(b,c,C))
#define MO(t,setup,R,C) \
 MM(dyn_##t,setup,BOX(a,b,r,c,R,C),md(m,a,b,r,c,o),r,c) MM(cdyn_##t,setup;const auto&q=m,BOX(a,b,r,c,R,C),md(q,a,b,r,c,o),r,c) MM(T_##t,setup;auto q=m.T(),BOX(a,b,r,c,C,R),md(q,a,b,r,c,o),r,c) MM(cT_##t,setup;const auto&w=m;auto q=w.T(),BOX(a,b,r,c,C,R),md(q,a,b,r,c,o),r,c) MM(ref_##t,setup;auto q=m.ref(),BOX(a,b,r,c,R,C),md(q,a,b,r,c,o),r,c) \
 MM(twice_##t,setup;vf_assume(R>=2);vf_assume(C>=3);auto q=m.slice(1,2,(R)-1,(C)-2),BOX(a,b,r,c,(R)-1,(C)-2),md(q,a,b,r,c,o),r,c) \
 MM(rows_##t,setup,a==1&&c==2&&BOX(1,b,r,2,R,C),(mm<1,Dynamic,Dynamic,2>(m,a,b,r,c,o)),r,2) MM(cols_##t,setup,b==1&&r==2&&BOX(a,1,2,c,R,C),(mm<Dynamic,1,2,Dynamic>(m,a,b,r,c,o)),2,c) MM(size_##t,setup,r==2&&c==3&&BOX(a,b,2,3,R,C),(mm<Dynamic,Dynamic,2,3>(m,a,b,r,c,o)),2,3) MM(csize_##t,setup;const auto&q=m,r==2&&c==3&&BOX(a,b,2,3,R,C),(mm<Dynamic,Dynamic,2,3>(q,a,b,r,c,o)),2,3) MM(orig_##t,setup,a==1&&b==2&&BOX(1,2,r,c,R,C),(mm<1,2,Dynamic,Dynamic>(m,a,b,r,c,o)),r,c) MM(four_##t,setup,a==1&&b==2&&r==2&&c==3&&BOX(1,2,2,3,R,C),(mm<1,2,2,3>(m,a,b,r,c,o)),2,3) \
 MM(row_##t,setup;vf_assume(R>=2),FITS(a,r,C),(o[1]=c,m[1].slice(a,r).size()),r,c) MM(col_##t,setup;vf_assume(C>=2),FITS(a,r,R),(o[1]=1,m.T()[1].slice(a,r).size()),r,1) MM(diag_##t,setup,FITS(a,r,((R)<(C)?(R):(C))),(o[1]=1,m.diagonal_slice().slice(a,r).size()),r,1)
#define MN(t,setup,R,C) MM(fixed_##t,setup,BOX(1,2,2,3,R,C),(ms<1,2,2,3>(m,o)),2,3) MM(all_##t,setup,BOX(0,0,4,5,R,C),(ms<0,0,4,5>(m,o)),4,5) MM(cfixed_##t,setup;const auto&q=m,BOX(3,4,1,1,R,C),(ms<3,4,1,1>(q,o)),1,1)
MO(mr,MR m(p,n,k),n,k) MN(mr,MR m(p,n,k),n,k)
MO(mc,MCM m(p,n,k),n,k) MN(mc,MCM m(p,n,k),n,k)
MO(m45,M45 m(p),4,5) MO(w45,W45 m=M45(p),4,5)
MO(m4d,M4D m(p,4,k),4,k) MN(m4d,M4D m(p,4,k),4,k)
MO(md5,MD5 m(p,n,5),n,5) MN(md5,MD5 m(p,n,5),n,5)
MO(wdd,WDD m(MR(p,n,k)),n,k) MN(wdd,WDD m(MR(p,n,k)),n,k)
