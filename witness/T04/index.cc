// Bounds-checked builds: every single element, row or column access with an unknown index and unknown sizes
// FLAGS: -DTOON_CHECK_BOUNDS
// FLAGS: -DTOON_CHECK_BOUNDS -DPREC=float
#include <TooN/TooN.h>
#include "vf.h"
#include <utility>
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define LIMIT(x) vf_assume(x>-1000); vf_assume(x<1000);
// vectors of n elements
#define VV(nm,setup,need,e) GRD(v##nm)(int n,int s,int i,P*p,P*o){ vf_assume(n>=0); vf_assume(n<1000); vf_assume(s>=0); vf_assume(s<1000); LIMIT(i) setup; vf_require(need); e; }
#define VO(k,setup,len) \
 VV(get_##k,setup,i>=0&&i<(len),*o=v[i]) VV(set_##k,setup,i>=0&&i<(len),v[i]=P(2)) VV(add_##k,setup,i>=0&&i<(len),v[i]+=P(2)) VV(cget_##k,setup;const auto&w=v,i>=0&&i<(len),*o=w[i]) \
 VV(row_##k,setup,i>=0&&i<(len),*o=v.as_row()(0,i)) VV(col_##k,setup,i>=0&&i<(len),*o=v.as_col()(i,0)) VV(rowr_##k,setup,i==0&&(len)>1,*o=v.as_row()[i][1]) VV(colr_##k,setup,i>=0&&i<(len),*o=v.as_col()[i][0]) VV(colc_##k,setup,i==0&&(len)>1,*o=v.as_col()(1,i)) VV(dia_##k,setup,i>=0&&i<(len),*o=v.as_diagonal()[i]) VV(diaw_##k,setup,i>=0&&i<(len),v.as_diagonal()[i]=1) VV(ref_##k,setup,i>=0&&i<(len),v.ref()[i]=1)
typedef Vector<Dynamic,P,Reference> VD; typedef Vector<3,P,Reference> V3;
typedef Vector<3,P> W3; typedef Vector<Dynamic,P> WD; typedef Vector<Resizable,P> WR; typedef Vector<Dynamic,P,Internal::SliceVBase<Dynamic> > WS;
template<int A,int L,class V> static inline auto vsub(V&v){ return v.template slice<A,L>(); }
template<int A,int B,int R,int C,class V> static inline auto msub(V&v){ return v.template slice<A,B,R,C>(); }
static inline auto vsub12(V3&v){ return vsub<1,2>(v); }
VO(dyn,VD v(p,n),n)
VO(fix,V3 v(p),3)
VO(own,W3 v=V3(p),3)
VO(owd,WD v(VD(p,n)),n)
VO(rsz,WR v(VD(p,n)),n)
VO(str,WS v(p,n,s,Internal::Slicing()),n)
VO(sub,V3 w0(p);auto v=vsub12(w0),2)
VO(sbd,VD w0(p,20);vf_assume(n+s<=20);auto v=(w0.slice(s,n)),n)
#undef VO
// matrices of r x c elements; i row, j column
#define MM(nm,setup,need,e) GRD(nm)(int r,int c,int i,int j,P*p,P*o){ vf_assume(r>=0); vf_assume(r<1000); vf_assume(c>=0); vf_assume(c<1000); LIMIT(i) LIMIT(j) setup; vf_require(need); e; }
#define IN(R,C) i>=0&&i<(R)&&j>=0&&j<(C)
#define MO(k,setup,R,C) \
 MM(call_##k,setup,IN(R,C),*o=m(i,j)) MM(callw_##k,setup,IN(R,C),m(i,j)=1) MM(ccall_##k,setup;const auto&q=m,IN(R,C),*o=q(i,j)) MM(elem_##k,setup,IN(R,C),*o=m[i][j]) MM(elemw_##k,setup,IN(R,C),m[i][j]=2) MM(celem_##k,setup;const auto&q=m,IN(R,C),*o=q[i][j]) \
 MM(pair_##k,setup,IN(R,C),*o=(m[std::make_pair(i,j)])) MM(pairw_##k,setup,IN(R,C),(m[std::make_pair(i,j)])=1) MM(cpair_##k,setup;const auto&q=m,IN(R,C),*o=(q[std::make_pair(i,j)])) MM(t_##k,setup,IN(R,C),*o=m.T()(j,i)) MM(tr_##k,setup,IN(R,C),*o=m.T()[j][i]) MM(tw_##k,setup,IN(R,C),m.T()[j][i]=1) MM(ct_##k,setup;const auto&q=m,IN(R,C),*o=q.T()[j][i]) \
 MM(row_##k,setup;vf_assume((C)>0),i>=0&&i<(R),m[i]*=P(2)) MM(crow_##k,setup;const auto&q=m;vf_assume((C)>0),i>=0&&i<(R),*o=q[i][0]) MM(col_##k,setup;vf_assume((R)>0),j>=0&&j<(C),m.T()[j]*=P(2)) MM(diag_##k,setup,i>=0&&i<((R)<(C)?(R):(C)),*o=m.diagonal_slice()[i]) MM(diagw_##k,setup,i>=0&&i<((R)<(C)?(R):(C)),m.diagonal_slice()[i]=1) MM(cdiag_##k,setup;const auto&q=m,i>=0&&i<((R)<(C)?(R):(C)),*o=q.diagonal_slice()[i]) MM(ref_##k,setup,IN(R,C),m.ref()(i,j)=1)
typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR; typedef Matrix<Dynamic,Dynamic,P,Reference::ColMajor> MCM; typedef Matrix<2,3,P,Reference::RowMajor> M23; typedef Matrix<2,3,P,Reference::ColMajor> M23C; typedef Matrix<2,Dynamic,P,Reference::RowMajor> M2D; typedef Matrix<Dynamic,3,P,Reference::ColMajor> MD3; typedef Matrix<2,3,P> W23; typedef Matrix<Dynamic,Dynamic,P> WDD; typedef DiagonalMatrix<3,P> DM3; typedef DiagonalMatrix<Dynamic,P> DMD;
static inline auto msub0122(M23&v){ return msub<0,1,2,2>(v); } template<class R> static inline auto msl_(R r){ return r.template slice<4,3>(); } static inline auto msl(MR&m,int i){ return msl_(m[i]); }
MO(dyn,MR m(p,r,c),r,c)
MO(dyc,MCM m(p,r,c),r,c)
MO(fix,M23 m(p),2,3)
MO(fixc,M23C m(p),2,3)
MO(rdy,M2D m(p,2,c),2,c)
MO(cdy,MD3 m(p,r,3),r,3)
MO(own,W23 m=M23(p),2,3)
MO(owd,WDD m(MR(p,r,c)),r,c)
MO(sub,M23 m0(p);auto m=msub0122(m0),2,2)
MO(sbd,MR m0(p,20,20);vf_assume(r<=19);vf_assume(c<=18);auto m=(m0.slice(1,2,r,c)),r,c)
MO(sbt,MR m0(p,20,20);vf_assume(r<=18);vf_assume(c<=19);auto m=(m0.T().slice(2,1,r,c)),r,c)
// a view of a view keeps its own limits
MM(rowsl,MR m(p,20,20);vf_assume(c<=18);vf_assume(i>=0);vf_assume(i<20),j>=0&&j<c,m[i].slice(2,c)[j]=1)
MM(colsl,MR m(p,20,20);vf_assume(r<=18);vf_assume(j>=0);vf_assume(j<20),i>=0&&i<r,m.T()[j].slice(2,r)[i]=1)
MM(fixsl,MR m(p,20,20);vf_assume(i>=0);vf_assume(i<20),j>=0&&j<3,(msl(m,i)[j]=1))
// diagonal matrices
#define DD(k,setup,N) MM(d_##k,setup,i>=0&&i<(N),*o=d[i]) MM(dw_##k,setup,i>=0&&i<(N),d[i]=2) MM(cd_##k,setup;const auto&q=d,i>=0&&i<(N),*o=q[i]) MM(ds_##k,setup,i>=0&&i<(N),*o=d.diagonal_slice()[i])
DD(f,DM3 d{V3(p)},3) DD(y,DMD d{VD(p,r)},r)
