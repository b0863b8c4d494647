// Every operation on operands whose sizes are arguments: reaches an element only when the sizes fit
// FLAGS:
// FLAGS: -DPREC=float
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include "vf.h"
#include <utility>
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define MC_ ,
typedef Vector<Dynamic,P,Reference> VD; typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR; typedef Matrix<Dynamic,Dynamic,P,Reference::ColMajor> MC;
typedef Vector<3,P,Reference> V3; typedef Matrix<2,3,P,Reference::RowMajor> M23;
static inline P sink(P x,P*o){ *o=x; return x; }
template<class V> static inline void keep(const V&v,P*o){ if(v.size()>0) *o=v[0]; }
template<class M> static inline void keepm(const M&v,P*o){ if(v.num_rows()>0&&v.num_cols()>0) *o=v(0,0); }
// vectors: a of n elements, b of m elements
#define VV(nm,A,B,need,e) GRD(nm)(int n,int m,P*p,P*q,P*o){ vf_assume(n>=0); vf_assume(m>=0); A; B; vf_require(need); e; }
#define VOPS(k,A,B,need) \
 VV(asg_##k,A,B,need,a=b) VV(pe_##k,A,B,need,a+=b) VV(me_##k,A,B,need,a-=b) VV(eq_##k,A,B,need,*o=a==b) VV(ne_##k,A,B,need,*o=a!=b) \
 VV(add_##k,A,B,need,keep(a+b,o)) VV(sub_##k,A,B,need,keep(a-b,o)) VV(dot_##k,A,B,need,*o=a*b) VV(dm_##k,A,B,need,keep(diagmult(a,b),o)) VV(dmul_##k,A,B,need,keep(a.as_diagonal()*b,o)) VV(dmulr_##k,A,B,need,keep(a*b.as_diagonal(),o)) \
 VV(addsub_##k,A,B,need,a=a+b) VV(swap_##k,A,B,need,swap(a,b))
#define DN VD a(p,n)
#define DM VD b(q,m)
VOPS(dd,DN,DM,n==m)
VOPS(sd,V3 a(p),DM,m==3)
VOPS(ds,DN,V3 b(q),n==3)
typedef Vector<Dynamic,P,Internal::SliceVBase<Dynamic> > VS;
VOPS(rs,VS a(p MC_ n MC_ 2 MC_ Internal::Slicing()),DM,n==m)
VV(cpm,DN,DM,n==3,keepm(cross_product_matrix(a),o))
// matrices: a of r x c elements, b of k x l
#define MM(nm,A,B,need,e) GRD(nm)(int r,int c,int k,int l,P*p,P*q,P*o){ vf_assume(r>=0); vf_assume(c>=0); vf_assume(k>=0); vf_assume(l>=0); A; B; vf_require(need); e; }
#define MOPS(t,A,B,same) \
 MM(masg_##t,A,B,same,a=b) MM(mpe_##t,A,B,same,a+=b) MM(mme_##t,A,B,same,a-=b) MM(meq_##t,A,B,same,*o=a==b) MM(mne_##t,A,B,same,*o=a!=b) MM(madd_##t,A,B,same,keepm(a+b,o)) MM(msub_##t,A,B,same,keepm(a-b,o))
#define AD MR a(p,r,c)
#define BD MR b(q,k,l)
#define AC MC a(p,r,c)
#define BC MC b(q,k,l)
typedef Matrix<Dynamic,3,P,Reference::RowMajor> MD3; typedef Matrix<2,Dynamic,P,Reference::ColMajor> M2D; typedef Matrix<Dynamic,Dynamic,P,Internal::Slice<Dynamic,Dynamic> > MS;
#define AS MS a(p,r,c,7,2,Internal::Slicing())
#define BS MS b(q,k,l,2,7,Internal::Slicing())
MOPS(dd,AD,BD,r==k&&c==l) MOPS(dc,AD,BC,r==k&&c==l) MOPS(cd,AC,BD,r==k&&c==l) MOPS(ss,AS,BS,r==k&&c==l)
MOPS(sd,M23 a(p),BD,k==2&&l==3) MOPS(ds,AD,M23 b(q),r==2&&c==3) MOPS(pd,MD3 a(p MC_ r MC_ 3),BD,r==k&&l==3) MOPS(dp,AD,M2D b(q MC_ 2 MC_ l),r==2&&c==l) MOPS(pp,MD3 a(p MC_ r MC_ 3),M2D b(q MC_ 2 MC_ l),r==2&&l==3)
MOPS(td,MR a0(p MC_ r MC_ c); auto a=a0.T(),BD,c==k&&r==l)
// products
MM(prod_dd,AD,BD,c==k,keepm(a*b,o)) MM(prod_cd,AC,BD,c==k,keepm(a*b,o)) MM(prod_dc,AD,BC,c==k,keepm(a*b,o)) MM(prod_ss,AS,BS,c==k,keepm(a*b,o)) MM(prod_sd,M23 a(p),BD,k==3,keepm(a*b,o)) MM(prod_ds,AD,M23 b(q),c==2,keepm(a*b,o))
MM(prod_pd,MD3 a(p MC_ r MC_ 3),BD,k==3,keepm(a*b,o)) MM(prod_dp,AD,M2D b(q MC_ 2 MC_ l),c==2,keepm(a*b,o)) MM(prodt,MR a0(p MC_ r MC_ c); auto a=a0.T(),BD,r==k,keepm(a*b,o))
MM(prodasg,AD,BD,c==k,Matrix<> x(a*b);keepm(x MC_ o))
// matrix with vector of k elements
#define MV(t,A,B,right,left) MM(mv_##t,A,B,right,keep(a*b,o)) MM(vm_##t,A,B,left,keep(b*a,o)) MM(dmv_##t,A,B,right,keepm(diagmult(a,b),o)) MM(vdm_##t,A,B,left,keepm(diagmult(b,a),o)) MM(mD_##t,A,B,right,keepm(a*b.as_diagonal(),o)) MM(Dm_##t,A,B,left,keepm(b.as_diagonal()*a,o))
#define VK VD b(q,k)
MV(dd,AD,VK,c==k,r==k) MV(cd,AC,VK,c==k,r==k) MV(sd,M23 a(p),VK,k==3,k==2) MV(ds,AD,V3 b(q),c==3,r==3) MV(pd,MD3 a(p MC_ r MC_ 3),VK,k==3,r==k) MV(p2,M2D a(p MC_ 2 MC_ c),VK,k==c,k==2) MV(ss,AS,VK,c==k,r==k)
MM(row_asg,AD;vf_assume(r>0),VK,k==c,a[0]=b) MM(col_asg,AD;vf_assume(c>0),VK,k==r,a.T()[0]=b) MM(diag_asg,AD,VK,k==(r<c?r:c),a.diagonal_slice()=b) MM(asrow,AD,VK,r==1&&c==k,a=b.as_row()) MM(ascol,AD,VK,c==1&&r==k,a=b.as_col())
// square objects
#define SQ(nm,e) MM(sq_##nm##_dd,AD,VK,r==c,e) MM(sq_##nm##_cd,AC,VK,r==c,e) MM(sq_##nm##_pd,MD3 a(p MC_ r MC_ 3),VK,r==3,e) MM(sq_##nm##_p2,M2D a(p MC_ 2 MC_ c),VK,c==2,e)
SQ(id,a=Identity) SQ(sid,a=b.size()*Identity) SQ(pid,a+=Identity) SQ(mid,a-=Identity) SQ(addid,keepm(a+Identity MC_ o)) SQ(subid,keepm(a-Identity MC_ o)) SQ(idsub,keepm(Identity-a MC_ o)) SQ(trace,*o=trace(a)) SQ(symm,Symmetrize(a))
// objects of fixed size made from run-time sized ones
VV(mk_v,DN,DM,m==3,Vector<3 MC_ P> x(b);*o=x[0]) VV(mk_v1,DN,DM,m==1,Vector<1 MC_ P> x(b);*o=x[0]) VV(mk_vo,DN;Vector<Dynamic MC_ P> x(a),DM,n==m,x=b;keep(x MC_ o)) VV(mk_vr,vf_assume(n<1000);DN;Vector<Resizable MC_ P> x(a),DM,n==m,x+=b) VV(mk_sl,DN;vf_assume(m>=5),DM,n==2,b.template slice<1 MC_ 2>()=a) VV(mk_sl2,DN;vf_assume(m>=5),DM,n==3,b.slice(2 MC_ 3)=a)
MM(mk_m,AD,BD,r==2&&c==3,Matrix<2 MC_ 3 MC_ P> x(a);*o=x(0 MC_ 0)) MM(mk_mc,AD,BD,r==2&&c==3,Matrix<2 MC_ 3 MC_ P MC_ ColMajor> x(a);*o=x(0 MC_ 0)) MM(mk_m1,AD,BD,r==2,Matrix<2 MC_ Dynamic MC_ P> x(a);keepm(x MC_ o)) MM(mk_m2,AD,BD,c==3,Matrix<Dynamic MC_ 3 MC_ P> x(a);keepm(x MC_ o)) MM(mk_mo,AD;Matrix<Dynamic MC_ Dynamic MC_ P> x(a),BD,r==k&&c==l,x=b;keepm(x MC_ o))
