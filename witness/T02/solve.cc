// Solvers and decompositions on operands whose sizes are arguments
// FLAGS:
#include <TooN/TooN.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/Cholesky.h>
#include <TooN/determinant.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include "vf.h"
typedef double P;
using namespace TooN;
#define MC_ ,
typedef Vector<Dynamic,P,Reference> VD; typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR;
template<class V> static inline void keep(const V&v,P*o){ if(v.size()>0) *o=v[0]; }
template<class M> static inline void keepm(const M&v,P*o){ if(v.num_rows()>0&&v.num_cols()>0) *o=v(0,0); }
#define MM(nm,need,e) GRD(nm)(int r,int c,int k,int l,P*p,P*q,P*o){ vf_assume(r>=0); vf_assume(c>=0); vf_assume(k>=0); vf_assume(l>=0); vf_assume(r<1000); vf_assume(c<1000); vf_assume(k<1000); vf_assume(l<1000); MR a(p,r,c); MR b(q,k,l); VD v(q,k); VD w(q,l); Matrix<> A(a); Vector<> V(v); Matrix<> B(b); vf_require(need); e; }
MM(gev,r==c&&r==k,keep(gaussian_elimination(A,V),o))
MM(gem,r==c&&r==k,keepm(gaussian_elimination(A,B),o))
// Cholesky: square argument, right hand sides with as many rows
MM(chol,r==c,Cholesky<> ch(A)) MM(cholv,r==c&&r==k,Cholesky<> ch(A);keep(ch.backsub(V),o)) MM(cholm,r==c&&r==k,Cholesky<> ch(A);keepm(ch.backsub(B),o)) MM(cholr,r==c&&r==k,Cholesky<> ch(A);keep(ch.backsub(v),o)) MM(chmah,r==c&&r==k,Cholesky<> ch(A);*o=ch.mahalanobis(v))
MM(chcompute,r==c&&r==k,Cholesky<> ch(k);ch.compute(A))
// determinant
MM(det,r==c,*o=determinant(a)) MM(steps_detg,r==c,*o=determinant_gaussian_elimination(a))
// weighted least squares on k parameters
#define WLSK WLS<> s(k)
MM(wls1,l==k,WLSK;s.add_mJ(2.,w)) MM(steps_wlsw,l==k,WLSK;s.add_mJ(2.,Vector<>(w),3.)) MM(wlsp,l==k,WLSK;s.add_prior(w)) MM(wlsP,r==k&&c==k,WLSK;s.add_prior(a)) MM(wlspl,l==k,WLSK;WLS<> t(l);s+=t)
MM(wlsm,c==k&&r==l,WLSK;s.add_mJ(w,a)) MM(wlsmw,c==k&&r==l,WLSK;s.add_mJ(w,a,2.))
GRD(steps_wlsc)(int n,int m,int r,int c,int x,int y,P*p,P*q,P*s,P*o){ vf_assume(n>=0); vf_assume(m>=0); vf_assume(r>=0); vf_assume(c>=0); vf_assume(x>=0); vf_assume(y>=0); vf_assume(n<1000); vf_assume(m<1000); vf_assume(r<1000); vf_assume(c<1000); WLS<> w(n); vf_require(r==n&&c==m&&x==m&&y==m); w.add_mJ(VD(p,m),MR(q,r,c),MR(s,x,y)); }
GRD(steps_wlsr)(int n,int m,int r,int c,int x,int y,P*p,P*q,P*s,P*o){ vf_assume(n>=0); vf_assume(m>=0); vf_assume(r>=0); vf_assume(c>=0); vf_assume(x>=0); vf_assume(y>=0); vf_assume(n<1000); vf_assume(m<1000); vf_assume(r<1000); vf_assume(c<1000); WLS<> w(n); vf_require(r==m&&c==n&&x==m&&y==m); w.add_mJ_rows(VD(p,m),MR(q,r,c),MR(s,x,y)); }
// sparse blocks must lie inside the system
GRD(wlss)(int n,int m,int i,P*p,P*o){ vf_assume(n>=0); vf_assume(m>=0); vf_assume(n<1000); vf_assume(m<1000); vf_assume(i<1000); vf_assume(i>-1000); WLS<> w(n); vf_require(i>=0&&i+m<=n); w.add_sparse_mJ(2.,VD(p,m),i,3.); }
GRD(wlss3)(int m,int i,P*p,P*o){ vf_assume(m>=0); vf_assume(m<1000); vf_assume(i<1000); vf_assume(i>-1000); WLS<4> w; vf_require(i>=0&&i+m<=4); w.add_sparse_mJ(2.,VD(p,m),i); }
GRD(wlss33)(int i,P*p,P*o){ vf_assume(i<1000); vf_assume(i>-1000); WLS<4> w; vf_require(i>=0&&i+3<=4); w.add_sparse_mJ(2.,Vector<3,P,Reference>(p),i); }
GRD(steps_wlssr)(int n,int m,int i,int r,int c,int x,int y,P*p,P*q,P*s,P*o){ vf_assume(n>=0); vf_assume(m>=0); vf_assume(r>=0); vf_assume(c>=0); vf_assume(x>=0); vf_assume(y>=0); vf_assume(n<1000); vf_assume(m<1000); vf_assume(r<1000); vf_assume(c<1000); vf_assume(i<1000); vf_assume(i>-1000); WLS<> w(n); vf_require(r==m&&x==m&&y==m&&i>=0&&i+c<=n); w.add_sparse_mJ_rows(VD(p,m),MR(q,r,c),i,MR(s,x,y)); }
// robust estimators
MM(irls,l==k,IRLS<Dynamic MC_ P MC_ RobustI> s(k);s.set_sd(1);s.add_mJ(2.,w)) MM(irlsp,l==k,IRLS<Dynamic MC_ P MC_ RobustII> s(k);s.set_sd(1);IRLS<Dynamic MC_ P MC_ RobustII> t(l);s+=t) MM(irls3,l==3,IRLS<3 MC_ P MC_ RobustI> s;s.set_sd(1);s.add_mJ(2.,w))
