// Decompositions built on external routines, on operands whose sizes are arguments.
// The routines themselves are stood in for by ones that report success and touch nothing.
// FLAGS:
#define TOON_DETERMINANT_LAPACK 2
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR_Lapack.h>
#include <TooN/determinant.h>
#include "vf.h"
typedef double P;
using namespace TooN;
typedef int I;
#define LMU __attribute__((used))
extern "C" {
LMU void vfmodel_dgetrf_(I*,I*,P*,I*,I*,I*info){ *info=0; }
LMU void vfmodel_dgetri_(I*,P*,I*,I*,P*w,I*lw,I*info){ if(*lw==-1) *w=5; *info=0; }
LMU void vfmodel_dtrsm_(char*,char*,char*,char*,I*,I*,P*,P*,I*,P*,I*){}
LMU void vfmodel_dpotrf_(const char*,const I*,P*,const I*,I*info){ *info=0; }
LMU void vfmodel_dpotrs_(const char*,const I*,const I*,const P*,const I*,P*,const I*,I*info){ *info=0; }
LMU void vfmodel_dpotri_(const char*,const I*,P*,const I*,I*info){ *info=0; }
LMU void vfmodel_dsyev_(const char*,const char*,I*,P*,I*,P*,P*w,I*lw,I*info){ if(*lw==-1) *w=5; *info=0; }
LMU void vfmodel_dgesvd_(const char*,const char*,I*,I*,P*,I*,P*,P*,I*,P*,I*,P*w,I*lw,I*info){ if(*lw==-1) *w=5; *info=0; }
LMU void vfmodel_dgeqp3_(I*,I*,P*,I*,I*,P*,P*w,I*lw,I*info){ if(*lw==-1) *w=5; *info=0; }
LMU void vfmodel_dorgqr_(I*,I*,I*,P*,I*,P*,P*w,I*lw,I*info){ if(*lw==-1) *w=5; *info=0; }
}
typedef Vector<Dynamic,P,Reference> VD; typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR;
#define MC_ ,
#define SZ vf_assume(r>0); vf_assume(c>0); vf_assume(k>0); vf_assume(l>0); vf_assume(r<100); vf_assume(c<100); vf_assume(k<100); vf_assume(l<100); MR a(p,r,c); MR b(q,k,l); VD v(q,k); VD w(q,l);
#define MM(nm,need,...) GRD(nm)(int r,int c,int k,int l,P*p,P*q,P*o){ SZ vf_require(need); __VA_ARGS__; }
// LU: square argument, right hand sides with as many rows
MM(lu,r==c,LU<> d(a)) MM(luc,r==c&&r==k,Matrix<> s(k,k);LU<> d(s);d.compute(a)) MM(steps_luv,r==c&&r==k,LU<> d(a);d.backsub(v)) MM(steps_lum,r==c&&r==k,LU<> d(a);d.backsub(b)) MM(lui,r==c,LU<> d(a);d.get_inverse())
MM(lu3,r==3&&c==3,LU<3> d(a)) MM(lu3v,k==3,Matrix<3> m=Identity;LU<3> d(m);d.backsub(v)) MM(lu3m,k==3,Matrix<3> m=Identity;LU<3> d(m);d.backsub(b))
// Cholesky
MM(steps_lch,r==c,Lapack_Cholesky<Dynamic> d(a)) MM(steps_lchv,r==c&&r==k,Lapack_Cholesky<Dynamic> d(a);d.backsub(v)) MM(steps_lchm,r==c&&r==k,Lapack_Cholesky<Dynamic> d(a);d.backsub(b)) MM(lchc,r==c&&r==k,Lapack_Cholesky<Dynamic> d(k);d.compute(a)) MM(steps_lchh,r==c&&r==k,Lapack_Cholesky<Dynamic> d(a);*o=d.mahalanobis(v))
MM(lch3v,k==3,Matrix<3> m=Identity;Lapack_Cholesky<3> d(m);d.backsub(v)) MM(lch3m,k==3,Matrix<3> m=Identity;Lapack_Cholesky<3> d(m);d.backsub(b))
// SVD: any shape, right hand sides with as many rows
MM(svd,r>=1,SVD<> d(a)) MM(svdc,r==k&&c==l,SVD<> d(k,l);d.compute(a)) MM(steps_svdv,r==k,SVD<> d(a);d.backsub(v)) MM(steps_svdm,r==k,SVD<> d(a);d.backsub(b)) MM(svd32v,k==3,Matrix<3,2> m=Zeros;SVD<3,2> d(m);d.backsub(v)) MM(svd23m,k==2,Matrix<2,3> m=Zeros;SVD<2,3> d(m);d.backsub(b)) MM(svd32,r==3&&c==2,SVD<3,2> d(a))
// symmetric eigenvectors
MM(se,r==c,SymEigen<Dynamic> d(a)) MM(sec,r==c&&r==k,SymEigen<Dynamic> d(k);d.compute(a)) MM(steps_sev,r==c&&r==k,SymEigen<Dynamic> d(a);d.backsub(v)) MM(steps_sem,r==c&&r==k,SymEigen<Dynamic> d(a);d.backsub(b)) MM(se4,r==4&&c==4,SymEigen<4> d(a)) MM(se4v,k==4,Matrix<4> m=Identity;SymEigen<4> d(m);d.backsub(v))
// QR
MM(qr,r>=1,QR_Lapack<> d(a);d.get_R();d.get_Q()) MM(qr32,r==3&&c==2,QR_Lapack<3 MC_ 2> d(a))
// determinants through LU
MM(det,r==c,*o=determinant(a)) MM(detl,r==c,*o=determinant_LU(a))
