// Matrix exponential, square root and logarithm of a matrix whose sizes are arguments; the norm that ends the series is taken as zero
// FLAGS:
#include <TooN/TooN.h>
namespace TooN { template<int R,int C,typename B> inline double norm_inf(const Matrix<R,C,double,B>&){ return 0; } }
#include <TooN/helpers.h>
#include "vf.h"
typedef double P;
using namespace TooN;
typedef Matrix<Dynamic,Dynamic,P,Reference::RowMajor> MR;
template<class M> static inline void keepm(const M&v,P*o){ if(v.num_rows()>0&&v.num_cols()>0) *o=v(0,0); }
#define MF(nm,e) GRD(nm)(int r,int c,P*p,P*o){ vf_assume(r>=0); vf_assume(c>=0); vf_assume(r<1000); vf_assume(c<1000); MR a(p,r,c); Matrix<> A(a); vf_require(r==c); keepm(e,o); } \
 GRD(nm##_ref)(int r,int c,P*p,P*o){ vf_assume(r>=0); vf_assume(c>=0); vf_assume(r<1000); vf_assume(c<1000); MR a(p,r,c); vf_require(r==c); keepm(nm##_r(a),o); }
#define exp_r TooN::exp
#define sqrt_r TooN::sqrt
#define steps_log_r TooN::log
MF(exp,TooN::exp(A)) MF(sqrt,TooN::sqrt(A)) MF(steps_log,TooN::log(A))
#define taylor_r Internal::exp_taylor
#define ltaylor_r Internal::log_taylor
MF(taylor,Internal::exp_taylor(A)) MF(ltaylor,Internal::log_taylor(A))
