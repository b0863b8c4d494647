// SymEigen<3> finds its eigenvalues from the upper triangle (its test for a zero matrix looks at the whole of it).
// Wv stands for the results: it keeps what is stored first and leaves the eigenvectors alone.
// TIME: 200
#include "solve.h"
struct Wv{ double v; Wv()=default; Wv(double x):v(x){} operator double() const{ return v; } Wv&operator*=(double){ return *this; } Wv&operator/=(double){ return *this; } Wv&operator+=(double){ return *this; } };
static inline bool operator>(const Wv&,const Wv&){ return false; }
#include <TooN/SymEigen.h>
using namespace so;
namespace TooN { template<int N,class B> inline double norm_1(const Vector<N,Wv,B>&){ return 1e300; } template<int N,class B> inline double norm_sq(const Vector<N,Wv,B>&){ return 1; }
template<> struct IsField<Wv>{ static const int value=1; }; }
CHK(triangle_se_3_st)(const Arr<P,9>&a,const Arr<P,9>&o){ P e[9]; for(int i=0;i<3;i++) for(int j=0;j<3;j++) e[i*3+j]= i>j? o[i*3+j] : a[i*3+j];
 vf_assume(a[4]>0); vf_assume(a[0]>0); Matrix<3,3,Wv> g; Vector<3,Wv> x,y; const Matrix<3,3,P> A=wrapMatrix<3,3>(a),E=wrapMatrix<3,3>((const P*)e); TooN::Internal::ComputeSymEigen<3>::compute(A,g,x);  TooN::Internal::ComputeSymEigen<3>::compute(E,g,y); for(int i=0;i<3;i++) vf_assert(x[i].v==y[i].v); }
