// Defining equations of the direct solvers, stated without any reference to how they work inside.
#pragma once
#include "lapack_model.h"
#include "shapes.h"
#ifndef PREC
#define PREC double
#endif
namespace so { typedef PREC P; using namespace TooN; using namespace sh;
// r = A x for x of n rows and k columns (row-major out)
template<class M,class X> static inline void mulv(const M&A,const X&x,int n,P*r){ for(int i=0;i<n;i++){ P s=0; for(int j=0;j<n;j++) s+=A(i,j)*x[j]; r[i]=s; } }
template<class M,class X> static inline void mulm(const M&A,const X&x,int n,int k,P*r){ for(int i=0;i<n;i++) for(int c=0;c<k;c++){ P s=0; for(int j=0;j<n;j++) s+=A(i,j)*x(j,c); r[i*k+c]=s; } }
template<int n> struct Perm; 
static inline P det1(const P*a){ return a[0]; }
template<int n> static inline P det(const P*a){ if constexpr(n==1) return a[0]; else { P s=0,b[n*n]; for(int c=0;c<n;c++){ for(int i=1;i<n;i++) for(int j=0,q=0;j<n;j++) if(j!=c) b[(i-1)*(n-1)+q++]=a[i*n+j]; s+=((c&1)?-a[c]:a[c])*det<n-1>(b); } return s; } }
// a symmetric function of the columns of an n x n array: equal for two arrays iff (generically) their columns agree up to order
template<int n,class F> static inline void colset(F at,P*o){ static const int w[6]={3,5,-7,11,2,13}; for(int k=0;k<n;k++) o[k]=0; for(int c=0;c<n;c++){ P x=1; for(int i=0;i<n;i++) x+=w[i]*at(i,c); P y=x; for(int k=0;k<n;k++){ o[k]+=y; y*=x; } } }
}
