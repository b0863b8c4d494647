// Values given one by one: makeVector, Data, brace lists, arrays
// FLAGS:
// FLAGS: -std=gnu++14 -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include <TooN/TooN.h>
#include <utility>
#include "vf.h"
using namespace TooN;
#define MC ,
template<class T,int N> using Arr=T[N];
template<class T,size_t... I> static inline void mk(T*o,const T*a,std::index_sequence<I...>){ const Vector<sizeof...(I),T> v=makeVector(a[I]...); for(size_t i=0;i<sizeof...(I);i++) o[i]=v[i]; }
template<int N,class T,size_t... I> static inline void dat(T*o,const T*a,std::index_sequence<I...>){ Vector<N,T> v=Data(a[I]...); Matrix<N,1,T> m=Data(a[I]...); Matrix<1,N,T,ColMajor> w; w=Data(a[I]...); Vector<Dynamic,T> d(N); d=Data(a[I]...); for(int i=0;i<N;i++){ o[i]=v[i]; o[N+i]=m[i][0]; o[2*N+i]=w[0][i]; o[3*N+i]=d[i]; } }
#define MK(n) \
 LIB(make##n)(Arr<double,n>&o,const Arr<double,n>&a){ mk(o,a,std::make_index_sequence<n>()); } REF(make##n)(Arr<double,n>&o,const Arr<double,n>&a){ for(int i=0;i<n;i++) o[i]=a[i]; } \
 LIB(makef##n)(Arr<float,n>&o,const Arr<float,n>&a){ mk(o,a,std::make_index_sequence<n>()); } REF(makef##n)(Arr<float,n>&o,const Arr<float,n>&a){ for(int i=0;i<n;i++) o[i]=a[i]; } DT(n)
#define DT(n) \
 LIB(data##n)(Arr<double,4*n>&o,const Arr<double,n>&a){ dat<n>(o,a,std::make_index_sequence<n>()); } REF(data##n)(Arr<double,4*n>&o,const Arr<double,n>&a){ for(int i=0;i<4*n;i++) o[i]=a[i%n]; } \
 LIB(dataf##n)(Arr<float,4*n>&o,const Arr<float,n>&a){ dat<n>(o,a,std::make_index_sequence<n>()); } REF(dataf##n)(Arr<float,4*n>&o,const Arr<float,n>&a){ for(int i=0;i<4*n;i++) o[i]=a[i%n]; }
MK(1) MK(2) MK(3) MK(4) MK(5) MK(6) MK(7) MK(8) MK(9) MK(10) MK(11) MK(12) MK(13) MK(14) MK(15) MK(16) MK(17) MK(18) MK(19) MK(20) MK(21) MK(22) MK(23) MK(24) MK(25) MK(26) MK(27) MK(28) MK(29) MK(30)
#define DT5(a) DT(a##0) DT(a##1) DT(a##2) DT(a##3) DT(a##4) DT(a##5) DT(a##6) DT(a##7) DT(a##8) DT(a##9)
DT(31) DT(32) DT(33) DT(34) DT(35) DT(36) DT(37) DT(38) DT(39) DT5(4) DT5(5) DT5(6) DT5(7) DT5(8) DT5(9) DT(100)
// brace lists and arrays
LIB(brace)(Arr<double,3>&o,Arr<double,3>&p,Arr<double,3>&q,Arr<float,2>&f,Arr<double,1>&s,const Arr<double,3>&a){ Vector<3> v={{a[0],a[1],a[2]}}; Vector<> d={a[0],a[1],a[2]}; Vector<Resizable> r={a[0],a[1],a[2]}; Vector<2,float> g={{(float)a[0],(float)a[1]}}; Vector<Dynamic> e{a[2]}; for(int i=0;i<3;i++){o[i]=v[i];p[i]=d[i];q[i]=r[i];} f[0]=g[0];f[1]=g[1]; s[0]=e[0]; }
REF(brace)(Arr<double,3>&o,Arr<double,3>&p,Arr<double,3>&q,Arr<float,2>&f,Arr<double,1>&s,const Arr<double,3>&a){ for(int i=0;i<3;i++) o[i]=p[i]=q[i]=a[i]; f[0]=a[0];f[1]=a[1];s[0]=a[2]; }
LIB(array)(Arr<double,5>&o,Arr<double,5>&p,const Arr<double,5>&a,const Arr<float,5>&b){ Vector<5> v(a); Vector<5> w(b); for(int i=0;i<5;i++){o[i]=v[i];p[i]=w[i];} }
REF(array)(Arr<double,5>&o,Arr<double,5>&p,const Arr<double,5>&a,const Arr<float,5>&b){ for(int i=0;i<5;i++){o[i]=a[i];p[i]=b[i];} }
LIB(listsize)(int&a,int&b,int&c,int&d,const double&x){ Vector<> v={x,x,x,x}; Vector<Resizable> r={x,x}; Vector<> e=std::initializer_list<double>(); Vector<Resizable> z{x}; a=v.size();b=r.size();c=e.size();d=z.size(); }
REF(listsize)(int&a,int&b,int&c,int&d,const double&x){ a=4;b=2;c=0;d=1; }
LIB(listint)(Arr<int,3>&o,Arr<int,2>&p,const Arr<int,3>&a){ Vector<3,int> v=makeVector(a[0],a[1],a[2]); Vector<Dynamic,int> w={a[1],a[2]}; for(int i=0;i<3;i++) o[i]=v[i]; for(int i=0;i<2;i++) p[i]=w[i]; }
REF(listint)(Arr<int,3>&o,Arr<int,2>&p,const Arr<int,3>&a){ for(int i=0;i<3;i++) o[i]=a[i]; p[0]=a[1];p[1]=a[2]; }
// mixed argument types all promote to double
LIB(listmix)(Arr<double,3>&o,Arr<double,3>&p,const int&a,const double&b,const float&c){ const Vector<3> v=makeVector(a,b,c); const Vector<3> w=Data(a,b,c); for(int i=0;i<3;i++){o[i]=v[i];p[i]=w[i];} }
REF(listmix)(Arr<double,3>&o,Arr<double,3>&p,const int&a,const double&b,const float&c){ o[0]=p[0]=a;o[1]=p[1]=b;o[2]=p[2]=c; }
// arrays seen through wrapVector / wrapMatrix and the pointer constructors
#define WR(nm,decl,n,at) LIB(nm)(Arr<double,n>&o,Arr<double,n>&a){ decl; for(int i=0;i<n;i++) o[i]=at; } REF(nm)(Arr<double,n>&o,Arr<double,n>&a){ for(int i=0;i<n;i++) o[i]=a[i]; }
#define WF(nm,decl,n,at) LIB(nm)(Arr<float,n>&o,Arr<float,n>&a){ decl; for(int i=0;i<n;i++) o[i]=at; } REF(nm)(Arr<float,n>&o,Arr<float,n>&a){ for(int i=0;i<n;i++) o[i]=a[i]; }
WR(wv1,auto v=wrapVector(a,4),4,v[i]) WR(wv2,auto v=wrapVector((const double*)a,4),4,v[i]) WR(wv3,auto v=wrapVector<4>(a),4,v[i]) WR(wv4,auto v=wrapVector<4>((const double*)a),4,v[i]) WR(wv5,auto v=wrapVector<double>(a,4),4,v[i]) 
WF(wv6,auto v=wrapVector(a,4),4,v[i]) WF(wv7,auto v=wrapVector((const float*)a,4),4,v[i]) WF(wv8,auto v=(wrapVector<4,float>(a)),4,v[i]) WF(wv9,auto v=(wrapVector<4,float>((const float*)a)),4,v[i])
#define RM v[i/3][i%3]
WR(wm1,auto v=(wrapMatrix<2,3>(a)),6,RM) WR(wm2,auto v=(wrapMatrix<2,3>((const double*)a)),6,RM) WF(wm3,auto v=(wrapMatrix<2,3,float>(a)),6,RM) WF(wm4,auto v=(wrapMatrix<2,3,float>((const float*)a)),6,RM)
WR(wm5,auto v=(wrapMatrix<2,Dynamic>(a,2,3)),6,RM) WR(wm6,auto v=(wrapMatrix<Dynamic,3>((const double*)a,2,3)),6,RM) WF(wm7,auto v=(wrapMatrix<2,Dynamic,float>(a,2,3)),6,RM) WF(wm8,auto v=(wrapMatrix<Dynamic,3,float>((const float*)a,2,3)),6,RM)
WR(wm9,auto v=wrapMatrix(a,2,3),6,RM) WR(wm10,auto v=wrapMatrix((const double*)a,2,3),6,RM) WF(wm11,auto v=wrapMatrix(a,2,3),6,RM) WF(wm12,auto v=wrapMatrix((const float*)a,2,3),6,RM)
#define CM v[i%2][i/2]
typedef Matrix<2,3,double,Reference::ColMajor> RC; typedef Matrix<Dynamic,3,double,Reference::ColMajor> RC2; typedef Matrix<2,Dynamic,double,Reference::ColMajor> RC3; typedef Matrix<Dynamic,Dynamic,double,Reference::ColMajor> RC4;
WR(rc1,RC v(a),6,CM) WR(rc2,RC2 v(a MC 2 MC 3),6,CM) WR(rc3,RC3 v(a MC 2 MC 3),6,CM) WR(rc4,RC4 v(a MC 2 MC 3),6,CM)
