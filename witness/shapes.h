// Storage shapes: every kind of vector / matrix object, as a window on a plain array `p`
// of N scalars.  pos(i) / pos(r,c) is the documented place of an element in that array.
#pragma once
#include <TooN/TooN.h>
#include "vf.h"
namespace sh{
using namespace TooN;
template<class P> struct Rm{ typedef P T; }; template<class P> struct Rm<const P>{ typedef P T; };
template<class P,class O> O& as_obj(P*p){ return *reinterpret_cast<O*>(p); }
// ---------------- vectors of S elements
template<int S> struct VFix{ static const int n=S,N=S,Static=S; static int pos(int i){return i;}
  template<class P,class F> static void with(P*p,F f){ typedef Vector<S,typename std::remove_const<P>::type> V; f(*reinterpret_cast<typename std::conditional<std::is_const<P>::value,const V,V>::type*>(p)); } };
template<int S> struct VRef{ static const int n=S,N=S; static int pos(int i){return i;} template<class P,class F> static void with(P*p,F f){ auto v=wrapVector<S>(p); f(v); } };
template<int S> struct VDyn{ static const int n=S,N=S; static int pos(int i){return i;} template<class P,class F> static void with(P*p,F f){ auto v=wrapVector(p,S); f(v); } };
template<int S> struct VOwn{ static const int n=S,N=S; static int pos(int i){return i;} template<class P,class F> static void with(P*p,F f){ Vector<Dynamic,P> v(S); for(int i=0;i<S;i++) v[i]=p[i]; f(v); for(int i=0;i<S;i++) p[i]=v[i]; }
  template<class P,class F> static void with(const P*p,F f){ Vector<Dynamic,P> v(S); for(int i=0;i<S;i++) v[i]=p[i]; const Vector<Dynamic,P>&c=v; f(c); } };
template<int S> struct VRsz{ static const int n=S,N=S; static int pos(int i){return i;} template<class P,class F> static void with(P*p,F f){ Vector<Resizable,P> v; v.resize(S); for(int i=0;i<S;i++) v[i]=p[i]; f(v); for(int i=0;i<S;i++) p[i]=v[i]; }
  template<class P,class F> static void with(const P*p,F f){ Vector<Resizable,P> v; v.resize(S); for(int i=0;i<S;i++) v[i]=p[i]; const Vector<Resizable,P>&c=v; f(c); } };
template<int S> struct VSub{ static const int n=S,N=S+2; static int pos(int i){return i+1;} template<class P,class F> static void with(P*p,F f){ auto v=wrapVector<S+2>(p); auto s=v.template slice<1,S>(); f(s); } };
template<int S> struct VSubD{ static const int n=S,N=S+2; static int pos(int i){return i+1;} template<class P,class F> static void with(P*p,F f){ auto v=wrapVector(p,S+2); auto s=v.slice(1,S); f(s); } };
template<int S> struct VCol{ static const int n=S,N=S*4; static int pos(int i){return 4*i+2;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<S,4>(p); auto s=m.T()[2]; f(s); } };
template<int S> struct VColD{ static const int n=S,N=S*4; static int pos(int i){return 4*i+2;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,S,4); auto s=m.T()[2]; f(s); } };
template<int S> struct VRow{ static const int n=S,N=S*3; static int pos(int i){return S+i;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,3,S); auto s=m[1]; f(s); } };
template<int S> struct VDiag{ static const int n=S,N=S*(S+1); static int pos(int i){return i*(S+2);} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<S,S+1>(p); auto s=m.diagonal_slice(); f(s); } };
template<int S> struct VDiagD{ static const int n=S,N=S*(S+1); static int pos(int i){return i*(S+2);} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,S,S+1); auto s=m.diagonal_slice(); f(s); } };
template<int S> struct VStrSub{ static const int n=S,N=(S+1)*3; static int pos(int i){return 3*(i+1)+1;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<S+1,3>(p); auto c=m.T()[1]; auto s=c.template slice<1,S>(); f(s); } };
template<int S> struct VStrSubD{ static const int n=S,N=(S+1)*3; static int pos(int i){return 3*(i+1)+1;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,S+1,3); auto c=m.T()[1]; auto s=c.slice(1,S); f(s); } };
// ---------------- matrices of R x C elements
template<int R,int C> struct MDim{ static const int r=R,c=C,n=R*C; };
template<int R,int C> struct MFix:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;} template<class P,class F> static void with(P*p,F f){ f(*reinterpret_cast<Matrix<R,C,P>*>(p)); } template<class P,class F> static void with(const P*p,F f){ f(*reinterpret_cast<const Matrix<R,C,P>*>(p)); } };
template<int R,int C> struct MFixC:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i+j*R;} template<class P,class F> static void with(P*p,F f){ f(*reinterpret_cast<Matrix<R,C,P,ColMajor>*>(p)); } template<class P,class F> static void with(const P*p,F f){ f(*reinterpret_cast<const Matrix<R,C,P,ColMajor>*>(p)); } };
template<int R,int C> struct MRef:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<R,C>(p); f(m); } };
template<int R,int C> struct MDyn:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,R,C); f(m); } };
template<int R,int C> struct MRowDyn:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;} template<class P,class F> static void with(P*p,F f){ Matrix<Dynamic,C,P,Reference::RowMajor> m(p,R,C); f(m); } };
template<int R,int C> struct MColDyn:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;} template<class P,class F> static void with(P*p,F f){ Matrix<R,Dynamic,P,Reference::RowMajor> m(p,R,C); f(m); } };
template<int R,int C> struct MDynC:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i+j*R;} template<class P,class F> static void with(P*p,F f){ Matrix<Dynamic,Dynamic,P,Reference::ColMajor> m(p,R,C); f(m); } };
template<int R,int C> struct MRowDynC:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i+j*R;} template<class P,class F> static void with(P*p,F f){ Matrix<Dynamic,C,P,Reference::ColMajor> m(p,R,C); f(m); } };
template<int R,int C> struct MT:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i+j*R;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<C,R>(p); auto t=m.T(); f(t); } };
template<int R,int C> struct MTD:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i+j*R;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,C,R); auto t=m.T(); f(t); } };
template<int R,int C> struct MSub:MDim<R,C>{ static const int N=(R+1)*(C+2); static int pos(int i,int j){return (i+1)*(C+2)+j+1;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix<R+1,C+2>(p); auto s=m.template slice<1,1,R,C>(); f(s); } };
template<int R,int C> struct MSubD:MDim<R,C>{ static const int N=(R+1)*(C+2); static int pos(int i,int j){return (i+1)*(C+2)+j+1;} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,R+1,C+2); auto s=m.slice(1,1,R,C); f(s); } };
template<int R,int C> struct MSubT:MDim<R,C>{ static const int N=(R+1)*(C+2); static int pos(int i,int j){return (i+1)+(j+1)*(R+1);} template<class P,class F> static void with(P*p,F f){ auto m=wrapMatrix(p,C+2,R+1); auto s=m.T().slice(1,1,R,C); f(s); } };
template<int R,int C> struct MSubC:MDim<R,C>{ static const int N=(R+1)*(C+2); static int pos(int i,int j){return (i+1)+(j+1)*(R+1);} template<class P,class F> static void with(P*p,F f){ Matrix<R+1,C+2,P,Reference::ColMajor> m(p); auto s=m.template slice<1,1,R,C>(); f(s); } };
template<int R,int C> struct MOwn:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;}
  template<class P,class F> static void with(P*p,F f){ Matrix<Dynamic,Dynamic,P> m(R,C); for(int i=0;i<R;i++) for(int j=0;j<C;j++) m(i,j)=p[i*C+j]; f(m); for(int i=0;i<R;i++) for(int j=0;j<C;j++) p[i*C+j]=m(i,j); }
  template<class P,class F> static void with(const P*p,F f){ Matrix<Dynamic,Dynamic,P> m(R,C); for(int i=0;i<R;i++) for(int j=0;j<C;j++) m(i,j)=p[i*C+j]; const Matrix<Dynamic,Dynamic,P>&k=m; f(k); } };
template<int R,int C> struct MOwnC:MDim<R,C>{ static const int N=R*C; static int pos(int i,int j){return i*C+j;}
  template<class P,class F> static void with(P*p,F f){ Matrix<Dynamic,Dynamic,P,ColMajor> m(R,C); for(int i=0;i<R;i++) for(int j=0;j<C;j++) m(i,j)=p[i*C+j]; f(m); for(int i=0;i<R;i++) for(int j=0;j<C;j++) p[i*C+j]=m(i,j); }
  template<class P,class F> static void with(const P*p,F f){ Matrix<Dynamic,Dynamic,P,ColMajor> m(R,C); for(int i=0;i<R;i++) for(int j=0;j<C;j++) m(i,j)=p[i*C+j]; const Matrix<Dynamic,Dynamic,P,ColMajor>&k=m; f(k); } };
}
// obligation over one, two or three operands of given shapes
template<class P,int N> using Arr=P[N];
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
