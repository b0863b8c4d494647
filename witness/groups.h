// Group elements as plain storage, built from free parameters so that every element of the
// group (up to a null set) is covered: rotations by the rational (Cayley) parametrisation.
#pragma once
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include "vf.h"
#ifndef PREC
#define PREC double
#endif
namespace gr{
using namespace TooN;
typedef PREC P;
static inline void rot2(P t,P*r){ P d=1+t*t; r[0]=(1-t*t)/d; r[1]=-2*t/d; r[2]=2*t/d; r[3]=(1-t*t)/d; }
static inline void rot3(const P*q,P*r){ P a=q[0],b=q[1],c=q[2],d=q[3],n=a*a+b*b+c*c+d*d;
  r[0]=(a*a+b*b-c*c-d*d)/n; r[1]=2*(b*c-a*d)/n; r[2]=2*(b*d+a*c)/n;
  r[3]=2*(b*c+a*d)/n; r[4]=(a*a-b*b+c*c-d*d)/n; r[5]=2*(c*d-a*b)/n;
  r[6]=2*(b*d-a*c)/n; r[7]=2*(c*d+a*b)/n; r[8]=(a*a-b*b-c*c+d*d)/n; }
// K: parameters, S: storage scalars, N: size of the (homogeneous) matrix, D: dimension of the algebra
template<class T,class G,int k,int s,int n,int d> struct Gp{ typedef G Obj; static const int K=k,S=s,N=n,D=d; static G&obj(P*p){ return *reinterpret_cast<G*>(p); } 
  static G make(const P*q){ P st[s]; T::mk(q,st); G g; P*w=reinterpret_cast<P*>(&g); for(int i=0;i<s;i++) w[i]=st[i]; return g; }
  static void out(const G&g,P*m){ T::mat(reinterpret_cast<const P*>(&g),m); }
  static void ref(const P*q,P*m){ P st[s]; T::mk(q,st); T::mat(st,m); } };
struct So2:Gp<So2,SO2<P>,1,4,2,1>{ static void mk(const P*q,P*s){rot2(q[0],s);} static void mat(const P*s,P*m){ for(int i=0;i<4;i++) m[i]=s[i]; } };
struct So3:Gp<So3,SO3<P>,4,9,3,3>{ static void mk(const P*q,P*s){rot3(q,s);} static void mat(const P*s,P*m){ for(int i=0;i<9;i++) m[i]=s[i]; } };
template<int n> static inline void hom(const P*r,const P*t,P sc,P*m){ for(int i=0;i<n;i++){ for(int j=0;j<n;j++) m[i*(n+1)+j]=sc*r[i*n+j]; m[i*(n+1)+n]=t[i]; } for(int j=0;j<n;j++) m[n*(n+1)+j]=0; m[n*(n+1)+n]=1; }
struct Se2:Gp<Se2,SE2<P>,3,6,3,3>{ static void mk(const P*q,P*s){rot2(q[0],s); s[4]=q[1]; s[5]=q[2];} static void mat(const P*s,P*m){ hom<2>(s,s+4,1,m); } };
struct Se3:Gp<Se3,SE3<P>,7,12,4,6>{ static void mk(const P*q,P*s){rot3(q,s); for(int i=0;i<3;i++) s[9+i]=q[4+i];} static void mat(const P*s,P*m){ hom<3>(s,s+9,1,m); } };
struct Sim2:Gp<Sim2,SIM2<P>,4,7,3,4>{ static void mk(const P*q,P*s){rot2(q[0],s); for(int i=0;i<3;i++) s[4+i]=q[1+i];} static void mat(const P*s,P*m){ hom<2>(s,s+4,s[6],m); } };
struct Sim3:Gp<Sim3,SIM3<P>,8,13,4,7>{ static void mk(const P*q,P*s){rot3(q,s); for(int i=0;i<4;i++) s[9+i]=q[4+i];} static void mat(const P*s,P*m){ hom<3>(s,s+9,s[12],m); } };
template<int n> struct Sl:Gp<Sl<n>,SL<n,P>,n*n,n*n,n,n*n-1>{ static void mk(const P*q,P*s){ for(int i=0;i<n*n;i++) s[i]=q[i]; } static void mat(const P*s,P*m){ for(int i=0;i<n*n;i++) m[i]=s[i]; } };
// plain matrix algebra of the reference side
template<int r,int k,int c> static inline void mul(const P*a,const P*b,P*o){ for(int i=0;i<r;i++) for(int j=0;j<c;j++){ P s=0; for(int l=0;l<k;l++) s+=a[i*k+l]*b[l*c+j]; o[i*c+j]=s; } }
// inverse of a homogeneous (or pure) similarity: A^T/scale^2 and -A^-1 t
template<int N,bool H> static inline void inv(const P*m,P*o){ const int n=H?N-1:N; P s=0; for(int j=0;j<n;j++) s+=m[j]*m[j]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) o[i*N+j]=m[j*N+i]/s; 
  if(H){ for(int i=0;i<n;i++){ P t=0; for(int j=0;j<n;j++) t+=o[i*N+j]*m[j*N+n]; o[i*N+n]=-t; } for(int j=0;j<n;j++) o[n*N+j]=0; o[n*N+n]=1; } }
template<class T,int N> using Arr=T[N];
}
