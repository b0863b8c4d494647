// Matrix exponential, logarithm and square root: in exact arithmetic, stopped after any number of
// terms (the norm that decides is replaced by a list of values), the exponential is the Taylor
// polynomial of m/2^s squared s times with 2^s the smallest power not below the norm, the square
// root is Newton's iterate, and the logarithm is 2^k times the series at the k-th square root
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_NAN -std=gnu++20
#include "vf.h"
static double vfstub_norms[24],vfstub_args[24]; static int vfstub_at;
#include <TooN/TooN.h>
namespace TooN { template<int R,int C,typename B> inline double norm_inf(const Matrix<R,C,double,B>&m){ double t=0; for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) t+=(i*m.num_cols()+j+2)*m(i,j)*m(i,j); vfstub_args[vfstub_at]=t; return vfstub_norms[vfstub_at++]; } }
#include <TooN/helpers.h>
using namespace TooN;
typedef double P; typedef const double CP;
static void list(CP*a,int n){ vfstub_at=0; for(int i=0;i<24;i++) vfstub_norms[i]=i<n?a[i]:0; }
// how often the norm was taken, and of what (up to sign)
static void asked(P*q){ q[0]=vfstub_at; for(int i=0;i<vfstub_at&&i<23;i++) q[1+i]=vfstub_args[i]; }
struct Log { P*q; int n; void operator()(CP*m,int k,P sc=1){ P t=0; for(int i=0;i<k*k;i++){ P x=m[i]*sc; t+=(i+2)*x*x; } q[++n]=t; q[0]=n; } };
template<class M> static void put(M&m,CP*a,int n){ for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=a[i*n+j]; }
template<class M> static void get(const M&m,P*r,int n){ for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i*n+j]=m(i,j); }
static void mul(CP*a,CP*b,P*r,int n){ P t[16]; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ t[i*n+j]=0; for(int k=0;k<n;k++) t[i*n+j]+=a[i*n+k]*b[k*n+j]; } for(int i=0;i<n*n;i++) r[i]=t[i]; }
static void eye(P*r,int n){ for(int i=0;i<n*n;i++) r[i]=i%(n+1)==0; }
template<int n> struct Fix{ template<class F> static void with(CP*a,F f){ Matrix<n> m; put(m,a,n); f(m); } };
template<int n> struct Dyn{ template<class F> static void with(CP*a,F f){ Matrix<> m(n,n); put(m,a,n); f(m); } };
template<int n> struct Col{ template<class F> static void with(CP*a,F f){ Matrix<n,n,double,ColMajor> m; put(m,a,n); f(m); } };
template<int n> struct Sub{ template<class F> static void with(CP*a,F f){ Matrix<n+2,n+1> m=Zeros; auto s=m.template slice<1,1,n,n>(); put(s,a,n); f(s); } };
// s squarings of k terms
template<int n> static void rexp(CP*a,P*r,P*u,int s,int k){ Log lg={u,0}; lg(a,n); P f[n*n],q[n*n],m[n*n]; for(int i=0;i<n*n;i++){ m[i]=a[i]/(1<<s); q[i]=0; } eye(f,n); for(int j=0;j<k;j++){ lg(f,n); for(int i=0;i<n*n;i++) q[i]+=f[i]; mul(m,f,f,n); for(int i=0;i<n*n;i++) f[i]/=j+1; } lg(f,n); for(int j=0;j<s;j++) mul(q,q,q,n); for(int i=0;i<n*n;i++) r[i]=q[i]; }
#define EXP(S,n,nm,nv,s,k) LIB(exp_##S##n##_##nm##_##k)(P(&r)[n*n],P(&u)[24],CP(&a)[n*n]){ P l[k+2]; l[0]=nv; for(int i=0;i<k;i++) l[1+i]=1; l[k+1]=0; list(l,k+2); S<n>::with(a,[&](const auto&m){ get(exp(m),r,n); asked(u); }); } REF(exp_##S##n##_##nm##_##k)(P(&r)[n*n],P(&u)[24],CP(&a)[n*n]){ rexp<n>(a,r,u,s,k); }
#define EXPN(S,n,k) EXP(S,n,small,0.25,0,k) EXP(S,n,one,1,0,k) EXP(S,n,two,2,1,k) EXP(S,n,four,4,2,k) EXP(S,n,three,3,2,k) EXP(S,n,five,5.5,3,k)
#define EXPS(n,k) EXPN(Fix,n,k) EXPN(Dyn,n,k) EXPN(Col,n,k) EXPN(Sub,n,k)
EXPS(1,4) EXPS(2,1) EXPS(2,2) EXPS(2,3) EXPS(2,6) EXPS(3,3) EXPS(3,4)
// k Newton steps x <- (x + a/x)/2 from x = a, which is what the product iteration computes; with 2x2 matrices
static void inv2(CP*a,P*r){ P d=a[0]*a[3]-a[1]*a[2]; P t[4]={a[3]/d,-a[1]/d,-a[2]/d,a[0]/d}; for(int i=0;i<4;i++) r[i]=t[i]; }
static void newton(CP*a,P*x,int k,Log&lg){ P b[4]; for(int i=0;i<4;i++) b[i]=a[i]; P ai[4],o[4]; inv2(b,ai); inv2(b,o); for(int i=0;i<4;i++) x[i]=b[i]; for(int j=0;j<k;j++){ P y[4]; inv2(x,y); mul(b,y,y,2); for(int i=0;i<4;i++) x[i]=(x[i]+y[i])/2; P m[4],d[4]; mul(x,x,m,2); mul(m,ai,m,2); for(int i=0;i<4;i++) d[i]=m[i]-o[i]; lg(d,2); inv2(m,o); } }
#define SQ(S,k) LIB(generic_sqrt_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ P l[k]; for(int i=0;i<k-1;i++) l[i]=1; l[k-1]=0; list(l,k); S<2>::with(a,[&](const auto&m){ get(TooN::sqrt(m),r,2); asked(u); }); } REF(generic_sqrt_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ Log lg={u,0}; newton(a,r,k,lg); }
#define SQS(k) SQ(Fix,k) SQ(Dyn,k) SQ(Col,k) SQ(Sub,k)
SQS(1) SQS(2) SQS(3)
// logarithm: series of k terms at the matrix itself
static void off(CP*a,int n,Log&lg){ P x[16]; for(int i=0;i<n*n;i++) x[i]=a[i]-(i%(n+1)==0); lg(x,n); }
static void series(CP*a,P*r,int n,int k,P sc,Log&lg){ P x[16],f[16]; for(int i=0;i<n*n;i++){ x[i]=a[i]-(i%(n+1)==0); f[i]=x[i]; r[i]=0; } for(int j=1;j<=k;j++){ lg(f,n,1.0/j); for(int i=0;i<n*n;i++) r[i]+=(j%2?f[i]:-f[i])/j; mul(f,x,f,n); } lg(f,n,1.0/(k+1)); for(int i=0;i<n*n;i++) r[i]*=sc; }
#define LG(S,n,k) LIB(log_##S##n##_##k)(P(&r)[n*n],P(&u)[24],CP(&a)[n*n]){ P l[k+2]; l[0]=0.5; for(int i=0;i<k;i++) l[1+i]=1; l[k+1]=0; list(l,k+2); S<n>::with(a,[&](const auto&m){ get(log(m),r,n); asked(u); }); } REF(log_##S##n##_##k)(P(&r)[n*n],P(&u)[24],CP(&a)[n*n]){ Log lg={u,0}; off(a,n,lg); series(a,r,n,k,1,lg); }
#define LGS(n,k) LG(Fix,n,k) LG(Dyn,n,k) LG(Col,n,k) LG(Sub,n,k)
LGS(1,4) LGS(2,1) LGS(2,2) LGS(2,3) LGS(3,4)
// one and two square roots of one Newton step each before it
#define LQ(S,k) LIB(generic_logroot1_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ P l[k+4]; l[0]=0.75; l[1]=0; l[2]=0.5; for(int i=0;i<k;i++) l[3+i]=1; l[k+3]=0; list(l,k+4); S<2>::with(a,[&](const auto&m){ get(log(m),r,2); asked(u); }); } REF(generic_logroot1_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ Log lg={u,0}; P x[4]; off(a,2,lg); newton(a,x,1,lg); off(x,2,lg); series(x,r,2,k,2,lg); } \
 LIB(generic_logroot2_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ P l[k+6]; l[0]=3; l[1]=0; l[2]=0.6; l[3]=0; l[4]=0.25; for(int i=0;i<k;i++) l[5+i]=1; l[k+5]=0; list(l,k+6); S<2>::with(a,[&](const auto&m){ get(log(m),r,2); asked(u); }); } REF(generic_logroot2_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ Log lg={u,0}; P x[4]; off(a,2,lg); newton(a,x,1,lg); off(x,2,lg); newton(x,x,1,lg); off(x,2,lg); series(x,r,2,k,4,lg); }
LQ(Fix,2) LQ(Dyn,2) LQ(Col,3) LQ(Sub,2)
// many squarings and many roots
EXP(Fix,1,big,1e9,30,3) EXP(Dyn,2,k,1000,10,3) EXP(Fix,2,k2,2049,12,3) EXP(Col,2,big,70000,17,2) EXP(Sub,2,hundred,129,8,3)
template<int n> static void rlog(CP*a,P*r,P*u,int k){ Log lg={u,0}; P x[4]; for(int i=0;i<4;i++) x[i]=a[i]; P sc=1; for(int i=0;i<n;i++){ off(x,2,lg); newton(x,x,1,lg); sc*=2; } off(x,2,lg); series(x,r,2,k,sc,lg); }
#define LR(S,n,k) LIB(generic_logroots##n##_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ P l[2*n+k+2]; for(int i=0;i<n;i++){ l[2*i]=0.625; l[2*i+1]=0; } l[2*n]=0.5; for(int i=0;i<k;i++) l[2*n+1+i]=1; l[2*n+k+1]=0; list(l,2*n+k+2); S<2>::with(a,[&](const auto&m){ get(log(m),r,2); asked(u); }); } REF(generic_logroots##n##_##S##_##k)(P(&r)[4],P(&u)[24],CP(&a)[4]){ rlog<n>(a,r,u,k); }
LR(Fix,4,2) LR(Dyn,5,2) LR(Col,7,1)
