// The bidiagonal iteration: every sweep either finishes or uses up one of the thirty allowed; the thirtieth is the last
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 200
#include "solve.h"
#define throw(x) __builtin_trap()
#include <TooN/GR_SVD.h>
#undef throw
using namespace so;
template<int M,int N,bool U,bool V> struct S: GR_SVD<M,N,P,U,V> { typedef GR_SVD<M,N,P,U,V> B; S(const Matrix<M,N,P>&m):B(m){} 
 void load(const P*d,const P*o,P an,int it){ for(int i=0;i<N;i++) this->vDiagonal[i]=d[i]; for(int i=0;i<B::BigDim;i++) this->vOffDiagonal[i]=i&&i<N?o[i]:0; this->anorm=an; this->nIterations=it; this->nError=0; }
 bool step(int k,P&z){ return this->Diagonalize_SubLoop(k,z); } void all(){ this->Diagonalize(); } int it() const { return this->nIterations; } int err() const { return this->nError; } };
// one sweep, from any state in which the first off-diagonal element is zero (it always is)
#define STEP(M,N,u,v,k) LIM(step_##M##N##u##v##_##k)(const Arr<P,N>&d,const Arr<P,N>&o,const P&an){ vf_assume(an>0); for(int j=0;j<=30;j++){ S<M,N,u,v> s(Zeros); s.load(d,o,an,j); P z; const bool r=s.step(k,z); vf_assert(r||(s.it()==j+1&&j<30)); vf_assert(!r||s.it()==j); vf_assert(!(r&&k>0&&j<30)||s.err()==0); vf_assert(s.err()==0||(s.err()==k&&j==30)); } } \
 LIM(last_##M##N##u##v##_##k)(const Arr<P,N>&d,const Arr<P,N>&o,const P&an){ vf_assume(an>0); for(int i=0;i<N;i++){ vf_assume(d[i]!=0); vf_assume(i==0||o[i]!=0); } S<M,N,u,v> s(Zeros); s.load(d,o,an,30); P z; vf_assert(s.step(k,z)); vf_assert(s.err()==k); }
STEP(1,1,1,1,0) STEP(2,2,1,1,0) STEP(2,2,1,1,1) STEP(3,2,0,0,1) STEP(3,3,1,1,2) STEP(3,3,0,0,1)
// the whole iteration, from matrices on which exact arithmetic never converges
#define ALL(M,N,u,v,X,Y,Z) LIM(all_##M##N##u##v##_##X##Y##Z)(int&e){ const P d[]={X,Y,Z,X+1},o[]={0,1,Y+1,Z}; S<M,N,u,v> s(Zeros); s.load(d,o,9,31); s.all(); vf_assert(s.it()<=30); vf_assert(N>1||s.it()==0); e=s.err(); }
ALL(1,1,1,1,3,2,1) ALL(2,2,0,0,3,2,1) ALL(2,2,1,1,2,5,1) ALL(3,3,1,1,3,2,1) ALL(4,3,0,0,2,7,3)
