// Golub-Reinsch SVD: the queries, and that every step preserves the product of the factors
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
// TIME: 150
#include "solve.h"
#include <TooN/TooN.h>
#include <vector>
#include <algorithm>
#define throw(x) __builtin_trap()
#include <TooN/GR_SVD.h>
#undef throw
using namespace so;
// access to the parts, whatever the decomposition left in them
template<int M,int N> struct G: GR_SVD<M,N,P>{ typedef GR_SVD<M,N,P> B; G():B(Matrix<M,N,P>(Zeros)){} 
 void set(const P*u,const P*d,const P*v){ this->mU=wrapMatrix<M,N>(u); this->vDiagonal=wrapVector<N>(d); this->mV=wrapMatrix<N,N>(v); } };
#define IN(m,n) const Arr<P,m*n>&u,const Arr<P,n>&s,const Arr<P,n*n>&v
template<int n> static inline void inv(const P*s,P c,P*o){ P mx=s[0]; for(int i=1;i<n;i++) if(mx<s[i]) mx=s[i]; for(int i=0;i<n;i++) o[i]=s[i]*c>mx?1/s[i]:P(0); }
template<int m,int n> static inline void pin(const P*u,const P*o,const P*v,P*r){ for(int i=0;i<n;i++) for(int j=0;j<m;j++){ P x=0; for(int q=0;q<n;q++) x+=v[i*n+q]*o[q]*u[j*n+q]; r[i*m+j]=x; } }
#define Q(m,n) \
 LIB(gr_inv_##m##_##n)(Arr<P,n>&r,P&hi,P&lo,int&ix,IN(m,n),const P&c){ vf_assume(c>0); G<m,n> g; g.set(u,s,v); Vector<n,P> o; g.get_inv_diag(o,c); for(int i=0;i<n;i++) r[i]=o[i]; hi=g.get_largest_singular_value(); lo=g.get_smallest_singular_value(); ix=g.get_smallest_singular_value_index(); } \
 REF(gr_inv_##m##_##n)(Arr<P,n>&r,P&hi,P&lo,int&ix,IN(m,n),const P&c){ vf_assume(c>0); inv<n>(s,c,r); hi=lo=s[0]; ix=0; for(int i=1;i<n;i++){ if(hi<s[i]) hi=s[i]; if(s[i]<lo){ lo=s[i]; ix=i; } } } \
 LIB(gr_pinv_##m##_##n)(Arr<P,n*m>&r,Arr<P,n*m>&q,IN(m,n),const P&c){ vf_assume(c>0); G<m,n> g; g.set(u,s,v); auto x=g.get_pinv(c),y=g.get_pinv(); vf_assert(x.num_rows()==n&&x.num_cols()==m); for(int i=0;i<n;i++) for(int j=0;j<m;j++){ r[i*m+j]=x(i,j); q[i*m+j]=y(i,j); } } \
 REF(gr_pinv_##m##_##n)(Arr<P,n*m>&r,Arr<P,n*m>&q,IN(m,n),const P&c){ vf_assume(c>0); P o[n]; inv<n>(s,c,o); pin<m,n>(u,o,v,r); inv<n>(s,P(1e9),o); pin<m,n>(u,o,v,q); }
#define QV(m,n,S) \
 LIB(gr_bsv_##m##_##n##_##S)(Arr<P,n>&r,Arr<P,n>&q,IN(m,n),const P&c,const Arr<P,S<m>::N>&b){ vf_assume(c>0); G<m,n> g; g.set(u,s,v); S<m>::with(b,[&](auto&w){ auto x=g.backsub(w,c),y=g.backsub(w); for(int i=0;i<n;i++){ r[i]=x[i]; q[i]=y[i]; } }); } \
 REF(gr_bsv_##m##_##n##_##S)(Arr<P,n>&r,Arr<P,n>&q,IN(m,n),const P&c,const Arr<P,S<m>::N>&b){ vf_assume(c>0); P o[n],p[n*m]; for(int t=0;t<2;t++){ inv<n>(s,t?P(1e9):c,o); pin<m,n>(u,o,v,p); for(int i=0;i<n;i++){ P x=0; for(int j=0;j<m;j++) x+=p[i*m+j]*b[S<m>::pos(j)]; (t?q:r)[i]=x; } } }
#define QM(m,n,S,l) \
 LIB(gr_bsm_##m##_##n##_##S)(Arr<P,n*l>&r,Arr<P,n*l>&q,IN(m,n),const P&c,const Arr<P,S<m,l>::N>&b){ vf_assume(c>0); G<m,n> g; g.set(u,s,v); S<m,l>::with(b,[&](auto&w){ auto x=g.backsub(w,c),y=g.backsub(w); vf_assert(x.num_rows()==n&&x.num_cols()==l); for(int i=0;i<n;i++) for(int k=0;k<l;k++){ r[i*l+k]=x(i,k); q[i*l+k]=y(i,k); } }); } \
 REF(gr_bsm_##m##_##n##_##S)(Arr<P,n*l>&r,Arr<P,n*l>&q,IN(m,n),const P&c,const Arr<P,S<m,l>::N>&b){ vf_assume(c>0); P o[n],p[n*m]; for(int t=0;t<2;t++){ inv<n>(s,t?P(1e9):c,o); pin<m,n>(u,o,v,p); for(int i=0;i<n;i++) for(int k=0;k<l;k++){ P x=0; for(int j=0;j<m;j++) x+=p[i*m+j]*b[S<m,l>::pos(j,k)]; (t?q:r)[i*l+k]=x; } } }
#define QA(m,n) Q(m,n) QV(m,n,VFix) QV(m,n,VCol) QV(m,n,VOwn) QM(m,n,MFix,2) QM(m,n,MFixC,3) QM(m,n,MOwn,1) QM(m,n,MSubT,2)
QA(3,3) QA(4,2) QA(2,3) QA(1,1) QA(2,2)
// reordering sorts the values and keeps each with its vectors
#define RO(m,n) LIB(gr_sort_##m##_##n)(Arr<P,m*n>&r,bool&ok,Arr<P,n>&t,IN(m,n)){ G<m,n> g; g.set(u,s,v); g.reorder(); auto&U=g.get_U(); auto&V=g.get_V(); auto&S=g.get_diagonal(); ok=true; for(int i=1;i<n;i++) if(S[i-1]<S[i]) ok=false; P pu[n]; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ P x=0; for(int q=0;q<n;q++) x+=U(i,q)*S[q]*V(j,q); r[i*n+j]=x; } (void)pu; colset<n>([&](int i,int c){ return i==0?S[c]:i<n?V(i,c):P(0); },t); } \
 REF(gr_sort_##m##_##n)(Arr<P,m*n>&r,bool&ok,Arr<P,n>&t,IN(m,n)){ ok=true; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ P x=0; for(int q=0;q<n;q++) x+=u[i*n+q]*s[q]*v[j*n+q]; r[i*n+j]=x; } colset<n>([&](int i,int c){ return i==0?s[c]:i<n?v[i*n+c]:P(0); },t); }
RO(3,3) RO(4,2) RO(2,2) RO(1,1) RO(2,3)
// ---- the decomposition itself
template<int M,int N> struct H: GR_SVD<M,N,P>{ typedef GR_SVD<M,N,P> B; H():B(Matrix<M,N,P>(Zeros)){} 
 void first(const Matrix<M,N,P>&A){ this->mU=A; this->Bidiagonalize(); this->Accumulate_RHS(); this->Accumulate_LHS(); }
 void put(const P*u,const P*d,const P*e,const P*v,P an){ this->mU=wrapMatrix<M,N>(u); this->vDiagonal=wrapVector<N>(d); for(int i=0;i<N;i++) this->vOffDiagonal[i]=e[i]; this->mV=wrapMatrix<N,N>(v); this->anorm=an; for(int i=N;i<B::BigDim;i++) this->vOffDiagonal[i]=0; this->nIterations=0; this->nError=0; }
 void all(){ this->Diagonalize(); } P off0(){ return this->vOffDiagonal[0]; }
 bool step(int k,P&z){ return this->Diagonalize_SubLoop(k,z); }
 // U B V^T, U^T U, V^T V with B the bidiagonal matrix
 void prod(P*r){ for(int i=0;i<M;i++) for(int j=0;j<N;j++){ P x=0; for(int q=0;q<N;q++) x+=(this->mU(i,q)*this->vDiagonal[q]+(q?this->mU(i,q?q-1:0)*this->vOffDiagonal[q]:P(0)))*this->mV(j,q); r[i*N+j]=x; } }
 void grams(P*gu,P*gv){ for(int i=0;i<N;i++) for(int j=0;j<N;j++){ P x=0,y=0; for(int q=0;q<M;q++) x+=this->mU(q,i)*this->mU(q,j); for(int q=0;q<N;q++) y+=this->mV(q,i)*this->mV(q,j); gu[i*N+j]=x; gv[i*N+j]=y; } }
};
#define BI(m,n) LIB(generic_gr_bidi_##m##_##n)(Arr<P,m*n>&r,Arr<P,n*n>&gu,Arr<P,n*n>&gv,P&e0,const Arr<P,m*n>&a){ H<m,n> g; g.first(wrapMatrix<m,n>(a)); g.prod(r); g.grams(gu,gv); e0=g.off0(); } \
 REF(generic_gr_bidi_##m##_##n)(Arr<P,m*n>&r,Arr<P,n*n>&gu,Arr<P,n*n>&gv,P&e0,const Arr<P,m*n>&a){ for(int i=0;i<m*n;i++) r[i]=a[i]; for(int i=0;i<n*n;i++) gu[i]=gv[i]=i%(n+1)==0; e0=0; }
BI(1,1) BI(2,2) BI(3,2) BI(3,3) BI(4,2)
// one sweep: E, D say which of the off-diagonal and diagonal entries are zero (bit masks); k is the entry worked on
#define ST(m,n,k,E,D,nm) LIB(generic_gr_step_##m##_##n##_##nm)(Arr<P,m*n>&r,P&e0,const Arr<P,m*n>&u,const Arr<P,n>&d,const Arr<P,n>&e,const Arr<P,n*n>&v,const P&an){ vf_assume(an>0); P dd[n],ee[n]; for(int i=0;i<n;i++){ dd[i]=(D)>>i&1?P(0):d[i]; ee[i]=i==0||((E)>>i&1)?P(0):e[i]; } H<m,n> g; g.put(u,dd,ee,v,an); P z; g.step(k,z); g.prod(r); e0=g.off0(); } \
 REF(generic_gr_step_##m##_##n##_##nm)(Arr<P,m*n>&r,P&e0,const Arr<P,m*n>&u,const Arr<P,n>&d,const Arr<P,n>&e,const Arr<P,n*n>&v,const P&an){ vf_assume(an>0); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ P x=0; for(int q=0;q<n;q++){ P w=u[i*n+q]*((D)>>q&1?P(0):d[q]); if(q&&!((E)>>q&1)) w+=u[i*n+(q?q-1:0)]*e[q]; x+=w*v[j*n+q]; } r[i*n+j]=x; } e0=0; } \
 LIB(generic_gr_stepo_##m##_##n##_##nm)(Arr<P,n*n>&gu,Arr<P,n*n>&gv,bool&done,const Arr<P,n>&d,const Arr<P,n>&e,const P&an){ vf_assume(an>0); P dd[n],ee[n],u[m*n],v[n*n]; for(int i=0;i<m*n;i++) u[i]=i/n==i%n; for(int i=0;i<n*n;i++) v[i]=i/n==i%n; for(int i=0;i<n;i++){ dd[i]=(D)>>i&1?P(0):d[i]; ee[i]=i==0||((E)>>i&1)?P(0):e[i]; } H<m,n> g; g.put(u,dd,ee,v,an); P z; done=g.step(k,z); if(done) vf_assert(z==g.get_diagonal()[k]); g.grams(gu,gv); } \
 REF(generic_gr_stepo_##m##_##n##_##nm)(Arr<P,n*n>&gu,Arr<P,n*n>&gv,bool&done,const Arr<P,n>&d,const Arr<P,n>&e,const P&an){ vf_assume(an>0); done=CONV_##nm; for(int i=0;i<n*n;i++) gu[i]=gv[i]=i%(n+1)==0; }
// full sweep; part below a zero; cancellation when a diagonal entry is zero; converged entry
#define CONV_full 0
#define CONV_roots_ 0
#define CONV_part 0
#define CONV_canc 0
#define CONV_canc1 1
#define CONV_conv 1
#define CONV_last 1
#define CONV_inner 0
ST(2,2,1,0,0,full) ST(3,2,1,0,0,full) ST(3,3,2,0,0,roots_) ST(3,3,2,2,0,part) ST(3,3,2,0,1,canc) ST(2,2,1,0,1,canc1) ST(3,3,2,0,2,canc1) ST(3,3,2,4,0,conv) ST(2,2,1,2,0,conv) ST(2,2,0,0,0,last) ST(3,3,1,4,0,inner) ST(4,2,1,0,0,full)
// values end up non-negative
#define SG(m,n) LIB(generic_gr_sign_##m##_##n)(Arr<P,m*n>&r,Arr<P,n>&s,const Arr<P,m*n>&u,const Arr<P,n>&d,const Arr<P,n*n>&v,const P&an){ vf_assume(an>0); P e[n]; for(P&x:e) x=0; H<m,n> g; g.put(u,d,e,v,an); g.all(); g.prod(r); for(int i=0;i<n;i++) s[i]=g.get_diagonal()[i]; } \
 REF(generic_gr_sign_##m##_##n)(Arr<P,m*n>&r,Arr<P,n>&s,const Arr<P,m*n>&u,const Arr<P,n>&d,const Arr<P,n*n>&v,const P&an){ vf_assume(an>0); for(int i=0;i<m;i++) for(int j=0;j<n;j++){ P x=0; for(int q=0;q<n;q++) x+=u[i*n+q]*d[q]*v[j*n+q]; r[i*n+j]=x; } for(int i=0;i<n;i++) s[i]=d[i]<0?-d[i]:d[i]; }
SG(3,3) SG(4,2) SG(1,1)
