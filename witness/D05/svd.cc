// Queries of the singular-value and symmetric eigen-decompositions, written out from the factors they return
// FLAGS:
// FLAGS: -DPREC=float -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN
#include "solve.h"
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
using namespace so;
enum { DY=-1, ST=0 };
#define MN(m,n) ((m)<(n)?(m):(n))
#define SHP(F,...) F(MFix,__VA_ARGS__) F(MFixC,__VA_ARGS__) F(MDyn,__VA_ARGS__) F(MSubT,__VA_ARGS__)
// inverse of each value, with those not above 1/cond of the largest taken as zero
template<int k,class S> static inline void idiag(const S&s,P c,P*o){ for(int i=0;i<k;i++) o[i]=s[i]*c>s[0]?1/s[i]:P(0); }
// V diag(o) U^T
template<int m,int n,class U,class V> static inline void pinv(const U&u,const V&v,const P*o,P*r){ const int k=MN(m,n); for(int i=0;i<n;i++) for(int j=0;j<m;j++){ P x=0; for(int q=0;q<k;q++) x+=v(q,i)*o[q]*u(j,q); r[i*m+j]=x; } }
#define FIN P fc=c; (void)fc;
#define BOTH(m,n,R,C,...) Matrix<m,n,P> M=wrapMatrix<m,n>(a); (void)c; SVD<R,C,P> d(M); const int k=MN(m,n); (void)k; __VA_ARGS__
#define REFS(...) auto U=d.get_U(); auto V=d.get_VT(); auto S=d.get_diagonal(); P o[k]; (void)U; (void)V; __VA_ARGS__
// nm distinguishes fixed and run-time sizes; w: given cut-off or the documented default of 1e9
#define Q(m,n,R,C,nm,w,CA,CV) \
 LIB(pinv_##m##_##n##_##nm##_##w)(Arr<P,n*m>&r,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, auto x=d.get_pinv(CA); vf_assert(x.num_rows()==n&&x.num_cols()==m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) r[i*m+j]=x(i,j); ) } \
 REF(pinv_##m##_##n##_##nm##_##w)(Arr<P,n*m>&r,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, REFS( idiag<k>(S,CV,o); pinv<m,n>(U,V,o,r); )) } \
 LIB(rank_##m##_##n##_##nm##_##w)(int&r,int&r2,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, vf_assume(d.get_diagonal()[0]>0); r=d.rank(CA); r2=d.rank(CA); ) } \
 REF(rank_##m##_##n##_##nm##_##w)(int&r,int&r2,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, auto&S=d.get_diagonal(); vf_assume(S[0]>0); r=0; for(int i=0;i<k;i++) r+=S[i]*CV>S[0]; r2=r; ) }
#define QV(m,n,R,C,nm,w,CA,CV,V1) \
 LIB(bsv_##m##_##n##_##nm##_##w##_##V1)(Arr<P,n>&r,Arr<P,n>&r2,const Arr<P,m*n>&a,const P&c,const Arr<P,V1<m>::N>&b){ CPOS BOTH(m,n,R,C, V1<m>::with(b,[&](auto&v){ auto x=d.backsub(v CA); vf_assert(x.size()==n); auto y=d.backsub(v CA); for(int i=0;i<n;i++){ r[i]=x[i]; r2[i]=y[i]; } }); ) } \
 REF(bsv_##m##_##n##_##nm##_##w##_##V1)(Arr<P,n>&r,Arr<P,n>&r2,const Arr<P,m*n>&a,const P&c,const Arr<P,V1<m>::N>&b){ CPOS BOTH(m,n,R,C, REFS( idiag<k>(S,CV,o); P p[n*m]; pinv<m,n>(U,V,o,p); for(int i=0;i<n;i++){ P x=0; for(int j=0;j<m;j++) x+=p[i*m+j]*b[V1<m>::pos(j)]; r[i]=r2[i]=x; } )) }
#define QM(m,n,R,C,nm,w,CA,CV,M1,l) \
 LIB(bsm_##m##_##n##_##nm##_##w##_##M1##_##l)(Arr<P,n*l>&r,const Arr<P,m*n>&a,const P&c,const Arr<P,M1<m,l>::N>&b){ CPOS BOTH(m,n,R,C, M1<m,l>::with(b,[&](auto&v){ auto x=d.backsub(v CA); vf_assert(x.num_rows()==n&&x.num_cols()==l); for(int i=0;i<n;i++) for(int j=0;j<l;j++) r[i*l+j]=x(i,j); }); ) } \
 REF(bsm_##m##_##n##_##nm##_##w##_##M1##_##l)(Arr<P,n*l>&r,const Arr<P,m*n>&a,const P&c,const Arr<P,M1<m,l>::N>&b){ CPOS BOTH(m,n,R,C, REFS( idiag<k>(S,CV,o); P p[n*m]; pinv<m,n>(U,V,o,p); for(int i=0;i<n;i++) for(int q=0;q<l;q++){ P x=0; for(int j=0;j<m;j++) x+=p[i*m+j]*b[M1<m,l>::pos(j,q)]; r[i*l+q]=x; } )) }
#define CPOS vf_assume(c>0);
#define COMMA ,
#define GIV ,c
#define QS(m,n,R,C,nm) Q(m,n,R,C,nm,giv,c,c) Q(m,n,R,C,nm,def,,P(1e9)) QV(m,n,R,C,nm,giv,GIV,c,VFix) QV(m,n,R,C,nm,def,,P(1e9),VFix) QM(m,n,R,C,nm,giv,GIV,c,MFix,2) QM(m,n,R,C,nm,def,,P(1e9),MFix,1)
#define QSA(m,n) QS(m,n,m,n,st) QS(m,n,DY,DY,dy) QS(m,n,DY,n,dr) QS(m,n,m,DY,dc)
QSA(3,3) QSA(4,2) QSA(2,4) QSA(1,2) QSA(3,1) QSA(2,2)
QV(3,3,3,3,st,giv,GIV,c,VCol) QV(4,2,4,2,st,giv,GIV,c,VOwn) QV(2,4,DY,DY,dy,giv,GIV,c,VSubD) QV(4,2,DY,DY,dy,giv,GIV,c,VStrSub)
QM(3,3,3,3,st,giv,GIV,c,MFixC,3) QM(4,2,4,2,st,giv,GIV,c,MSubT,3) QM(2,4,DY,DY,dy,giv,GIV,c,MOwn,2) QM(4,2,DY,DY,dy,giv,GIV,c,MDyn,1)
// a zero matrix has no rank, and no inverse but zero
#define ZR(m,n,R,C,nm) LIB(svdz_##m##_##n##_##nm)(int&r,Arr<P,n*m>&p,Arr<P,n>&x,const Arr<P,m>&b){ Matrix<R,C,P> M(m,n); M=Zeros; SVD<R,C,P> d(M); d.get_diagonal()=Zeros; r=d.rank(); auto q=d.get_pinv(); auto y=d.backsub(wrapVector<m>(b)); for(int i=0;i<n;i++){ x[i]=y[i]; for(int j=0;j<m;j++) p[i*m+j]=q(i,j); } } \
 REF(svdz_##m##_##n##_##nm)(int&r,Arr<P,n*m>&p,Arr<P,n>&x,const Arr<P,m>&b){ r=0; for(P&v:p) v=0; for(P&v:x) v=0; }
ZR(3,3,3,3,st) ZR(4,2,DY,DY,dy) ZR(2,4,2,4,st)
#define IDG(m,n,R,C,nm) LIB(invd_##m##_##n##_##nm)(Arr<P,MN(m,n)>&r,P&dt,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, Vector<MN(R,C),P> v(k); d.get_inv_diag(v,c); for(int i=0;i<k;i++) r[i]=v[i]; dt=d.determinant(); ) } \
 REF(invd_##m##_##n##_##nm)(Arr<P,MN(m,n)>&r,P&dt,const Arr<P,m*n>&a,const P&c){ CPOS BOTH(m,n,R,C, auto&S=d.get_diagonal(); idiag<k>(S,c,r); dt=1; for(int i=0;i<k;i++) dt*=S[i]; ) }
IDG(3,3,3,3,st) IDG(3,3,DY,DY,dy) IDG(4,2,4,2,st) IDG(2,4,DY,4,dr)
