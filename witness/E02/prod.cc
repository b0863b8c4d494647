// Products over every storage shape
// FLAGS:
// FLAGS: -DPREC=float -DR_=1 -DK_=3 -DC_=2 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS: -DPREC=double -DR_=4 -DK_=1 -DC_=3
// FLAGS-THOROUGH: -DPREC=double -DR_=4 -DK_=5 -DC_=6
// FLAGS-THOROUGH: -DPREC=double -DR_=3 -DK_=3 -DC_=3 -DTOON_INITIALIZE_SNAN
#include "vcombos.h"
using namespace sh;
#ifndef PREC
#define PREC double
#define R_ 2
#define K_ 3
#define C_ 2
#endif
typedef PREC P;
#define CM const P
#define MCX(D,A,B) D<R_,C_>
// matrix * matrix
#define MM(op,id,D,A,B) LIB(CAT(op##_,id))(Arr<P,D<R_ MC C_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_ MC C_>::N>&b){ D<R_,C_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<K_,C_>::with(b,[&](auto&y){ z=x*y; });});}); } \
 REF(CAT(op##_,id))(Arr<P,D<R_ MC C_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_ MC C_>::N>&b){ for(int i=0;i<R_;i++) for(int j=0;j<C_;j++){ P s=0; for(int k=0;k<K_;k++) s+=a[A<R_,K_>::pos(i,k)]*b[B<K_,C_>::pos(k,j)]; r[D<R_,C_>::pos(i,j)]=s; } }
#define MC ,
MCOMBOS(MM,matmul)
// (A*B)' == B'*A' through views, and products of expressions
#define MMT(op,id,D,A,B) LIB(CAT(op##_,id))(Arr<P,D<C_ MC R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_ MC C_>::N>&b){ D<C_,R_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<K_,C_>::with(b,[&](auto&y){ z=y.T()*x.T(); z.T()+=x*y; });});}); } \
 REF(CAT(op##_,id))(Arr<P,D<C_ MC R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_ MC C_>::N>&b){ for(int i=0;i<R_;i++) for(int j=0;j<C_;j++){ P s=0; for(int k=0;k<K_;k++) s+=a[A<R_,K_>::pos(i,k)]*b[B<K_,C_>::pos(k,j)]; r[D<C_,R_>::pos(j,i)]=2*s; } }
MCOMBOS(MMT,matmulT)
// matrix * vector, vector * matrix, with rotating vector shapes
#define MV(id,D,A,B) LIB(CAT(mv_,id))(Arr<P,D<R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_>::N>&b){ D<R_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<K_>::with(b,[&](auto&y){ z=x*y; });});}); } \
 REF(CAT(mv_,id))(Arr<P,D<R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_>::N>&b){ for(int i=0;i<R_;i++){ P s=0; for(int k=0;k<K_;k++) s+=a[A<R_,K_>::pos(i,k)]*b[B<K_>::pos(k)]; r[D<R_>::pos(i)]=s; } } \
 LIB(CAT(vm_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<R_>::N>&b){ D<K_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<R_>::with(b,[&](auto&y){ z=y*x; });});}); } \
 REF(CAT(vm_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<R_>::N>&b){ for(int i=0;i<K_;i++){ P s=0; for(int k=0;k<R_;k++) s+=a[A<R_,K_>::pos(k,i)]*b[B<R_>::pos(k)]; r[D<K_>::pos(i)]=s; } } \
 LIB(CAT(mvd_,id))(Arr<P,D<R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_>::N>&b){ D<R_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<K_>::with(b,[&](auto&y){ z=(x*y.as_diagonal()).T()[0]; z+=(x*y.as_col()).T()[0]; z-=(y.as_row()*x.T())[0]; });});}); } \
 REF(CAT(mvd_,id))(Arr<P,D<R_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<K_>::N>&b){ for(int i=0;i<R_;i++) r[D<R_>::pos(i)]=a[A<R_,K_>::pos(i,0)]*b[B<K_>::pos(0)]; } \
 LIB(CAT(dgm_,id))(Arr<P,A<R_ MC K_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<R_>::N>&b,Arr<CM,D<K_>::N>&d){ A<R_,K_>::with(r,[&](auto&z){A<R_,K_>::with(a,[&](auto&x){B<R_>::with(b,[&](auto&y){ D<K_>::with(d,[&](auto&w){ z=y.as_diagonal()*x*w.as_diagonal(); z+=diagmult(y,x); z-=diagmult(x,w); });});});}); } \
 REF(CAT(dgm_,id))(Arr<P,A<R_ MC K_>::N>&r,Arr<CM,A<R_ MC K_>::N>&a,Arr<CM,B<R_>::N>&b,Arr<CM,D<K_>::N>&d){ for(int i=0;i<R_;i++) for(int k=0;k<K_;k++){ int q=A<R_,K_>::pos(i,k); P y=b[B<R_>::pos(i)],w=d[D<K_>::pos(k)]; r[q]=y*a[q]*w+y*a[q]-a[q]*w; } } \
 LIB(CAT(out_,id))(Arr<P,A<R_ MC K_>::N>&r,Arr<CM,B<R_>::N>&b,Arr<CM,D<K_>::N>&d){ A<R_,K_>::with(r,[&](auto&z){B<R_>::with(b,[&](auto&y){ D<K_>::with(d,[&](auto&w){ z=y.as_col()*w.as_row(); });});}); } \
 REF(CAT(out_,id))(Arr<P,A<R_ MC K_>::N>&r,Arr<CM,B<R_>::N>&b,Arr<CM,D<K_>::N>&d){ for(int i=0;i<R_;i++) for(int k=0;k<K_;k++) r[A<R_,K_>::pos(i,k)]=b[B<R_>::pos(i)]*d[D<K_>::pos(k)]; }
MV(0,VFix,MFix,VFix) MV(1,VDyn,MFixC,VDyn) MV(2,VOwn,MDyn,VCol) MV(3,VSub,MDynC,VSub) MV(4,VSubD,MT,VDiag) MV(5,VCol,MTD,VRow) MV(6,VColD,MSub,VStrSub) MV(7,VRow,MSubD,VStrSubD) MV(8,VDiag,MSubT,VSubD)
MV(9,VDiagD,MSubC,VColD) MV(10,VStrSub,MRowDyn,VOwn) MV(11,VStrSubD,MColDyn,VRsz) MV(12,VRsz,MRowDynC,VRef) MV(13,VRef,MOwn,VDiagD) MV(14,VFix,MOwnC,VFix) MV(15,VDyn,MRef,VRow)
// vector-vector
#define VV(op,id,D,A,B) \
 LIB(CAT(dot_,id))(P&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ A<K_>::with(a,[&](auto&x){B<K_>::with(b,[&](auto&y){ r=x*y; });}); } REF(CAT(dot_,id))(P&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ P s=0; for(int k=0;k<K_;k++) s+=a[A<K_>::pos(k)]*b[B<K_>::pos(k)]; r=s; } \
 LIB(CAT(dvv_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ D<K_>::with(r,[&](auto&z){ A<K_>::with(a,[&](auto&x){B<K_>::with(b,[&](auto&y){ z=diagmult(x,y); z+=x.as_diagonal()*y; z+=x*y.as_diagonal(); });});}); } \
 REF(CAT(dvv_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ for(int k=0;k<K_;k++) r[D<K_>::pos(k)]=3*a[A<K_>::pos(k)]*b[B<K_>::pos(k)]; } \
 LIB(CAT(dgd_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ D<K_>::with(r,[&](auto&z){ A<K_>::with(a,[&](auto&x){B<K_>::with(b,[&](auto&y){ auto q=x.as_diagonal()*y.as_diagonal(); z=q.diagonal_slice(); z+=(-q).diagonal_slice()*2; z-=q.inverse().diagonal_slice(); });});}); } \
 REF(CAT(dgd_,id))(Arr<P,D<K_>::N>&r,Arr<CM,A<K_>::N>&a,Arr<CM,B<K_>::N>&b){ for(int k=0;k<K_;k++){ P q=a[A<K_>::pos(k)]*b[B<K_>::pos(k)]; r[D<K_>::pos(k)]=-q-1/q; } } \
 LIB(CAT(dgM_,id))(P(&r)[K_*K_],Arr<CM,A<K_>::N>&a){ A<K_>::with(a,[&](auto&x){ Matrix<K_,K_,P>&m=*(Matrix<K_,K_,P>*)&r; m=x.as_diagonal(); }); } REF(CAT(dgM_,id))(P(&r)[K_*K_],Arr<CM,A<K_>::N>&a){ for(int i=0;i<K_;i++) for(int j=0;j<K_;j++) r[i*K_+j]=i==j?a[A<K_>::pos(i)]:0; }
VCOMBOS(VV,vv)
// cross product needs exactly three elements
#define CR(op,id,D,A,B) LIB(CAT(cross_,id))(Arr<P,D<3>::N>&r,Arr<CM,A<3>::N>&a,Arr<CM,B<3>::N>&b){ D<3>::with(r,[&](auto&z){ A<3>::with(a,[&](auto&x){B<3>::with(b,[&](auto&y){ z=x.template slice<0,3>()^y.template slice<0,3>(); });});}); } \
 REF(CAT(cross_,id))(Arr<P,D<3>::N>&r,Arr<CM,A<3>::N>&a,Arr<CM,B<3>::N>&b){ for(int i=0;i<3;i++) r[D<3>::pos(i)]=a[A<3>::pos((i+1)%3)]*b[B<3>::pos((i+2)%3)]-a[A<3>::pos((i+2)%3)]*b[B<3>::pos((i+1)%3)]; }
VCOMBOS(CR,cr)
