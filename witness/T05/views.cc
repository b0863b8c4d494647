// Every view of every storage shape, read through read-only and modifiable objects and written through modifiable ones
// FLAGS: -DPART=0
// FLAGS: -DPART=1
// FLAGS: -DPART=2
// FLAGS: -DR_=3 -DC_=2 -DTOON_CHECK_BOUNDS -DPART=0
// FLAGS: -DR_=3 -DC_=2 -DTOON_CHECK_BOUNDS -DPART=1
// FLAGS: -DR_=3 -DC_=2 -DTOON_CHECK_BOUNDS -DPART=2
// FLAGS: -DR_=2 -DC_=2 -DTOON_INITIALIZE_SNAN -std=gnu++14
// FLAGS-THOROUGH: -DR_=4 -DC_=3
// FLAGS-THOROUGH: -DR_=5 -DC_=7 -DTOON_CHECK_BOUNDS
#include "vcombos.h"
using namespace sh;
#ifndef R_
#define R_ 2
#define C_ 3
#endif
typedef double P; typedef const double CP;
#define MC ,
enum { DG=R_<C_?R_:C_ };
// ---- a list of element accessors for a matrix-like object x: name, number of elements, view element k, documented element k (row, column)
#define EACH for(int i=0;i<R_;i++) for(int j=0;j<C_;j++)
#define VIEWS(F,S) \
 F(S,call, EACH, x(i,j), i,j) F(S,rowelem, EACH, x[i][j], i,j) F(S,pair, EACH, (x[std::pair<int,int>(i,j)]), i,j) F(S,trans, EACH, x.T()(j,i), i,j) F(S,transrow, EACH, x.T()[j][i], i,j) F(S,transtrans, EACH, x.T().T()(i,j), i,j) \
 F(S,diag, for(int i=0;i<DG;i++), x.diagonal_slice()[i], i,i) F(S,diagT, for(int i=0;i<DG;i++), x.T().diagonal_slice()[i], i,i) \
 F(S,sliceD, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), x.slice(1 MC 1 MC R_-1 MC C_-1)(i,j), i+1,j+1) F(S,sliceS, for(int i=0;i<R_-1;i++) for(int j=0;j<C_;j++), (x.template slice<1 MC 0 MC R_-1 MC C_>()(i,j)), i+1,j) F(S,sliceS2, for(int i=0;i<R_;i++) for(int j=0;j<C_-1;j++), (x.template slice<0 MC 1 MC R_ MC C_-1>()(i,j)), i,j+1) \
 F(S,sliceM, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), (x.template slice<0 MC TooN::Dynamic MC R_-1 MC TooN::Dynamic>(0 MC 1 MC R_-1 MC C_-1)(i,j)), i,j+1) \
 F(S,sliceM2, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), (x.template slice<TooN::Dynamic MC 1 MC TooN::Dynamic MC C_-1>(1 MC 1 MC R_-1 MC C_-1)(i,j)), i+1,j+1) \
 F(S,sliceT, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), x.T().slice(0 MC 1 MC C_-1 MC R_-1)(j,i), i+1,j) F(S,sliceOfSlice, for(int j=0;j<C_-1;j++), x.slice(1 MC 0 MC R_-1 MC C_).slice(R_-2 MC 1 MC 1 MC C_-1)(0,j), R_-1,j+1) \
 F(S,sliceDiag, for(int i=0;i<DG-1;i++), x.slice(1 MC 1 MC DG-1 MC DG-1).diagonal_slice()[i], i+1,i+1) F(S,rowslice, for(int i=0;i<R_;i++) for(int j=0;j<C_-1;j++), x[i].slice(1 MC C_-1)[j], i,j+1) F(S,rowsliceS, for(int i=0;i<R_;i++), (x[i].template slice<C_-1 MC 1>()[0]), i,C_-1) \
 F(S,colslice, for(int j=0;j<C_;j++), x.T()[j].slice(R_-1 MC 1)[0], R_-1,j) F(S,rowrow, EACH, x[i].as_row()(0,j), i,j) F(S,rowcol, EACH, x[i].as_col()(j,0), i,j) F(S,colrow, EACH, x.T()[j].as_row()(0,i), i,j) F(S,rowdiag, EACH, x[i].as_diagonal()[j], i,j) F(S,rowdiag2, EACH, x[i].as_diagonal().diagonal_slice()[j], i,j) F(S,rowself, EACH, x[i].as_slice()[j], i,j) F(S,rowcolT, EACH, x[i].as_col().T()[0][j], i,j)
#define CVIEWS(F,S) F(S,ccall, EACH, x(i,j), i,j) F(S,crowelem, EACH, x[i][j], i,j) F(S,cpair, EACH, (x[std::pair<int,int>(i,j)]), i,j) F(S,ctrans, EACH, x.T()(j,i), i,j) F(S,ctransrow, EACH, x.T()[j][i], i,j) F(S,cdiag, for(int i=0;i<DG;i++), x.diagonal_slice()[i], i,i) F(S,cdiagT, for(int i=0;i<DG;i++), x.T().diagonal_slice()[i], i,i) \
 F(S,csliceD, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), x.slice(1 MC 1 MC R_-1 MC C_-1)(i,j), i+1,j+1) F(S,csliceS, for(int i=0;i<R_-1;i++) for(int j=0;j<C_;j++), (x.template slice<1 MC 0 MC R_-1 MC C_>()(i,j)), i+1,j) F(S,csliceM, for(int i=0;i<R_-1;i++) for(int j=0;j<C_-1;j++), (x.template slice<0 MC TooN::Dynamic MC R_-1 MC TooN::Dynamic>(0 MC 1 MC R_-1 MC C_-1)(i,j)), i,j+1) \
 F(S,crowslice, for(int i=0;i<R_;i++) for(int j=0;j<C_-1;j++), x[i].slice(1 MC C_-1)[j], i,j+1) F(S,crowsliceS, for(int i=0;i<R_;i++), (x[i].template slice<C_-1 MC 1>()[0]), i,C_-1) F(S,crowrow, EACH, x[i].as_row()(0,j), i,j) F(S,crowcol, EACH, x[i].as_col()(j,0), i,j) F(S,crowdiag, EACH, x[i].as_diagonal()[j], i,j) F(S,crowself, EACH, x[i].as_slice()[j], i,j)
#define RD(S,nm,loop,elem,ei,ej) LIB(CAT(rd_##nm##_,S))(P(&r)[R_*C_],Arr<P,S<R_ MC C_>::N>&a){ S<R_,C_>::with(a,[&](auto&x){ int k=0; loop r[k++]=elem; }); } REF(CAT(rd_##nm##_,S))(P(&r)[R_*C_],Arr<P,S<R_ MC C_>::N>&a){ int k=0; loop r[k++]=a[S<R_,C_>::pos(ei,ej)]; }
#define RDC(S,nm,loop,elem,ei,ej) LIB(CAT(rd_##nm##_,S))(P(&r)[R_*C_],Arr<CP,S<R_ MC C_>::N>&a){ S<R_,C_>::with(a,[&](const auto&x){ int k=0; loop r[k++]=elem; }); } REF(CAT(rd_##nm##_,S))(P(&r)[R_*C_],Arr<CP,S<R_ MC C_>::N>&a){ int k=0; loop r[k++]=a[S<R_,C_>::pos(ei,ej)]; }
#define WR(S,nm,loop,elem,ei,ej) LIB(CAT(wr_##nm##_,S))(CP(&w)[R_*C_],Arr<P,S<R_ MC C_>::N>&a){ S<R_,C_>::with(a,[&](auto&x){ int k=0; loop elem=w[k++]; }); } REF(CAT(wr_##nm##_,S))(CP(&w)[R_*C_],Arr<P,S<R_ MC C_>::N>&a){ int k=0; loop a[S<R_,C_>::pos(ei,ej)]=w[k++]; }
#define ALL(S) VIEWS(RD,S) VIEWS(WR,S) CVIEWS(RDC,S)
#ifndef PART
#define PART 0
#endif
#if PART==0
ALL(MFix) ALL(MFixC) ALL(MDyn) ALL(MDynC) ALL(MT) 
#elif PART==1
ALL(MSub) ALL(MSubD) ALL(MSubT) ALL(MSubC) ALL(MTD)
#else
ALL(MRowDyn) ALL(MColDyn) ALL(MRowDynC) ALL(MRef) ALL(MOwn)
#endif
#define SZ(S) LIB(CAT(sizes_,S))(int(&n)[12],Arr<P,S<R_ MC C_>::N>&a){ S<R_,C_>::with(a,[&](auto&x){ n[0]=x.num_rows(); n[1]=x.num_cols(); n[2]=x.T().num_rows(); n[3]=x.T().num_cols(); n[4]=x[0].size(); n[5]=x.diagonal_slice().size(); n[6]=x.slice(0,1,1,C_-1).num_rows(); n[7]=x.slice(0,1,1,C_-1).num_cols(); n[8]=x[0].as_row().num_rows(); n[9]=x[0].as_row().num_cols(); n[10]=x[0].as_col().num_rows(); n[11]=x[0].as_col().num_cols(); }); } \
 REF(CAT(sizes_,S))(int(&n)[12],Arr<P,S<R_ MC C_>::N>&a){ n[0]=R_; n[1]=C_; n[2]=C_; n[3]=R_; n[4]=C_; n[5]=DG; n[6]=1; n[7]=C_-1; n[8]=1; n[9]=C_; n[10]=C_; n[11]=1; }
SZ(MFix) SZ(MFixC) SZ(MDyn) SZ(MDynC) SZ(MT) SZ(MTD) SZ(MSub) SZ(MSubD) SZ(MSubT) SZ(MSubC) SZ(MRowDyn) SZ(MColDyn) SZ(MRowDynC) SZ(MRef) SZ(MOwn) SZ(MOwnC)
