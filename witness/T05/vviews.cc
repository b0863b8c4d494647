// Every view of every vector shape, wrapped raw arrays, and diagonal matrices
// FLAGS:
// FLAGS: -DS_=3 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS-THOROUGH: -DS_=7 -DTOON_INITIALIZE_NAN
#include "vcombos.h"
using namespace sh;
#ifndef S_
#define S_ 4
#endif
typedef double P; typedef const double CP;
#define MC ,
#define EV for(int i=0;i<S_;i++)
#define VIEWS(F,S) F(S,elem,EV,x[i],i) F(S,slice,for(int i=0;i<S_-1;i++),x.slice(1 MC S_-1)[i],i+1) F(S,sliceS,for(int i=0;i<2;i++),(x.template slice<1 MC 2>()[i]),i+1) F(S,sliceDS,for(int i=0;i<2;i++),(x.template slice<TooN::Dynamic MC 2>(S_-2 MC 2)[i]),S_-2+i) F(S,sliceSD,for(int i=0;i<S_-1;i++),(x.template slice<1 MC TooN::Dynamic>(1 MC S_-1)[i]),1+i) \
 F(S,slsl,for(int i=0;i<S_-2;i++),x.slice(1 MC S_-1).slice(1 MC S_-2)[i],i+2) F(S,slslS,for(int i=0;i<1;i++),(x.template slice<1 MC 2>().template slice<1 MC 1>()[i]),i+2) F(S,row,EV,x.as_row()(0 MC i),i) F(S,rowel,EV,x.as_row()[0][i],i) F(S,rowT,EV,x.as_row().T()(i MC 0),i) F(S,col,EV,x.as_col()(i MC 0),i) F(S,colel,EV,x.as_col()[i][0],i) F(S,colT,EV,x.as_col().T()[0][i],i) F(S,diag,EV,x.as_diagonal()[i],i) F(S,diagsl,EV,x.as_diagonal().diagonal_slice()[i],i) F(S,self,EV,x.as_slice()[i],i) F(S,slrow,for(int i=0;i<S_-1;i++),x.slice(1 MC S_-1).as_row()(0 MC i),i+1) F(S,sldiag,for(int i=0;i<S_-1;i++),x.slice(0 MC S_-1).as_diagonal()[i],i) F(S,rowsl,for(int i=0;i<S_-1;i++),x.as_row().slice(0 MC 1 MC 1 MC S_-1)(0 MC i),i+1)
#define CVIEWS(F,S) F(S,celem,EV,x[i],i) F(S,cslice,for(int i=0;i<S_-1;i++),x.slice(1 MC S_-1)[i],i+1) F(S,csliceS,for(int i=0;i<2;i++),(x.template slice<1 MC 2>()[i]),i+1) F(S,csliceDS,for(int i=0;i<2;i++),(x.template slice<TooN::Dynamic MC 2>(S_-2 MC 2)[i]),S_-2+i) F(S,crow,EV,x.as_row()(0 MC i),i) F(S,ccol,EV,x.as_col()(i MC 0),i) F(S,cdiag,EV,x.as_diagonal()[i],i) F(S,cself,EV,x.as_slice()[i],i) F(S,cslrow,for(int i=0;i<S_-1;i++),x.slice(1 MC S_-1).as_row()(0 MC i),i+1)
#define RD(S,nm,loop,elem,ei) LIB(CAT(rd_##nm##_,S))(P(&r)[S_],Arr<P,S<S_>::N>&a){ S<S_>::with(a,[&](auto&x){ int k=0; loop r[k++]=elem; }); } REF(CAT(rd_##nm##_,S))(P(&r)[S_],Arr<P,S<S_>::N>&a){ int k=0; loop r[k++]=a[S<S_>::pos(ei)]; }
#define RDC(S,nm,loop,elem,ei) LIB(CAT(rd_##nm##_,S))(P(&r)[S_],Arr<CP,S<S_>::N>&a){ S<S_>::with(a,[&](const auto&x){ int k=0; loop r[k++]=elem; }); } REF(CAT(rd_##nm##_,S))(P(&r)[S_],Arr<CP,S<S_>::N>&a){ int k=0; loop r[k++]=a[S<S_>::pos(ei)]; }
#define WR(S,nm,loop,elem,ei) LIB(CAT(wr_##nm##_,S))(CP(&w)[S_],Arr<P,S<S_>::N>&a){ S<S_>::with(a,[&](auto&x){ int k=0; loop elem=w[k++]; }); } REF(CAT(wr_##nm##_,S))(CP(&w)[S_],Arr<P,S<S_>::N>&a){ int k=0; loop a[S<S_>::pos(ei)]=w[k++]; }
#define SZ(S) LIB(CAT(sizes_,S))(int(&n)[12],Arr<P,S<S_>::N>&a){ S<S_>::with(a,[&](auto&x){ n[0]=x.size(); n[1]=x.slice(1,2).size(); n[2]=x.template slice<1,2>().size(); n[3]=x.as_row().num_rows(); n[4]=x.as_row().num_cols(); n[5]=x.as_col().num_rows(); n[6]=x.as_col().num_cols(); n[7]=x.as_diagonal().diagonal_slice().size(); n[8]=x.as_slice().size(); n[9]=x.slice(S_,0).size(); n[10]=x.slice(0,0).size(); n[11]=x.slice(0,S_).size(); }); } \
 REF(CAT(sizes_,S))(int(&n)[12],Arr<P,S<S_>::N>&a){ n[0]=S_; n[1]=2; n[2]=2; n[3]=1; n[4]=S_; n[5]=S_; n[6]=1; n[7]=S_; n[8]=S_; n[9]=0; n[10]=0; n[11]=S_; }
#define ALL(S) VIEWS(RD,S) VIEWS(WR,S) CVIEWS(RDC,S) SZ(S)
ALL(VFix) ALL(VRef) ALL(VDyn) ALL(VOwn) ALL(VRsz) ALL(VSub) ALL(VSubD) ALL(VCol) ALL(VColD) ALL(VRow) ALL(VDiag) ALL(VDiagD) ALL(VStrSub) ALL(VStrSubD)
// whole-view reads and writes
LIB(swaprows)(Matrix<3>&m){ Vector<3> t=m[0]; m[0]=m[2]; m[2]=t; } REF(swaprows)(P(&m)[9]){ for(int i=0;i<3;i++){ P t=m[i]; m[i]=m[6+i]; m[6+i]=t; } }
LIB(swapfn)(Matrix<3>&m){ auto a=m[0]; auto b=m[2]; TooN::swap(a,b); } REF(swapfn)(P(&m)[9]){ for(int i=0;i<3;i++){ P t=m[i]; m[i]=m[6+i]; m[6+i]=t; } }
LIB(swapcol)(Matrix<3>&m){ auto a=m.T()[0]; auto b=m.T()[2]; TooN::swap(a,b); } REF(swapcol)(P(&m)[9]){ for(int i=0;i<3;i++){ P t=m[3*i]; m[3*i]=m[3*i+2]; m[3*i+2]=t; } }
LIB(swapmix)(Vector<3>&v,Matrix<3>&m){ auto b=m.T()[2]; TooN::swap(v,b); } REF(swapmix)(P(&v)[3],P(&m)[9]){ for(int i=0;i<3;i++){ P t=v[i]; v[i]=m[3*i+2]; m[3*i+2]=t; } }
LIB(swapdyn)(P(&x)[3],P(&y)[3]){ Vector<> a(3),b(3); for(int i=0;i<3;i++){a[i]=x[i];b[i]=y[i];} TooN::swap(a,b); for(int i=0;i<3;i++){x[i]=a[i];y[i]=b[i];} } REF(swapdyn)(P(&x)[3],P(&y)[3]){ for(int i=0;i<3;i++){ P t=x[i];x[i]=y[i];y[i]=t; } }
LIB(blockasg)(Matrix<4>&m,const Matrix<2>&b){ m.slice<1,2,2,2>()=b; m.slice(0,0,1,4)=Zeros; m.T()[3].slice(2,2)+=b[0]; } REF(blockasg)(P(&m)[16],CP(&b)[4]){ m[6]=b[0];m[7]=b[1];m[10]=b[2];m[11]=b[3]; for(int i=0;i<4;i++) m[i]=0; m[11]+=b[0]; m[15]+=b[1]; }
LIB(wraprow)(P(&a)[6],P(&r)[8]){ auto m=wrapMatrix(a,2,3); auto s=wrapMatrix<2,3>(a); const P*c=a; auto k=wrapMatrix(c,2,3); auto ks=wrapMatrix<2,3>(c); r[0]=m(0,1);r[1]=m(1,2);r[2]=s(0,1);r[3]=s(1,2);r[4]=k(1,0);r[5]=ks(1,0);r[6]=ks.T()[2][1]; r[7]=k[1][1]; }
REF(wraprow)(P(&a)[6],P(&r)[8]){ r[0]=a[1];r[1]=a[5];r[2]=a[1];r[3]=a[5];r[4]=a[3];r[5]=a[3];r[6]=a[5];r[7]=a[4]; }
LIB(wrapcolmajor)(P(&a)[6],P(&r)[4]){ Matrix<2,3,P,Reference::ColMajor> m(a); Matrix<Dynamic,Dynamic,P,Reference::ColMajor> d(a,2,3); r[0]=m(0,1);r[1]=m(1,2);r[2]=d(0,1);r[3]=d(1,2); }
REF(wrapcolmajor)(P(&a)[6],P(&r)[4]){ r[0]=a[2];r[1]=a[5];r[2]=a[2];r[3]=a[5]; }
LIB(wrapfloat)(float(&a)[6],float(&r)[4]){ auto v=wrapVector<3>(a); auto d=wrapVector(a+1,4); auto m=wrapMatrix<3,2>(a); auto q=wrapMatrix(a,3,2); r[0]=v[2]; r[1]=d[3]; r[2]=m(2,0); r[3]=q(1,1); d[0]=7; }
REF(wrapfloat)(float(&a)[6],float(&r)[4]){ r[0]=a[2];r[1]=a[4];r[2]=a[4];r[3]=a[3]; a[1]=7; }
LIB(rowptr)(Vector<3>&v,P(&r)[6]){ Vector<> d(2); d[0]=1; d[1]=v[2]; Vector<Resizable> z(d); r[0]=v.get_data_ptr()[1]; r[1]=d.get_data_ptr()[1]; r[2]=z.get_data_ptr()[1]; const Vector<3>&c=v; r[3]=c.get_data_ptr()[2]; v.get_data_ptr()[0]=9; d.get_data_ptr()[0]=4; r[4]=d[0]; r[5]=z[0]; } REF(rowptr)(P(&v)[3],P(&r)[6]){ r[0]=v[1]; r[1]=v[2]; r[2]=v[2]; r[3]=v[2]; v[0]=9; r[4]=4; r[5]=1; }
LIB(diagctor)(DiagonalMatrix<3>&d,const Vector<3>&v){ DiagonalMatrix<3> e(v); d=e; d[1]=d[0]; d.diagonal_slice()[2]=v[1]; } REF(diagctor)(P(&d)[3],CP(&v)[3]){ d[0]=v[0]; d[1]=v[0]; d[2]=v[1]; }
