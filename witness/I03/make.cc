// objects constructed from Zeros, Ones and Identity: sizes and elements; mixed precisions
// FLAGS:
// FLAGS: -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_QNAN
#include "shapes.h"
#include <cstdlib>
#define MC ,
using namespace sh;
// out: sizes then elements
template<class V,int N> static inline void outv(const V&v,Arr<double,N>&o){ o[0]=v.size(); for(int i=0;i<v.size()&&i<N-1;i++) o[i+1]=v[i]; }
template<class M,int N> static inline void outm(const M&m,Arr<double,N>&o){ o[0]=m.num_rows(); o[1]=m.num_cols(); for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) if(i*m.num_cols()+j<N-2) o[2+i*m.num_cols()+j]=m(i,j); }
#define MV(nm,decl,n,e) LIB(nm)(Arr<double,n+1>&o,const double&s){ decl; outv(v,o); } REF(nm)(Arr<double,n+1>&o,const double&s){ o[0]=n; for(int i=0;i<n;i++) o[i+1]=(e); }
#define MM(nm,decl,r,c,e) LIB(nm)(Arr<double,r*c+2>&o,const double&s){ decl; outm(m,o); } REF(nm)(Arr<double,r*c+2>&o,const double&s){ o[0]=r; o[1]=c; for(int i=0;i<r*c;i++){ double I=i/c==i%c; o[i+2]=(e); } }
#define VN(n) \
 MV(mkzs##n,Vector<n> v=Zeros,n,0) MV(mkos##n,Vector<n> v=Ones,n,1) MV(mkss##n,Vector<n> v(s*Ones),n,s) MV(mkf##n,Vector<n MC float> v(2*Ones),n,2) MV(mki##n,Vector<n MC int> v=-Ones,n,-1) \
 MV(mkzd##n,Vector<> v=Zeros(n),n,0) MV(mkod##n,Vector<> v(Ones(n)),n,1) MV(mksd##n,Vector<> v=s*Ones(n),n,s) MV(mkds##n,Vector<> v=Ones(n)*s,n,s) MV(mkdd##n,Vector<> v=Ones(n)/s,n,1/s) MV(mknd##n,Vector<> v=-Ones(n),n,-1) MV(mkdf##n,Vector<Dynamic MC float> v=4*Ones(n)/8.0,n,.5) \
 MV(mkzr##n,Vector<Resizable> v=Zeros(n),n,0) MV(mkor##n,Vector<Resizable> v(s*Ones(n)),n,s) \
 MV(mkp1##n,Vector<> v=Ones(n);v+=s*Ones,n,1+s) MV(mkp2##n,Vector<> w=Ones(n);Vector<> v=w-s*Ones,n,1-s) MV(mkp3##n,Vector<Resizable> w=Ones(n);Vector<Resizable> v=w+Ones,n,2) MV(mkp4##n,Vector<n> w=Ones;Vector<> v=w+s*Ones,n,1+s) MV(mkp5##n,Vector<> w=Ones(n);Vector<n> v=3*Ones-w,n,2) \
 MV(mkcallo##n,Vector<> v=(s*Ones)(n),n,s) \
 MV(mkas##n,Vector<Resizable> v(n);v=Zeros;v+=Ones,n,1) \
 MV(mkix##n,Vector<n MC int> v=2*Ones;v+=3*Ones;v-=Ones,n,4) MV(mkmx1##n,Vector<n MC int> w=2*Ones;auto v=w+2.5*Ones,n,4.5) MV(mkmx2##n,Vector<n MC int> w=2*Ones;auto v=w-2.5*Ones,n,-.5) MV(mkmx3##n,Vector<n MC int> w=2*Ones;auto v=2.5*Ones-w,n,.5) MV(mkmx4##n,Vector<n MC int> w=2*Ones;auto v=0.25*Ones+w,n,2.25)
VN(1) VN(3) VN(4)
#define MN(r,c) \
 MM(mkzs##r##c,Matrix<r MC c> m=Zeros,r,c,0) MM(mkos##r##c,Matrix<r MC c> m=s*Ones,r,c,s) MM(mkoc##r##c,Matrix<r MC c MC float MC ColMajor> m(2*Ones),r,c,2) \
 MM(mkzd##r##c,Matrix<> m=Zeros(r MC c),r,c,0) MM(mkod##r##c,Matrix<> m=s*Ones(r MC c),r,c,s) MM(mkodd##r##c,Matrix<> m=Ones(r MC c)/s,r,c,1/s) MM(mkodn##r##c,Matrix<> m=-Ones(r MC c),r,c,-1) MM(mkodx##r##c,Matrix<Dynamic MC Dynamic MC double MC ColMajor> m=Ones(r MC c)*s,r,c,s) \
 MM(mkrd##r##c,Matrix<r MC Dynamic> m=Zeros(r MC c),r,c,0) MM(mkcd##r##c,Matrix<Dynamic MC c> m=s*Ones(r MC c),r,c,s) MM(mkcall##r##c,Matrix<> m=(s*Ones)(r MC c),r,c,s) \
 MM(mkp1##r##c,Matrix<> w=Ones(r MC c);Matrix<> m=w-s*Ones,r,c,1-s) MM(mkp2##r##c,Matrix<r MC c> w=Ones;Matrix<> m=s*Ones-w,r,c,s-1) MM(mkp3##r##c,Matrix<> m=Ones(r MC c);m+=s*Ones,r,c,1+s) \
 MM(mkmx1##r##c,Matrix<r MC c MC int> w=2*Ones;auto m=w+2.5*Ones,r,c,4.5) MM(mkmx2##r##c,Matrix<r MC c MC int> w=2*Ones;auto m=w-2.5*Ones,r,c,-.5) MM(mkmx3##r##c,Matrix<r MC c MC int> w=2*Ones;auto m=2.5*Ones-w,r,c,.5)
MN(1,1) MN(2,3) MN(3,2) MN(3,3) MN(4,1)
#define IN(n) \
 MM(mkis##n,Matrix<n> m=Identity,n,n,I) MM(mkiss##n,Matrix<n> m(s*Identity),n,n,s*I) MM(mkid##n,Matrix<> m=Identity(n),n,n,I) MM(mkids##n,Matrix<> m=s*Identity(n),n,n,s*I) MM(mkidd##n,Matrix<> m=Identity(n)/s,n,n,I/s) MM(mkidn##n,Matrix<> m=-Identity(n),n,n,-I) MM(mkicall##n,Matrix<> m=(s*Identity)(n),n,n,s*I) \
 MM(mkiq##n,Matrix<> m=Zeros(n),n,n,0) MM(mkiqo##n,Matrix<> m=s*Ones(n),n,n,s) MM(mkirc##n,Matrix<n MC Dynamic MC double MC ColMajor> m=2*Identity(n),n,n,2*I) \
 MM(mkip1##n,Matrix<> w=Ones(n MC n);Matrix<> m=w-s*Identity,n,n,1-s*I) MM(mkip2##n,Matrix<n> w=Ones;Matrix<> m=s*Identity-w,n,n,s*I-1) MM(mkip3##n,Matrix<> m=Ones(n);m+=s*Identity;m-=Identity,n,n,1+s*I-I) \
 MM(mkimx1##n,Matrix<n MC n MC int> w=2*Ones;auto m=w+2.5*Identity,n,n,2+2.5*I) MM(mkimx2##n,Matrix<n MC n MC int> w=2*Ones;auto m=w-2.5*Identity,n,n,2-2.5*I) MM(mkimx3##n,Matrix<n MC n MC int> w=2*Ones;auto m=2.5*Identity-w,n,n,2.5*I-2)
IN(1) IN(2) IN(3)
// comparison with Zeros
#define NZ(S,n) LIB(nz_##S##_##n)(Arr<double,S<n>::N>&a,bool&o){ S<n>::with(a,[&](auto&v){ o=v!=Zeros; }); } REF(nz_##S##_##n)(Arr<double,S<n>::N>&a,bool&o){ o=false; for(int i=0;i<n;i++) if(a[S<n>::pos(i)]!=0){ o=true; break; } }
NZ(VFix,1) NZ(VFix,3) NZ(VDyn,3) NZ(VSub,3) NZ(VCol,2) NZ(VDiagD,3) NZ(VRsz,2)
#define NZM(S,r,c) LIB(nz_##S##_##r##c)(Arr<double,S<r MC c>::N>&a,bool&o){ S<r,c>::with(a,[&](auto&m){ o=m!=Zeros; }); } REF(nz_##S##_##r##c)(Arr<double,S<r MC c>::N>&a,bool&o){ o=false; for(int i=0;i<r*c;i++) if(a[S<r MC c>::pos(i/c,i%c)]!=0){ o=true; break; } }
NZM(MFix,2,2) NZM(MFixC,2,3) NZM(MDyn,2,3) NZM(MTD,3,2) NZM(MSubT,2,2) NZM(MSubC,2,3)
// diagonal matrices
LIB(diag1)(Arr<double,3>&o,const double&s){ DiagonalMatrix<3> d(s*Ones); for(int i=0;i<3;i++) o[i]=d[i]; }
REF(diag1)(Arr<double,3>&o,const double&s){ for(int i=0;i<3;i++) o[i]=s; }
LIB(diag2)(Arr<double,3>&o,const double&s){ DiagonalMatrix<> d(s*Ones(3)); for(int i=0;i<3;i++) o[i]=d[i]; }
REF(diag2)(Arr<double,3>&o,const double&s){ for(int i=0;i<3;i++) o[i]=s; }
