// Helper functions of vectors and matrices over every storage shape
// FLAGS:
// FLAGS: -DPREC=float -DLEN=1 -DR_=2 -DC_=2 -DTOON_CHECK_BOUNDS -std=gnu++14
// FLAGS: -DPREC=double -DLEN=4 -DR_=3 -DC_=1
// FLAGS-THOROUGH: -DPREC=double -DLEN=6 -DR_=3 -DC_=3
// FLAGS-THOROUGH: -DPREC=float -DLEN=5 -DR_=2 -DC_=4 -DTOON_INITIALIZE_SNAN
#include "vcombos.h"
#include <cmath>
#include <algorithm>
using namespace sh;
#ifndef PREC
#define PREC double
#define LEN 3
#define R_ 2
#define C_ 3
#endif
typedef PREC P;
#define MC ,
#define VO(op,id,A,NO,LB,RB) \
 LIB(CAT(op##_,id))(P(&r)[NO],Arr<P,A<LEN>::N>&a){ A<LEN>::with(a,[&](auto&x_){ const auto&x=x_; LB; }); } \
 REF(CAT(op##_,id))(P(&r)[NO],Arr<P,A<LEN>::N>&a){ P x[LEN]; for(int i=0;i<LEN;i++) x[i]=a[A<LEN>::pos(i)]; RB; }
// in place on a modifiable object
#define VI(op,id,A,LB,RB) \
 LIB(CAT(op##_,id))(Arr<P,A<LEN>::N>&a,const P&s){ A<LEN>::with(a,[&](auto&x){ LB; }); } \
 REF(CAT(op##_,id))(Arr<P,A<LEN>::N>&a,const P&s){ P x[LEN]; for(int i=0;i<LEN;i++) x[i]=a[A<LEN>::pos(i)]; RB; for(int i=0;i<LEN;i++) a[A<LEN>::pos(i)]=x[i]; }
template<int N> inline P rsq(const P(&x)[N]){ P s=0; for(int i=0;i<N;i++) s+=x[i]*x[i]; return s; }
template<int N,class Less> inline P rbest(const P(&x)[N],int&k,Less l){ k=0; for(int i=1;i<N;i++) if(l(x[i],x[k])) k=i; P b=x[0]; for(int i=1;i<N;i++) if(l(x[i],b)) b=x[i]; return b; }
template<class V,class F> auto view2(V&v,F f){ f(v); }
template<class Less> inline void rpos(const P*x,int n,int stride,P&val,P&pos,Less l){ val=x[0]; pos=0; for(int i=1;i<n;i++) if(l(x[i*stride],val)){ val=x[i*stride]; pos=i; } }
#define LT [](P a,P b){return a<b;}
#define GT [](P a,P b){return a>b;}
#define VALL(id,D,A,B) \
 VO(norm,id,A,1,r[0]=norm(x),r[0]=std::sqrt(rsq(x))) \
 VO(norm2,id,A,1,r[0]=norm_2(x),r[0]=std::sqrt(rsq(x))) \
 VO(normsq,id,B,1,r[0]=norm_sq(x),r[0]=rsq(x)) \
 VO(norm1,id,A,1,r[0]=norm_1(x),P s=0; for(int i=0;i<LEN;i++) s+=std::abs(x[i]); r[0]=s) \
 VO(norminf,id,B,1,r[0]=norm_inf(x),P s=std::abs(x[0]); for(int i=1;i<LEN;i++) s=std::max(s,std::abs(x[i])); r[0]=s) \
 VO(unit,id,A,LEN,wrapVector<LEN>(r)=unit(x),P q=std::sqrt(rsq(x)); for(int i=0;i<LEN;i++) r[i]=x[i]/q) \
 VO(proj,id,B,LEN,auto q=project(x); r[LEN-1]=q.size(); for(int i=0;i<q.size();i++) r[i]=q[i],r[LEN-1]=LEN-1; for(int i=0;i<LEN-1;i++) r[i]=x[i]/x[LEN-1]) \
 VO(unproj,id,A,LEN+2,auto q=unproject(x); r[LEN+1]=q.size(); for(int i=0;i<q.size();i++) r[i]=q[i],r[LEN+1]=LEN+1; r[LEN]=1; for(int i=0;i<LEN;i++) r[i]=x[i]) \
 VO(minv,id,A,1,r[0]=min_value(x),int k; r[0]=rbest(x,k,LT)) \
 VO(maxv,id,B,1,r[0]=max_value(x),int k; r[0]=rbest(x,k,GT)) \
 VO(mine,id,B,2,auto q=min_element(x); r[0]=q.first; r[1]=q.second,rpos(x,LEN,1,r[0],r[1],LT)) \
 VO(maxe,id,A,2,auto q=max_element(x); r[0]=q.first; r[1]=q.second,rpos(x,LEN,1,r[0],r[1],GT)) \
 VO(nan_isnan,id,A,1,r[0]=isnan(x),bool q=false; for(int i=0;i<LEN;i++) q=q||x[i]!=x[i]; r[0]=q) \
 VO(nan_isfin,id,B,1,r[0]=isfinite(x),bool q=true; for(int i=0;i<LEN;i++) q=q&&std::isfinite(x[i]); r[0]=q) \
 VI(normalize,id,A,normalize(x.as_slice()),P q=std::sqrt(rsq(x)); for(int i=0;i<LEN;i++) x[i]=x[i]/q) \
 VI(fill,id,B,Fill(x MC s),for(int i=0;i<LEN;i++) x[i]=s)
#define VALLR(F,id,D,A,B) VALL(id,D,A,B)
VCOMBOS(VALLR,x)
// owned objects normalised directly
LIB(normown)(P(&a)[LEN],P(&b)[LEN]){ normalize(*reinterpret_cast<Vector<LEN,P>*>(a)); Vector<Dynamic,P> d(LEN); for(int i=0;i<LEN;i++) d[i]=b[i]; normalize(d); for(int i=0;i<LEN;i++) b[i]=d[i]; }
REF(normown)(P(&a)[LEN],P(&b)[LEN]){ P q=std::sqrt(rsq(a)),p=std::sqrt(rsq(b)); for(int i=0;i<LEN;i++){ a[i]/=q; b[i]/=p; } }
// helpers take expressions' results as well as objects
LIB(ofexpr)(P(&r)[4],const P(&a)[LEN],const P(&b)[LEN]){ const Vector<LEN,P>&x=*reinterpret_cast<const Vector<LEN,P>*>(a),&y=*reinterpret_cast<const Vector<LEN,P>*>(b); r[0]=norm_sq(x+y); r[1]=norm_1(x-y); r[2]=max_value(2*x); r[3]=norm_inf(unproject(x-y)); }
REF(ofexpr)(P(&r)[4],const P(&a)[LEN],const P(&b)[LEN]){ P s=0,t=0,m=2*a[0],u=std::abs(a[0]-b[0]); for(int i=0;i<LEN;i++){ s+=(a[i]+b[i])*(a[i]+b[i]); t+=std::abs(a[i]-b[i]); if(i){ if(2*a[i]>m) m=2*a[i]; u=std::max(u,std::abs(a[i]-b[i])); } } r[0]=s; r[1]=t; r[2]=m; r[3]=std::max(u,P(1)); }
// ---- matrices
#define MO(op,id,A,NO,LB,RB) \
 LIB(CAT(op##_,id))(P(&r)[NO],Arr<P,A<R_ MC C_>::N>&a){ A<R_,C_>::with(a,[&](auto&x_){ const auto&x=x_; LB; }); } \
 REF(CAT(op##_,id))(P(&r)[NO],Arr<P,A<R_ MC C_>::N>&a){ P x[R_][C_]; for(int i=0;i<R_;i++) for(int j=0;j<C_;j++) x[i][j]=a[A<R_ MC C_>::pos(i MC j)]; RB; }
#define SQ(op,id,A,NO,LB,RB) \
 LIB(CAT(op##_,id))(P(&r)[NO],Arr<P,A<R_ MC R_>::N>&a){ A<R_,R_>::with(a,[&](auto&x){ LB; }); } \
 REF(CAT(op##_,id))(P(&r)[NO],Arr<P,A<R_ MC R_>::N>&a){ P x[R_][R_]; for(int i=0;i<R_;i++) for(int j=0;j<R_;j++) x[i][j]=a[A<R_ MC R_>::pos(i MC j)]; RB; for(int i=0;i<R_;i++) for(int j=0;j<R_;j++) a[A<R_ MC R_>::pos(i MC j)]=x[i][j]; }
#define EACH for(int i=0;i<R_;i++) for(int j=0;j<C_;j++)
template<class V,class I> inline void put(P*r,const V&v,const I&k){ for(int i=0;i<v.size();i++){ r[2*i]=v[i]; r[2*i+1]=k[i]; } }
#define MALL(id,D,A,B) \
 MO(fro,id,A,1,r[0]=norm_fro(x),P s=0; EACH s+=x[i][j]*x[i][j]; r[0]=std::sqrt(s)) \
 MO(minf,id,A,1,r[0]=norm_inf(x),P m=0; for(int i=0;i<R_;i++){ P s=0; for(int j=0;j<C_;j++) s+=std::abs(x[i][j]); m=std::max(m MC s); } r[0]=m) \
 MO(mone,id,A,1,r[0]=norm_1(x),P m=0; for(int j=0;j<C_;j++){ P s=0; for(int i=0;i<R_;i++) s+=std::abs(x[i][j]); m=std::max(m MC s); } r[0]=m) \
 MO(nan_misnan,id,A,1,r[0]=isnan(x),bool q=false; EACH q=q||x[i][j]!=x[i][j]; r[0]=q) \
 MO(mminv,id,A,1,r[0]=min_value(x),P m=x[0][0]; EACH if(x[i][j]<m) m=x[i][j]; r[0]=m) \
 MO(mmaxv,id,A,1,r[0]=max_value(x),P m=x[0][0]; EACH if(x[i][j]>m) m=x[i][j]; r[0]=m) \
 MO(mmine,id,A,3,auto q=min_element(x); r[0]=q.first; r[1]=q.second.first; r[2]=q.second.second,r[0]=x[0][0]; r[1]=r[2]=0; EACH if(x[i][j]<r[0]){ r[0]=x[i][j]; r[1]=i; r[2]=j; }) \
 MO(mmaxe,id,A,3,auto q=max_element(x); r[0]=q.first; r[1]=q.second.first; r[2]=q.second.second,r[0]=x[0][0]; r[1]=r[2]=0; EACH if(x[i][j]>r[0]){ r[0]=x[i][j]; r[1]=i; r[2]=j; }) \
 MO(mminvh,id,A,2*R_,auto q=min_value_horizontal(x); auto k=min_element_horizontal(x); put(r MC q MC k.second),for(int i=0;i<R_;i++) rpos(x[i],C_,1,r[2*i],r[2*i+1],LT)) \
 MO(mmaxvh,id,A,2*R_,auto q=max_value_horizontal(x); auto k=max_element_horizontal(x); put(r MC k.first MC k.second); for(int i=0;i<R_;i++) if(q.size()!=R_) r[0]=-1,for(int i=0;i<R_;i++) rpos(x[i],C_,1,r[2*i],r[2*i+1],GT)) \
 MO(mminvv,id,A,2*C_,auto q=min_value_vertical(x); auto k=min_element_vertical(x); put(r MC q MC k.second),for(int i=0;i<C_;i++) rpos(&x[0][i],R_,C_,r[2*i],r[2*i+1],LT)) \
 MO(mmaxvv,id,A,2*C_,auto q=max_value_vertical(x); auto k=max_element_vertical(x); put(r MC q MC k.second),for(int i=0;i<C_;i++) rpos(&x[0][i],R_,C_,r[2*i],r[2*i+1],GT)) \
 MO(mminev,id,A,2*C_,auto k=min_element_vertical(x); put(r MC k.first MC k.second),for(int i=0;i<C_;i++) rpos(&x[0][i],R_,C_,r[2*i],r[2*i+1],LT)) \
 MO(mmaxev,id,A,2*C_,auto k=max_element_vertical(x); put(r MC k.first MC k.second),for(int i=0;i<C_;i++) rpos(&x[0][i],R_,C_,r[2*i],r[2*i+1],GT)) \
 MO(mmineh,id,A,2*R_,auto k=min_element_horizontal(x); put(r MC k.first MC k.second),for(int i=0;i<R_;i++) rpos(x[i],C_,1,r[2*i],r[2*i+1],LT)) \
 MO(mmaxwh,id,A,R_,auto q=max_value_horizontal(x); for(int i=0;i<q.size();i++) r[i]=q[i],P k; for(int i=0;i<R_;i++) rpos(x[i],C_,1,r[i],k,GT)) \
 MO(mproj,id,A,R_*C_,auto q=project(x); r[(R_-1)*C_]=q.num_rows(); r[(R_-1)*C_+(C_>1)]=q.num_cols(); for(int i=0;i<q.num_rows();i++) for(int j=0;j<q.num_cols();j++) r[i*C_+j]=q[i][j], \
    r[(R_-1)*C_]=R_-1; r[(R_-1)*C_+(C_>1)]=C_; for(int i=0;i<R_-1;i++) for(int j=0;j<C_;j++) r[i*C_+j]=x[i][j]/x[R_-1][j]) \
 MO(munproj,id,A,R_*C_+C_+2,auto q=unproject(x); r[R_*C_+C_]=q.num_rows(); r[R_*C_+C_+1]=q.num_cols(); for(int i=0;i<q.num_rows();i++) for(int j=0;j<q.num_cols();j++) r[i*C_+j]=q[i][j], \
    r[R_*C_+C_]=R_+1; r[R_*C_+C_+1]=C_; EACH r[i*C_+j]=x[i][j]; for(int j=0;j<C_;j++) r[R_*C_+j]=1) \
 LIB(CAT(mfill_,id))(Arr<P,A<R_ MC C_>::N>&a,const P&s){ A<R_,C_>::with(a,[&](auto&x){ Fill(x,s); }); } \
 REF(CAT(mfill_,id))(Arr<P,A<R_ MC C_>::N>&a,const P&s){ EACH a[A<R_ MC C_>::pos(i MC j)]=s; } \
 SQ(trace,id,A,1,r[0]=trace(x),P s=0; for(int i=0;i<R_;i++) s+=x[i][i]; r[0]=s) \
 SQ(symm,id,A,1,Symmetrize(x),for(int i=0;i<R_;i++) for(int j=0;j<i;j++) x[i][j]=x[j][i]=(x[i][j]+x[j][i])/2)
#define MALLR(F,id,D,A,B) MALL(id,D,A,B)
MCOMBOS(MALLR,x)
// ---- cross product matrix
#define CPM(F,id,D,A,B) \
 LIB(cpm_##id)(P(&r)[9],Arr<P,A<3>::N>&a){ A<3>::with(a,[&](auto&x){ wrapMatrix<3,3>(r)=cross_product_matrix(x); }); } \
 REF(cpm_##id)(P(&r)[9],Arr<P,A<3>::N>&a){ P x=a[A<3>::pos(0)],y=a[A<3>::pos(1)],z=a[A<3>::pos(2)]; r[0]=r[4]=r[8]=0; r[1]=-z; r[2]=y; r[3]=z; r[5]=-x; r[6]=-y; r[7]=x; }
VCOMBOS(CPM,x)
LIB(inv2)(double(&r)[4],const double(&a)[4]){ *reinterpret_cast<Matrix<2>*>(r)=inv(*reinterpret_cast<const Matrix<2>*>(a)); }
REF(inv2)(double(&r)[4],const double(&a)[4]){ double d=a[0]*a[3]-a[1]*a[2]; r[0]=a[3]/d; r[1]=-a[1]/d; r[2]=-a[2]/d; r[3]=a[0]/d; }
