// Owning objects: copies are independent and every allocation is released exactly once on every path
// FLAGS:
// FLAGS: -DPREC=float -DTOON_INITIALIZE_SNAN -std=gnu++14
// FLAGS: -DPREC=int
// FLAGS-THOROUGH: -DPREC=double -DTOON_CHECK_BOUNDS -std=gnu++20
#include "shapes.h"
#include <utility>
#ifndef PREC
#define PREC double
#endif
typedef PREC P;
using namespace TooN;
#define MC ,
// owner kinds: type, number of elements, construction with room for the elements
struct KVF{ typedef Vector<3,P> T; enum{N=3}; static T mk(){return T();} };
struct KVH{ typedef Vector<(sizeof(P)==4?251:126),P> T; enum{N=(sizeof(P)==4?251:126)}; static T mk(){return T();} };
struct KVD{ typedef Vector<Dynamic,P> T; enum{N=3}; static T mk(){return T(3);} };
struct KVR{ typedef Vector<Resizable,P> T; enum{N=3}; static T mk(){return T(3);} };
struct KMF{ typedef Matrix<2,3,P> T; enum{N=6}; static T mk(){return T();} };
struct KMC{ typedef Matrix<2,3,P,ColMajor> T; enum{N=6}; static T mk(){return T();} };
struct KMH{ typedef Matrix<(sizeof(P)==4?21:12),12,P> T; enum{N=(sizeof(P)==4?21:12)*12}; static T mk(){return T();} };
struct KMD{ typedef Matrix<Dynamic,Dynamic,P> T; enum{N=6}; static T mk(){return T(2,3);} };
struct KMDC{ typedef Matrix<Dynamic,Dynamic,P,ColMajor> T; enum{N=6}; static T mk(){return T(2,3);} };
struct KMRD{ typedef Matrix<Dynamic,3,P> T; enum{N=6}; static T mk(){return T(2,3);} };
struct KMCD{ typedef Matrix<2,Dynamic,P,ColMajor> T; enum{N=6}; static T mk(){return T(2,3);} };
template<int S,class Q,class B> Q& at(Vector<S,Q,B>&v,int k){ return v[k]; }
template<int S,class Q,class B> const Q& at(const Vector<S,Q,B>&v,int k){ return v[k]; }
template<int R,int C,class Q,class B> Q& at(Matrix<R,C,Q,B>&m,int k){ return m(k/m.num_cols(),k%m.num_cols()); }
template<int R,int C,class Q,class B> const Q& at(const Matrix<R,C,Q,B>&m,int k){ return m(k/m.num_cols(),k%m.num_cols()); }
template<class T,int N> void load(T&t,const P(&p)[N]){ for(int i=0;i<N;i++) at(t,i)=p[i]; }
template<class T,int N> void save(const T&t,P(&p)[N]){ for(int i=0;i<N;i++) p[i]=at(t,i); }
template<int N> void cp(P(&d)[N],const P(&s)[N]){ for(int i=0;i<N;i++) d[i]=s[i]; }
template<class K> typename K::T make(const P(&p)[K::N]){ typename K::T t=K::mk(); load(t,p); return t; }
template<class T> void eat(T t,const P&s){ for(int i=0;i<2;i++) at(t,i)=s; }
template<class T> T pass(T t){ return t; }
template<class T> T twice(const T&t){ T r(t); for(int i=0;i<2;i++) at(r,i)=at(r,i)+at(r,i); return r; }
template<class T> int early(const T&a,const P&s){ T b(a); if(s>0) return 1; T c(b); at(c,0)=s; if(at(a,0)>s){ T d(c); if(at(d,1)>0) return 2; } return 3; }
template<class T> struct Two{ T a; T b; };
#define O(op,K,LB,RB) \
 LIB(op##_##K)(P(&o1)[K::N],P(&o2)[K::N],const P(&p)[K::N],const P(&q)[K::N],const P&s){ typedef K::T T; (void)sizeof(T); LB; } \
 REF(op##_##K)(P(&o1)[K::N],P(&o2)[K::N],const P(&p)[K::N],const P(&q)[K::N],const P&s){ RB; }
#define ALL(K) \
 O(copy,K,T a=make<K>(p); T b(a); at(a,0)=s; at(b,1)=s; save(a,o1); save(b,o2),cp(o1,p);cp(o2,p);o1[0]=s;o2[1]=s) \
 O(ccopy,K,const T a=make<K>(p); T b=a; const T c(b); at(b,1)=s; save(c,o1); save(b,o2),cp(o1,p);cp(o2,p);o2[1]=s) \
 O(assign,K,T a=make<K>(p); T b=make<K>(q); b=a; at(a,0)=s; at(b,1)=s; save(a,o1); save(b,o2),cp(o1,p);cp(o2,p);o1[0]=s;o2[1]=s) \
 O(chain,K,T a=make<K>(p); T b=make<K>(q); T c=make<K>(q); c=b=a; at(b,0)=s; save(c,o1); save(b,o2),cp(o1,p);cp(o2,p);o2[0]=s) \
 O(self,K,T a=make<K>(p); T&r=a; a=r; save(a,o1); cp(o2,q),cp(o1,p); cp(o2,q)) \
 O(byval,K,T a=make<K>(p); eat(a,s); eat(a,s); save(a,o1); save(pass(a),o2),cp(o1,p);cp(o2,p)) \
 O(ret,K,T a=make<K>(p); T b=make<K>(q); b=twice(a); save(a,o1); save(b,o2); b=pass(twice(b)),cp(o1,p);cp(o2,p); o2[0]+=o2[0]; o2[1]+=o2[1]) \
 O(move,K,T a=make<K>(p); T b(std::move(a)); save(b,o1); T c=make<K>(q); T d=std::move(c); at(d,0)=s; save(d,o2),cp(o1,p);cp(o2,q); o2[0]=s) \
 O(reuse,K,T a=make<K>(p); T b(std::move(a)); a=b; at(b,0)=s; save(a,o1); T c(std::move(a)); a=make<K>(q); save(a,o2),cp(o1,p);cp(o2,q)) \
 O(swap,K,T a=make<K>(p); T b=make<K>(q); std::swap(a,b); save(a,o1); save(b,o2); std::swap(b,a),cp(o1,q);cp(o2,p)) \
 O(rot,K,T a=make<K>(p); T b=make<K>(q); T t(std::move(a)); a=std::move(b); b=std::move(t); save(a,o1); save(b,o2),cp(o1,q);cp(o2,p)) \
 O(early,K,T a=make<K>(p); int k=early(a,s); cp(o2,q); o2[0]=k; save(a,o1),cp(o1,p); cp(o2,q); o2[0]= s>0?1:(p[0]>s&&p[1]>0)?2:3) \
 O(member,K,Two<T> u={make<K>(p) MC make<K>(q)}; Two<T> v(u); at(u.a,0)=s; u.b=v.a; v=u; at(u.b,0)=s; save(v.a,o1); save(v.b,o2),cp(o1,p);cp(o2,p);o1[0]=s) \
 O(array,K,T u[2]={make<K>(p) MC make<K>(q)}; T v[2]={u[1] MC u[0]}; v[0]=u[0]; at(u[0],0)=s; at(v[1],1)=s; save(v[0],o1); save(v[1],o2),cp(o1,p);cp(o2,p);o2[1]=s) \
 O(pair,K,std::pair<T MC T> u(make<K>(p) MC make<K>(q)); std::pair<T MC T> v(u); v=u; at(u.first,0)=s; save(v.first,o1); save(u.first,o2),cp(o1,p);cp(o2,p);o2[0]=s) \
 O(heap,K,T*a=new T(make<K>(p)); T*b=new T(*a); at(*a,0)=s; save(*a,o1); delete a; at(*b,1)=s; save(*b,o2); delete b,cp(o1,p);cp(o2,p);o1[0]=s;o2[1]=s) \
 O(expr,K,T a=make<K>(p); T b(a+a); b+=b; b=a+b; T c=-a; c=2*c; save(b,o1); save(c,o2),for(int i=0;i<K::N;i++){ o1[i]=5*p[i]; o2[i]=-2*p[i]; })
ALL(KVF) ALL(KVH) ALL(KVD) ALL(KVR) ALL(KMF) ALL(KMC) ALL(KMH) ALL(KMD) ALL(KMDC) ALL(KMRD) ALL(KMCD)
// conversions between owner kinds
#define X(K,L) \
 LIB(conv_##K##_##L)(P(&o1)[K::N],P(&o2)[K::N],P(&o3)[K::N],const P(&p)[K::N],const P&s){ K::T a=make<K>(p); L::T b(a); at(a,0)=s; save(b,o1); L::T c=L::mk(); c=a; at(a,1)=s; save(c,o2); at(c,0)=1; save(a,o3); } \
 REF(conv_##K##_##L)(P(&o1)[K::N],P(&o2)[K::N],P(&o3)[K::N],const P(&p)[K::N],const P&s){ cp(o1,p); cp(o2,p); o2[0]=s; cp(o3,p); o3[0]=o3[1]=s; }
X(KVF,KVD) X(KVF,KVR) X(KVD,KVF) X(KVD,KVR) X(KVR,KVF) X(KVR,KVD)
#define XM(L) X(KMF,L) X(KMC,L) X(KMD,L) X(KMDC,L) X(KMRD,L) X(KMCD,L)
XM(KMF) XM(KMC) XM(KMD) XM(KMDC) XM(KMRD) XM(KMCD)
// construction of an owner from every view shape copies the elements
template<int S> struct VL{}; 
#define OV(SH) \
 LIB(ofview_##SH)(P(&o)[3],P(&o2)[3],P(&p)[sh::SH<3>::N],const P&s){ sh::SH<3>::with(p,[&](auto&x){ Vector<3,P> a(x); Vector<Dynamic,P> b(x); Vector<Resizable,P> c(x); x[0]=s; save(a,o); for(int i=0;i<3;i++) o2[i]=b[i]+c[i]; a[1]=s; b[1]=s; c[2]=s; }); } \
 REF(ofview_##SH)(P(&o)[3],P(&o2)[3],P(&p)[sh::SH<3>::N],const P&s){ for(int i=0;i<3;i++){ o[i]=p[sh::SH<3>::pos(i)]; o2[i]=o[i]+o[i]; } p[sh::SH<3>::pos(0)]=s; } \
 LIB(retarget_##SH)(P(&p)[sh::SH<3>::N],P(&q)[sh::SH<3>::N],P(&w)[3],const P&s){ sh::SH<3>::with(p,[&](auto&x){ sh::SH<3>::with(q,[&](auto&y){ auto&&vx=x.template slice<0,3>(); auto&&vy=y.slice(0,3); vx=vy; vx[0]=s; vy[1]=s; vx=*reinterpret_cast<Vector<3,P>*>(w); vy=vx; vy[2]=s; }); }); } \
 REF(retarget_##SH)(P(&p)[sh::SH<3>::N],P(&q)[sh::SH<3>::N],P(&w)[3],const P&s){ for(int i=0;i<3;i++) p[sh::SH<3>::pos(i)]=q[sh::SH<3>::pos(i)]=w[i]; q[sh::SH<3>::pos(2)]=s; }
OV(VFix) OV(VRef) OV(VDyn) OV(VOwn) OV(VRsz) OV(VSub) OV(VSubD) OV(VCol) OV(VColD) OV(VRow) OV(VDiag) OV(VDiagD) OV(VStrSub) OV(VStrSubD)
#define OM(SH) \
 LIB(mofview_##SH)(P(&o)[6],P(&o2)[6],Arr<P,sh::SH<2 MC 3>::N>&p,const P&s){ sh::SH<2,3>::with(p,[&](auto&x){ Matrix<2,3,P> a(x); Matrix<Dynamic,Dynamic,P,ColMajor> b(x); Matrix<Dynamic,3,P> c(x); x(0,0)=s; save(a,o); for(int i=0;i<6;i++) o2[i]=at(b,i)+at(c,i); a(1,1)=s; b(1,1)=s; c(0,1)=s; }); } \
 REF(mofview_##SH)(P(&o)[6],P(&o2)[6],Arr<P,sh::SH<2 MC 3>::N>&p,const P&s){ for(int i=0;i<6;i++){ o[i]=p[sh::SH<2 MC 3>::pos(i/3 MC i%3)]; o2[i]=o[i]+o[i]; } p[sh::SH<2 MC 3>::pos(0 MC 0)]=s; } \
 LIB(mretarget_##SH)(Arr<P,sh::SH<2 MC 3>::N>&p,Arr<P,sh::SH<2 MC 3>::N>&q,P(&w)[6],const P&s){ sh::SH<2,3>::with(p,[&](auto&x){ sh::SH<2,3>::with(q,[&](auto&y){ auto&&vx=x.template slice<0,0,2,3>(); auto&&vy=y.slice(0,0,2,3); auto&&tx=x.T(); vx=vy; vx(0,0)=s; vy(1,1)=s; tx=vy.T(); vx=*reinterpret_cast<Matrix<2,3,P>*>(w); vy=vx; vy(1,2)=s; x[1]=y[0]; }); }); } \
 REF(mretarget_##SH)(Arr<P,sh::SH<2 MC 3>::N>&p,Arr<P,sh::SH<2 MC 3>::N>&q,P(&w)[6],const P&s){ for(int i=0;i<6;i++){ p[sh::SH<2 MC 3>::pos(i/3 MC i%3)]=w[i%3]; q[sh::SH<2 MC 3>::pos(i/3 MC i%3)]=w[i]; } q[sh::SH<2 MC 3>::pos(1 MC 2)]=s; }
OM(MFix) OM(MFixC) OM(MRef) OM(MDyn) OM(MRowDyn) OM(MColDyn) OM(MDynC) OM(MRowDynC) OM(MT) OM(MTD) OM(MSub) OM(MSubD) OM(MSubT) OM(MSubC) OM(MOwn) OM(MOwnC)
