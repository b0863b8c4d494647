// Text output of transformations: the rows of the documented matrix; what was written is read back
// FLAGS: -DNDEBUG
// FLAGS: -DNDEBUG -DPREC=float
#include "groups.h"
#include <iostream>
using namespace gr;
// W: what is written of element i,j; the rows of the matrix without the homogeneous one
#define ROWS(T,rows,cols) \
 LIB(out_##T)(const Arr<P,T::K>&q){ T::Obj g=T::make(q); std::cout<<"a"<<g<<"b"; } \
 REF(out_##T)(const Arr<P,T::K>&q){ P m[T::N*T::N]; T::ref(q,m); std::cout<<"a"; for(int i=0;i<rows;i++){ for(int j=0;j<cols;j++){ if(j) std::cout<<" "; std::cout<<m[i*T::N+j]; } std::cout<<"\n"; } std::cout<<"b"; } \
 LIB(in_##T)(const Arr<P,T::K>&q,P (&o)[T::N*T::N],P&z){ P m[T::N*T::N]; T::ref(q,m); ASSUME(m) for(int i=0;i<rows;i++) for(int j=0;j<cols;j++) vf_feed(m[i*T::N+j]); T::Obj g; std::cin>>g>>z; T::out(g,o); } \
 REF(in_##T)(const Arr<P,T::K>&q,P (&o)[T::N*T::N],P&z){ P m[T::N*T::N]; T::ref(q,m); ASSUME(m) P t; for(int i=0;i<rows;i++) for(int j=0;j<cols;j++) std::cin>>t; std::cin>>z; for(int i=0;i<T::N*T::N;i++) o[i]=m[i]; }
#define ASSUME(m)
ROWS(So2,2,2) ROWS(Se2,2,3) ROWS(So3,3,3) ROWS(Se3,3,4)
#undef ASSUME
#define ASSUME(m) vf_assume(q[T_SC]>0);
#define T_SC 3
ROWS(Sim2,2,3)
#undef T_SC
#define T_SC 7
ROWS(Sim3,3,4)
#define RSL(n) \
 LIB(out_SL##n)(const Arr<P,n*n>&q){ SL<n,P> g=Sl<n>::make(q); std::cout<<"a"<<g<<"b"; } \
 REF(out_SL##n)(const Arr<P,n*n>&q){ std::cout<<"a"; for(int i=0;i<n;i++){ for(int j=0;j<n;j++){ if(j) std::cout<<" "; std::cout<<q[i*n+j]; } std::cout<<"\n"; } std::cout<<"b"; }
RSL(2) RSL(3)
#define ISL(n) \
 LIB(in_SL##n)(P (&o)[n*n]){ SL<n,P> g; std::cin>>g; Sl<n>::out(g,o); } \
 REF(in_SL##n)(P (&o)[n*n]){ Matrix<n,n,P> m; for(int i=0;i<n;i++) for(int j=0;j<n;j++) std::cin>>m(i,j); SL<n,P> g(m); Sl<n>::out(g,o); }
ISL(2) ISL(3)
