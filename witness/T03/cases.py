# slices that do not lie inside a parent whose size is a constant must not compile; those that do must
TOP='#include <TooN/TooN.h>\nusing namespace TooN;'
PAR={ # name: (declaration, length)
 'fix':('Vector<5> v;',5),'fixf':('Vector<5,float> v;',5),'cfix':('Vector<5> u; const auto&v=u;',5),'ref':('double a[5]; Vector<5,double,Reference> v(a);',5),'cref':('const double a[5]={}; Vector<5,const double,Reference> v(a);',5),
 'sub':('Vector<8> u; auto v=u.slice<2,5>();',5),'subsub':('Vector<9> u; auto w=u.slice<1,7>(); auto v=w.slice<2,5>();',5),'lensub':('Vector<8> u; auto v=u.slice<Dynamic,5>(2,5);',5),'dynsub':('Vector<> u(8); auto v=u.slice<2,5>();',5),
 'row':('Matrix<3,5> m; auto v=m[1];',5),'rowc':('Matrix<3,5,double,ColMajor> m; auto v=m[1];',5),'crow':('Matrix<3,5> m; const auto&k=m; auto v=k[1];',5),'col':('Matrix<5,3> m; auto v=m.T()[1];',5),'diag':('Matrix<5,6> m; auto v=m.diagonal_slice();',5),'diag2':('Matrix<6,5> m; auto v=m.diagonal_slice();',5),'dm':('DiagonalMatrix<5> m; auto v=m.diagonal_slice();',5),'asl':('Vector<5> u; auto v=u.as_slice();',5),'one':('Vector<1> v;',1),'wrap':('double a[5]; auto v=wrapVector<5>(a);',5)}
def sl(a,l): return 'auto x=v.slice<%d,%d>(); static_assert(std::is_same<decltype(x.size()),int>::value,""); (void)x;'%(a,l)
V=[]
for k,(d,n) in PAR.items():
    # the length-only form has a run-time start
    good=[(0,n),(n-1,1),(0,1),(n,0),(0,0)]+([(1,n-1),(1,n-2)] if n>2 else [])
    bad=[(0,n+1),(1,n),(n,1),(n+1,0),(n+1,1),(-1,1),(-1,2),(0,-2),(-2,n),(2147483647,1) if n>1 else (1,1),(n-1,2)]
    V.append((k,d+''.join('{%s}'%sl(a,l) for a,l in good)+'{auto x=v.slice<Dynamic,%d>(0,%d);(void)x;}{auto x=v.slice<0,Dynamic>(0,%d);(void)x;}{auto x=v.slice<%d,Dynamic>(%d,0);(void)x;}'%(n,n,n,n,n),
      [d+sl(a,l) for a,l in bad]+[d+'auto x=v.slice<Dynamic,%d>(0,%d);'%(n+1,n+1),d+'auto x=v.slice<%d,Dynamic>(%d,0);'%(n+1,n+1),d+'auto x=v.slice<1,%d>(1,%d);'%(n,n),d+'auto x=v.slice<-2,Dynamic>(-2,1);',d+'auto x=v.slice<Dynamic,-2>(1,-2);']))
MP={'fix':('Matrix<4,5> m;',4,5),'fixc':('Matrix<4,5,float,ColMajor> m;',4,5),'cfix':('Matrix<4,5> u; const auto&m=u;',4,5),'ref':('double a[20]; Matrix<4,5,double,Reference::RowMajor> m(a);',4,5),'T':('Matrix<5,4> u; auto m=u.T();',4,5),'cT':('const Matrix<5,4> u=Zeros; auto m=u.T();',4,5),'sub':('Matrix<7,8> u; auto m=u.slice<1,2,4,5>();',4,5),'dsub':('Matrix<> u(7,8); auto m=u.slice<1,2,4,5>();',4,5),'lensub':('Matrix<7,8> u; auto m=u.slice<Dynamic,Dynamic,4,5>(1,2,4,5);',4,5),'subT':('Matrix<7,8> u; auto m=u.slice<1,2,5,4>().T();',4,5),'asrow':('Vector<5> u; auto m=u.as_row();',1,5),'ascol':('Vector<4> u; auto m=u.as_col();',4,1)}
def ms(a,b,r,c): return 'auto x=m.slice<%d,%d,%d,%d>(); (void)x;'%(a,b,r,c)
W=[]
for k,(d,R,C) in MP.items():
    good=[(0,0,R,C),(R-1,C-1,1,1),(0,0,1,C),(0,0,R,1)]+([(1,1,R-1,C-1),(1,2,R-2,C-3)] if R>2 and C>3 else [])
    bad=[(0,0,R+1,C),(0,0,R,C+1),(1,0,R,C),(0,1,R,C),(R,0,1,1),(0,C,1,1),(-1,0,1,1),(0,-1,1,1),(0,0,-2,1),(0,0,1,-2),(R+1,0,0,1),(0,C+1,1,0)]
    mix=['auto x=m.slice<0,0,%d,Dynamic>(0,0,%d,1);'%(R+1,R+1),'auto x=m.slice<0,0,Dynamic,%d>(0,0,1,%d);'%(C+1,C+1),'auto x=m.slice<%d,Dynamic,Dynamic,Dynamic>(%d,0,1,1);'%(R+1,R+1),'auto x=m.slice<Dynamic,%d,Dynamic,Dynamic>(0,%d,1,1);'%(C+1,C+1),'auto x=m.slice<1,0,%d,1>(1,0,%d,1);'%(R,R),'auto x=m.slice<0,1,1,%d>(0,1,1,%d);'%(C,C)]
    W.append((k,d+''.join('{%s}'%ms(*q) for q in good)+'{auto x=m.slice<0,0,%d,Dynamic>(0,0,%d,1);(void)x;}{auto x=m.slice<Dynamic,0,Dynamic,%d>(0,0,1,%d);(void)x;}'%(R,R,C,C),[d+ms(*q) for q in bad]+[d+x for x in mix]))
# one size constant, the other run-time: the constant one decides at compile time
H=[('rows','Matrix<4,Dynamic> m(4,5); auto x=m.slice<1,1,3,4>(); auto y=m.slice<0,9,4,1>;'.replace(' auto y=m.slice<0,9,4,1>;','')+'(void)x;',['Matrix<4,Dynamic> m(4,5); auto x=m.slice<0,0,5,1>();','Matrix<4,Dynamic> m(4,5); auto x=m.slice<2,0,3,1>();','Matrix<4,Dynamic> m(4,5); auto x=m.slice<0,-1,1,1>();']),
   ('cols','Matrix<Dynamic,4> m(5,4); auto x=m.slice<1,1,4,3>(); (void)x;',['Matrix<Dynamic,4> m(5,4); auto x=m.slice<0,0,1,5>();','Matrix<Dynamic,4> m(5,4); auto x=m.slice<0,2,1,3>();','Matrix<Dynamic,4> m(5,4); auto x=m.slice<-1,0,1,1>();']),
   ('dyn','Vector<> v(5); auto x=v.slice<1,4>(); (void)x;',['Vector<> v(5); auto x=v.slice<-1,1>();','Vector<> v(5); auto x=v.slice<1,-1>();','Vector<> v(5); auto x=v.slice<1,-2>();'])]
GROUPS=[dict(name='vector',top=TOP,cases=V),dict(name='matrix',top=TOP,cases=W),dict(name='half_static',top=TOP,cases=H)]
