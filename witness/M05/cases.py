TOP='#include <TooN/TooN.h>\nusing namespace TooN;'
def c(n,decl): return (n, 'Vector<Resizable> v(3); v.resize(4); (void)v;', [decl+' v.resize(4);'])
GROUPS=[dict(name='only_resizable',top=TOP,cases=[
 c('fixed','Vector<3> v;'), c('dynamic','Vector<> v(3);'), c('view','Vector<5> u; Vector<3,double,Reference> v(&u[0]);'), c('sub','Vector<Resizable> u(5); auto v=u.slice(0,3);'), c('substat','Vector<Resizable> u(5); auto v=u.slice<0,3>();'), c('constv','const Vector<Resizable> v(3);'), c('row','Matrix<> m(3,3); auto v=m[0];'),c('col','Matrix<3> m; auto v=m.T()[0];'),c('dg','Matrix<3> m; auto v=m.diagonal_slice();'),
 ('mat','Vector<Resizable> v; v.resize(2);',['Matrix<> m(2,2); m.resize(3,3);','Matrix<2> m; m.resize(3,3);']),
])]
