# Operations on operands of fixed, incompatible sizes must not compile; with compatible sizes they must
TOP='''#include <TooN/TooN.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/SymEigen.h>
#include <TooN/determinant.h>
#include <TooN/helpers.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/sl.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/functions/derivatives.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <TooN/optimization/downhill_simplex.h>
using namespace TooN;
template<class T> struct no; '''
VK={'own':'Vector<{n}> {v};','ownf':'Vector<{n},float> {v};','con':'const Vector<{n}> {v}=Zeros;','ref':'double {v}_d[{n}]; Vector<{n},double,Reference> {v}({v}_d);','slc':'Vector<{n}+3> {v}_w; auto {v}={v}_w.slice<1,{n}>();','len':'Vector<> {v}_w(99); auto {v}={v}_w.slice<Dynamic,{n}>(1,{n});','row':'Matrix<3,{n}> {v}_m; auto {v}={v}_m[1];','rowc':'Matrix<3,{n},double,ColMajor> {v}_m; auto {v}={v}_m[1];','col':'Matrix<{n},3> {v}_m; auto {v}={v}_m.T()[1];','dia':'Matrix<{n},{n}+1> {v}_m; auto {v}={v}_m.diagonal_slice();','dm':'DiagonalMatrix<{n}> {v}_m; auto {v}={v}_m.diagonal_slice();','drow':'Matrix<Dynamic,{n}> {v}_m(3,{n}); auto {v}={v}_m[1];','exp':'Vector<{n}> {v}_1,{v}_2; auto {v}={v}_1+{v}_2;','mv':'Matrix<{n},2> {v}_1; Vector<2> {v}_2; auto {v}={v}_1*{v}_2;'}
RO={'con'}
MKD={'own':'Matrix<{r},{c}> {v};','ownf':'Matrix<{r},{c},float> {v};','cm':'Matrix<{r},{c},double,ColMajor> {v};','con':'const Matrix<{r},{c}> {v}=Zeros;','ref':'double {v}_d[{r}*{c}]; Matrix<{r},{c},double,Reference::RowMajor> {v}({v}_d);','T':'Matrix<{c},{r}> {v}_m; auto {v}={v}_m.T();','sub':'Matrix<{r}+2,{c}+3> {v}_m; auto {v}={v}_m.slice<1,2,{r},{c}>();','dsub':'Matrix<> {v}_m(99,99); auto {v}={v}_m.slice<1,2,{r},{c}>();','subT':'Matrix<{c}+2,{r}+3> {v}_m; auto {v}={v}_m.slice<1,2,{c},{r}>().T();','exp':'Matrix<{r},{c}> {v}_1,{v}_2; auto {v}={v}_1-{v}_2;','prod':'Matrix<{r},2> {v}_1; Matrix<2,{c}> {v}_2; auto {v}={v}_1*{v}_2;','half':'Matrix<{r},Dynamic> {v}({r},{c});','half2':'Matrix<Dynamic,{c},double,ColMajor> {v}({r},{c});'}
def v(k,n,nm): return VK[k].format(n=n,v=nm)
def m(k,r,c,nm): return MKD[k].format(r=r,c=c,v=nm)
# pairwise vector operations on equal sizes; the flag says that the left operand is written
VOP={'asg':('a=b;',1),'pe':('a+=b;',1),'me':('a-=b;',1),'add':('auto x=a+b;',0),'sub':('auto x=a-b;',0),'dot':('auto x=a*b;',0),'eq':('bool x=a==b;',0),'ne':('bool x=a!=b;',0),'dm':('auto x=diagmult(a,b);',0),'asd':('auto x=a.as_diagonal()*b;',0),'asdr':('auto x=a*b.as_diagonal();',0),'chain':('auto x=(a+a)-(b+b);',0),'neg':('auto x=a+(-b);',0),'scl':('auto x=2*a-b/3;',0)}
MOP={'asg':('a=b;',1),'pe':('a+=b;',1),'me':('a-=b;',1),'add':('auto x=a+b;',0),'sub':('auto x=a-b;',0),'eq':('bool x=a==b;',0),'ne':('bool x=a!=b;',0),'chain':('auto x=2*a+(-b);',0)}
def ok(nm,n): return nm
PV=[]
def vv(name,op,ka,kb,n=3,bad=((3,4),(4,3))):
    PV.append((name,v(ka,n,'a')+v(kb,n,'b')+op,[v(ka,p,'a')+v(kb,q,'b')+op for p,q in bad]))
for o,(op,w) in VOP.items():
    seen=set()
    for k in VK:
        for ka,kb in ((k,'own'),('own',k)):
            if (ka,kb) in seen or (w and ka in RO): continue
            seen.add((ka,kb)); vv('%s_%s_%s'%(o,ka,kb),op,ka,kb)
    for n,bad in ((1,((1,2),(2,1))),(2,((2,1),(2,3))),(7,((7,6),(7,70)))): vv('%s_n%d'%(o,n),op,'own','own',n,bad)
PM=[]
def half(k): return k in('half','half2')
def mm(name,op,ka,kb,shape,bads): PM.append((name,m(ka,*shape[0],'a')+m(kb,*shape[1],'b')+op,[m(ka,*x,'a')+m(kb,*y,'b')+op for x,y in bads]))
def diffs(ka,kb):
    out=[]
    if ka!='half2' and kb!='half2': out+=[((2,3),(3,3)),((4,3),(2,3))]
    if ka!='half' and kb!='half': out+=[((2,3),(2,4)),((2,5),(2,3))]
    if not half(ka) and not half(kb): out.append(((2,3),(3,2)))
    return out
for o,(op,w) in MOP.items():
    seen=set()
    for k in MKD:
        for ka,kb in ((k,'own'),('own',k),(k,k)):
            if (ka,kb) in seen or (w and ka in RO): continue
            seen.add((ka,kb)); mm('%s_%s_%s'%(o,ka,kb),op,ka,kb,((2,3),(2,3)),diffs(ka,kb))
seen=set()
for k in MKD:
    for ka,kb in ((k,'own'),('own',k),(k,'T'),('cm',k)):
        if (ka,kb) in seen or ka=='half' or kb=='half2': continue
        seen.add((ka,kb)); mm('prod_%s_%s'%(ka,kb),'auto x=a*b;',ka,kb,((2,3),(3,4)),[((2,3),(2,3)),((2,4),(3,4))])
PMV=[]
for o,op,right in (('mv','auto x=a*b;',1),('vm','auto x=b*a;',0),('dmv','auto x=diagmult(a,b);',1),('vdm','auto x=diagmult(b,a);',0),('mD','auto x=a*b.as_diagonal();',1),('Dm','auto x=b.as_diagonal()*a;',0)):
    for k in MKD:
        if k==('half' if right else 'half2'): continue
        n=3 if right else 2; PMV.append(('%s_%s'%(o,k),m(k,2,3,'a')+v('own',n,'b')+op,[m(k,2,3,'a')+v('own',x,'b')+op for x in (5-n,1,4)]))
    for k in VK:
        n=3 if right else 2; PMV.append(('%s_v%s'%(o,k),m('own',2,3,'a')+v(k,n,'b')+op,[m('own',2,3,'a')+v(k,x,'b')+op for x in (5-n,4)]))
S=[] # single cases: name, template with {} fields, good, bads
def s(name,t,good,*bad): S.append((name,t%good,[t%b for b in bad]))
# construction and conversion
for kb in VK: s('cv_'+kb,'%s Vector<3> x(b); '%v(kb,99,'b').replace('99','%d'),(3,)*v(kb,99,'b').count('99'),(2,)*v(kb,99,'b').count('99'),(4,)*v(kb,99,'b').count('99')) if kb not in('len',) else None
s('cv_len','Vector<> w(99); auto b=w.slice<Dynamic,%d>(1,%d); Vector<3> x(b);',(3,3),(2,2),(4,4))
for kb in MKD:
    if half(kb): continue
    f=lambda r,c: m(kb,r,c,'b')
    for nm,d in (('r','Matrix<2,3> x(b);'),('c','Matrix<2,3,double,ColMajor> x(b);'),('h','Matrix<2,Dynamic> x(b);'),('k','Matrix<Dynamic,3> x(b);')):
        bad=([(3,3)] if nm!='k' else [])+([(2,4)] if nm!='h' else [])+([(3,2)])
        S.append(('cm_%s_%s'%(nm,kb),f(2,3)+d,[f(*b)+d for b in bad]))
for t in ('Vector<%d> a; Vector<3> b; b=a+a;','Vector<%d> a; Vector<3> b(a+a);','Vector<%d> a; Vector<3> b=2*a;','Vector<%d> a; Vector<3> b=-a;','Vector<%d> a; Vector<6> b; b.slice<1,3>()=a;','Vector<%d> a; Matrix<4,3> b; b[1]=a;','Vector<%d> a; Matrix<3,4> b; b.T()[1]=a;','Vector<%d> a; Matrix<3> b; b.diagonal_slice()=a;','Vector<%d> a; DiagonalMatrix<3> b; b.diagonal_slice()=a;','Vector<%d> a; DiagonalMatrix<3> b(a);','Vector<%d> a; DiagonalMatrix<3> b; b.diagonal_slice()+=a;','Matrix<%d,2> a; Vector<2> c; Vector<3> b=a*c;','Matrix<2,%d> a; Vector<2> c; Vector<3> b=c*a;','Vector<%d> a; Vector<3> b; auto x=a^b;','Vector<%d> a; Vector<3> b; auto x=b^a;','Vector<%d> a; auto x=cross_product_matrix(a);','Vector<%d> a; Matrix<1,3> b; b=a.as_row();','Vector<%d> a; Matrix<3,1> b; b=a.as_col();','Vector<%d> a; Matrix<2,3> b; auto x=b*a.as_col();','Vector<%d> a; Matrix<3,2> b; auto x=a.as_row()*b;','Vector<%d> a; DiagonalMatrix<3> d; auto x=d*a;','Vector<%d> a; DiagonalMatrix<3> d; auto x=a*d;','DiagonalMatrix<%d> a; Matrix<3,2> b; auto x=a*b;','DiagonalMatrix<%d> a; Matrix<2,3> b; auto x=b*a;','DiagonalMatrix<%d> a; DiagonalMatrix<3> b; auto x=a*b;','Matrix<%d,3> a; Matrix<3> b; a*=b;'): 
    if 'a*=b' in t: continue
    n=len([1 for q in S if q[0].startswith('st')]); s('st%d'%n,t,3,2,4,1)
# square only
for nm,t in (('id','Matrix<%d,%d> a; a=Identity;'),('idc','Matrix<%d,%d> a=Identity;'),('ids','Matrix<%d,%d> a; a=3*Identity;'),('pid','Matrix<%d,%d> a; a+=Identity;'),('mid','Matrix<%d,%d> a; a-=Identity;'),('aid','Matrix<%d,%d> a; auto x=a+Identity;'),('ida','Matrix<%d,%d> a; auto x=Identity-a;'),('idsz','Matrix<%d,%d,double,ColMajor> a; a=Identity*2;'),('tr','Matrix<%d,%d> a; double x=trace(a);'),('sy','Matrix<%d,%d> a; Symmetrize(a);'),('det','Matrix<%d,%d> a; double x=determinant(a);'),('detg','Matrix<%d,%d> a; double x=determinant_gaussian_elimination(a);'),('exp','Matrix<%d,%d> a; auto x=exp(a);'),('log','Matrix<%d,%d> a; auto x=log(a);'),('sqrt','Matrix<%d,%d> a; auto x=sqrt(a);'),
  ('lu','Matrix<%d,%d> a; LU<3> x(a);'),('ch','Matrix<%d,%d> a; Cholesky<3> x(a);'),('lch','Matrix<%d,%d> a; Lapack_Cholesky<3> x(a);'),('sye','Matrix<%d,%d> a; SymEigen<3> x(a);'),('chc','Matrix<%d,%d> a; Cholesky<3> x; x.compute(a);'),('luc','Matrix<%d,%d> a,b; Matrix<3> c; LU<3> x(c); x.compute(a);'),('ge','Matrix<%d,%d> a; Vector<3> b; auto x=gaussian_elimination(a,b);'),('gem','Matrix<%d,%d> a; Matrix<3,2> b; auto x=gaussian_elimination(a,b);'),('pri','Matrix<%d,%d> a; WLS<3> w; w.add_prior(a);'),('so3','Matrix<%d,%d> a; SO3<> x(a);'),('so2','Matrix<%d,%d> a; no<int>*q=0; SL<3> x(a);'),('sl','Matrix<%d,%d> a; SL<3> x; x=a;'),('sec','Matrix<%d,%d> a; Matrix<3> c; SymEigen<3> x(c); x.compute(a);')):
    s('sq_'+nm,t,(3,3),(3,4),(2,3))
    if nm not in('tr','sy','det','detg','detl','exp','log','sqrt','id','idc','ids','pid','mid','aid','ida','idsz'): s('sz_'+nm,t,(3,3),(4,4),(2,2))
# right hand sides
for nm,d in (('lu','Matrix<3> A; LU<3> s(A);'),('ch','Matrix<3> A; Cholesky<3> s(A);'),('lch','Matrix<3> A; Lapack_Cholesky<3> s(A);'),('se','Matrix<3> A; SymEigen<3> s(A);'),('se4','Matrix<4> A; SymEigen<4> s(A);'),('svd','Matrix<3> A; SVD<3> s(A);')):
    n=4 if nm=='se4' else 3
    s('rv_'+nm,d+'Vector<%d> b; auto x=s.backsub(b);',n,n-1,n+1); s('rm_'+nm,d+'Matrix<%d,2> b; auto x=s.backsub(b);',n,n-1,n+1)
s('rv_svdt','Matrix<5,3> A; SVD<5,3> s(A); Vector<%d> b; auto x=s.backsub(b);',5,3,4); s('rm_svdt','Matrix<5,3> A; SVD<5,3> s(A); Matrix<%d,2> b; auto x=s.backsub(b);',5,3,4); s('rv_svdw','Matrix<3,5> A; SVD<3,5> s(A); Vector<%d> b; auto x=s.backsub(b);',3,5,4)
s('c_svd','Matrix<%d,%d> A; SVD<5,3> s(A);',(5,3),(3,5),(4,3),(5,4)); s('c_svdc','Matrix<%d,%d> A; SVD<5,3> s; s.compute(A);',(5,3),(3,5),(4,3)); s('c_gr','Matrix<%d,%d> A; GR_SVD<5,3> s(A);',(5,3),(3,5),(4,3)); s('rv_gr','Matrix<5,3> A; GR_SVD<5,3> s(A); Vector<%d> b; auto x=s.backsub(b);',5,3,4); s('rm_gr','Matrix<5,3> A; GR_SVD<5,3> s(A); Matrix<%d,2> b; auto x=s.backsub(b);',5,3,4)
s('c_qr','Matrix<%d,%d> A; QR<5,3> s(A);',(5,3),(3,5),(4,3)); s('c_qrl','Matrix<%d,%d> A; QR_Lapack<5,3> s(A);',(5,3),(3,5),(4,3))
s('se2v','SE2<> a; Vector<%d> x; auto y=a*x;',2,1,4); s('se3v','SE3<> a; Vector<%d> x; auto y=a*x;',3,2,5); s('ge','Matrix<3> A; Vector<%d> b; auto x=gaussian_elimination(A,b);',3,2,4); s('gem','Matrix<3> A; Matrix<%d,2> b; auto x=gaussian_elimination(A,b);',3,2,4); s('mah','Matrix<3> A; Cholesky<3> s(A); Vector<%d> b; double x=s.mahalanobis(b);',3,2,4)
# estimators
s('w1','WLS<4> w; Vector<%d> j; w.add_mJ(1.,j);',4,3,5); s('w1w','WLS<4> w; Vector<%d> j; w.add_mJ(1.,j,2.);',4,3,5); s('wm','WLS<4> w; Vector<%d> z; Matrix<%d,%d> J; Matrix<%d,%d> C; w.add_mJ(z,J,C);',(2,4,2,2,2),(3,4,2,2,2),(2,3,2,2,2),(2,4,3,2,2),(2,4,2,3,3),(2,4,2,2,3)); s('wr','WLS<4> w; Vector<%d> z; Matrix<%d,%d> J; Matrix<%d,%d> C; w.add_mJ_rows(z,J,C);',(2,2,4,2,2),(3,2,4,2,2),(2,2,3,2,2),(2,3,4,2,2),(2,2,4,3,3)); s('wp','WLS<4> w; Vector<%d> j; w.add_prior(j);',4,3,5); s('wpe','WLS<4> w; WLS<%d> x; w+=x;',4,3,5)
s('wsr','WLS<4> w; Vector<%d> z; Matrix<%d,%d> J; Matrix<%d,%d> C; w.add_sparse_mJ_rows(z,J,1,C);',(2,2,3,2,2),(3,2,3,2,2),(2,2,3,3,3))
s('ir','IRLS<4,double,RobustI> w; Vector<%d> j; w.add_mJ(1.,j);',4,3,5); s('ipe','IRLS<4,double,RobustI> w; IRLS<%d,double,RobustI> x; w+=x;',4,3,5)
# transformations
for nm,t,n in (('so2v','SO2<> a; Vector<%d> x; auto y=a*x;',2),('so2w','SO2<> a; Vector<%d> x; auto y=x*a;',2),('so3v','SO3<> a; Vector<%d> x; auto y=a*x;',3),('so3w','SO3<> a; Vector<%d> x; auto y=x*a;',3),('se2w','SE2<> a; Vector<%d> x; auto y=x*a;',3),('se3w','SE3<> a; Vector<%d> x; auto y=x*a;',4),('sim2w','SIM2<> a; Vector<%d> x; auto y=x*a;',3),('sim3w','SIM3<> a; Vector<%d> x; auto y=x*a;',4),('slv','SL<4> a; Vector<%d> x; auto y=a*x;',4),('slw','SL<4> a; Vector<%d> x; auto y=x*a;',4),('so3e','Vector<%d> x; SO3<> a(x);',3),('so3x','Vector<%d> x; auto a=SO3<>::exp(x);',3),('se3x','Vector<%d> x; auto a=SE3<>::exp(x);',6),('se2x','Vector<%d> x; auto a=SE2<>::exp(x);',3),('s2x','Vector<%d> x; auto a=SIM2<>::exp(x);',4),('s3x','Vector<%d> x; auto a=SIM3<>::exp(x);',7),('se3c','Vector<%d> x; SE3<> a(x);',6),('se2c','Vector<%d> x; SE2<> a(x);',3),('slx','Vector<%d> x; auto a=SL<3>::exp(x);',8),('ad','SE3<> a; Vector<%d> x; auto y=a.adjoint(x);',6),('tad','SE3<> a; Vector<%d> x; auto y=a.trinvadjoint(x);',6),('ad2','SE2<> a; Vector<%d> x; auto y=a.adjoint(x);',3),('ad3','SO3<> a; Vector<%d> x; auto y=a.adjoint(x);',3),('gf','Vector<%d> x; auto y=SO3<>::generator_field(0,x);',3),('gfe','Vector<%d> x; auto y=SE3<>::generator_field(0,x);',4),('so3n','Vector<%d> x; Vector<3> y; SO3<> a(x,y);',3),('se2t','Vector<%d> x; SE2<> a(SO2<>(),x);',2),('se3t','Vector<%d> x; SE3<> a(SO3<>(),x);',3),('ssq','SE3<> a; Matrix<%d> x; auto y=a.adjoint(x);',6),('ssq2','SE2<> a; Matrix<%d> x; auto y=a.adjoint(x);',3)):
    s('g_'+nm,t,n,n-1,n+1)
for nm,t,n in (('so2l','SO2<> a; Matrix<%d,5> x; auto y=a*x;',2),('so2r','SO2<> a; Matrix<5,%d> x; auto y=x*a;',2),('so3l','SO3<> a; Matrix<%d,5> x; auto y=a*x;',3),('so3r','SO3<> a; Matrix<5,%d> x; auto y=x*a;',3),('se2l','SE2<> a; Matrix<%d,5> x; auto y=a*x;',3),('se2r','SE2<> a; Matrix<5,%d> x; auto y=x*a;',3),('se3l','SE3<> a; Matrix<%d,5> x; auto y=a*x;',4),('se3r','SE3<> a; Matrix<5,%d> x; auto y=x*a;',4),('sim2l','SIM2<> a; Matrix<%d,5> x; auto y=a*x;',3),('sim2r','SIM2<> a; Matrix<5,%d> x; auto y=x*a;',3),('sim3l','SIM3<> a; Matrix<%d,5> x; auto y=a*x;',4),('sim3r','SIM3<> a; Matrix<5,%d> x; auto y=x*a;',4),('sll','SL<4> a; Matrix<%d,5> x; auto y=a*x;',4),('slr','SL<4> a; Matrix<5,%d> x; auto y=x*a;',4)):
    s('g_'+nm,t,n,n-1,n+1)
# helpers
s('prj','Vector<%d> x; Vector<3> y=project(x);',4,3,5); s('unp','Vector<%d> x; Vector<4> y=unproject(x);',3,4,2); s('prm','Matrix<%d,2> x; Matrix<3,2> y=project(x);',4,3,5); s('hv','Matrix<%d,3> x; Vector<3> y; y=x*y;',3,2,4); s('cov','Vector<%d> x; Matrix<3,2> y; y=x.as_col()*Vector<2>(Zeros).as_row();',3,2,4); s('rss','Matrix<%d,3> a; Matrix<3> b; b=a.T()*a*b.T()*a.T()*a;',2)if 0 else None
s('trp','Matrix<%d,3> a; Matrix<3,2> b; a.T()=b;',2,3,4); s('trs','Matrix<%d,3> a; Matrix<3,2> b=a.T();',2,3,4); s('rowr','Matrix<%d,4> a; Matrix<3,4> b; b.T()[0]=a.T()[1];',3,2,4); s('rowmul','Matrix<%d,4> a; Matrix<3,4> b; double x=b.T()[0]*a.T()[1];',3,2,4)
s('swv','Vector<%d> a; Vector<3> b; swap(a,b);',3,2,4) if 0 else None
s('rsz','Vector<Resizable> a(3); Vector<%d> b; Vector<3> c; c=b+a;',3,2,4); s('dynm','Matrix<> a(3,3); Matrix<%d,3> b; Matrix<3> c; c=b-a;',3,2,4)
s('chi','Vector<%d> a; Vector<> b(3); Vector<3> c=a-b;',3,2,4); s('chi2','Matrix<2,%d> a; Matrix<> b(3,2); Matrix<2> c; c=a*b; Matrix<3,2> d; c=a*d;',3,2,4)
# operations that need one particular size, with every operand of the same other size
s('both_crs','Vector<%d> a,b; auto x=a^b;',3,2,4,1,5); s('both_crsd','Vector<%d> a; Matrix<%d> b; auto x=a^b[0];',(3,3),(2,2),(4,4)); s('both_crss','Matrix<%d,%d> a; auto x=a.T()[0]^a.T()[1];',(3,4),(4,3),(2,2)); s('both_crsf','Vector<%d,float> a; Vector<%d> b; auto x=a^b;',(3,3),(4,4),(2,2))
s('both_so3','Vector<%d> a,b; SO3<> x(a,b);',3,2,4); s('both_so3m','Matrix<%d> a; SO3<> x(a);',3,2,4); s('both_so3a','Matrix<%d> a; SO3<> x; x=a;',3,2,4); s('both_so2m','Matrix<%d> a; SO2<> x(a);',2,3,1); s('both_slm','Matrix<%d> a; SL<3> x(a);',3,2,4)
s('both_inv','Matrix<%d> a; auto x=inv(a);',2,3,1); s('both_se3','Vector<%d> t; SE3<> x(SO3<>(),t);',3,2,4); s('both_se2','Vector<%d> t; SE2<> x(SO2<>(),t);',2,3,1); s('both_sim3','Vector<%d> t; SIM3<> x(SO3<>(),t,1.);',3,2,4); s('both_sim2','Vector<%d> t; SIM2<> x(SO2<>(),t,1.);',2,3,1)
s('both_gf','Vector<%d> t; auto x=SE3<>::generator_field(1,t);',4,3,5); s('both_gfs','Vector<%d> t; auto x=SIM3<>::generator_field(1,t);',4,3,5); s('both_gf3','Vector<%d> t; auto x=SO3<>::generator_field(1,t);',3,2,4)
for nm,T,n in (('so3','SO3<>',3),('se2','SE2<>',3),('se3','SE3<>',6),('sim2','SIM2<>',4),('sim3','SIM3<>',7),('sl3','SL<3>',8)): s('both_exp_'+nm,'Vector<%d> t; auto x='+T+'::exp(t);',n,n-1,n+1)
for nm,T,n in (('so3','SO3<>',3),('se3','SE3<>',6),('sim3','SIM3<>',7)): s('both_exc_'+nm,'Vector<%d> t; '+T+' x(t);',n,n-1,n+1)
for nm,f in (('ad','adjoint'),('tr','trinvadjoint')):
    for T,n in (('SE3<>',6),('SIM3<>',7)): s('both_%s_m%d'%(nm,n),'Matrix<%d,%d> t; '+T+' g; auto x=g.'+f+'(t);',(n,n),(n-1,n-1),(n+1,n+1),(n,n-1),(n-1,n)); s('both_%s_v%d'%(nm,n),'Vector<%d> t; '+T+' g; auto x=g.'+f+'(t);',n,n-1,n+1)
s('both_ade2','Matrix<%d,%d> t; SE2<> g; auto x=g.adjoint(t);',(3,3),(2,2),(4,4),(3,4),(4,3)); s('both_adv2','Vector<%d> t; SE2<> g; auto x=g.adjoint(t);',3,2,4)
BASIC='#include <TooN/TooN.h>\nusing namespace TooN;\n'
GROUPS=[dict(name='vectors',top=BASIC,cases=PV),dict(name='matrices',top=BASIC,cases=PM),dict(name='mixed',top=BASIC,cases=PMV),dict(name='single',top=TOP,cases=S)]
