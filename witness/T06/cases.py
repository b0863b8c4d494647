# Writing through anything obtained from a read-only object must not compile; on a modifiable object it must
TOP='''#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/SymEigen.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/sl.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <utility>
#include <sstream>
using namespace TooN;
'''
# element lvalues and vector / matrix lvalues obtained from a vector v of 3
VE={'idx':'v[0]','sl':'v.slice<0,2>()[0]','sd':'v.slice(0,2)[1]','sm':'v.slice<0,2>(0,2)[1]','sm2':'v.slice<Dynamic,2>(1,2)[1]','row':'v.as_row()[0][1]','rowp':'v.as_row()(0,1)','rowq':'v.as_row()[std::make_pair(0,1)]','col':'v.as_col()[1][0]','colp':'v.as_col()(1,0)','as':'v.as_slice()[0]','dg':'v.as_diagonal()[0]','dgs':'v.as_diagonal().diagonal_slice()[0]','ref':'v.ref()[0]','ss':'v.slice(0,3).slice<0,2>()[0]','ssd':'v.slice<0,3>().slice(0,2)[0]','rt':'v.as_row().T()[0][0]','ct':'v.as_col().T()(0,0)','rs':'v.as_row().slice<0,0,1,2>()(0,1)','cs':'v.as_col().slice(0,0,2,1)(0,0)','rd':'v.as_row().diagonal_slice()[0]','ra':'v.as_slice().ref()[0]','rr':'v.as_row().ref()(0,0)','dat':'v.data()[0]'}
VL={'v':'v','sl':'v.slice<0,3>()','sd':'v.slice(0,3)','sm':'v.slice<0,Dynamic>(0,3)','row':'v.as_row()[0]','col':'v.as_col().T()[0]','as':'v.as_slice()','ref':'v.ref()','ss':'v.slice(0,3).slice(0,3)','dgs':'v.as_diagonal().diagonal_slice()'}
VM={'row':'v.as_row()','colT':'v.as_col().T()','rs':'v.as_row().slice<0,0,1,3>()','rsd':'v.as_row().slice(0,0,1,3)','rr':'v.as_row().ref()'}
def elem(pt): return {'set':'{e}=1;','inc':'{e}+=1;','bind':pt+'& r={e}; (void)r;','ptr':pt+'* r=&{e}; (void)r;'}
VW={'asg':'{e}=w;','zero':'{e}=Zeros;','ones':'{e}=Ones*3;','pe':'{e}+=w;','me':'{e}-=w;','sc':'{e}*=2;','di':'{e}/=2;','po':'{e}+=Ones;','expr':'{e}=w+w;'}
VC={'loc':'auto x={e}; x[0]=1;','locw':'auto x={e}; x=w;','loce':'auto x={e}; x+=w;','locs':'auto x={e}; x.slice<0,2>()[0]=1;'}
MW={'asg':'{e}=w;','zero':'{e}=Zeros;','pe':'{e}+=w;','me':'{e}-=w;','sc':'{e}*=2;','di':'{e}/=2;','expr':'{e}=w+w;'}
MC={'loc':'auto x={e}; x(0,0)=1;','locr':'auto x={e}; x[0][0]=1;','locw':'auto x={e}; x=w;','locT':'auto x={e}; x.T()[0][0]=1;'}
# modifiable declaration, read-only declaration, element type, own storage?
VS={'fix':('Vector<3> u; auto&v=u;','Vector<3> u; const auto&v=u;','double'),'fixf':('Vector<3,float> v;','const Vector<3,float> v=Zeros;','float'),'dyn':('Vector<> v(3);','Vector<> u(3); const auto&v=u;','double'),'rsz':('Vector<Resizable> v(3);','Vector<Resizable> u(3); const auto&v=u;','double'),'ref':('double d[3]; Vector<3,double,Reference> v(d);','double d[3]; const Vector<3,double,Reference> v(d);','double'),'cref':('double d[3]; Vector<3,double,Reference> v(d);','const double d[3]={}; Vector<3,const double,Reference> v(d);','double'),'cdref':('double d[3]; Vector<Dynamic,double,Reference> v(d,3);','const double d[3]={}; Vector<Dynamic,const double,Reference> v(d,3);','double'),'wrap':('double d[3]; auto v=wrapVector<3>(d);','const double d[3]={}; auto v=wrapVector<3>(d);','double'),'wrapd':('float d[3]; auto v=wrapVector(d,3);','const float d[3]={}; auto v=wrapVector(d,3);','float'),'mrow':('Matrix<2,3> m; auto v=m[1];','Matrix<2,3> u; const auto&m=u; auto v=m[1];','double'),'sub':('Vector<5> u; auto v=u.slice<1,3>();','Vector<5> q; const auto&u=q; auto v=u.slice<1,3>();','double'),'csub':('Vector<5> u; auto v=u.slice(1,3);','Vector<5> u; const auto v=u.slice(1,3);','double')}
VIEW={'ref','cref','cdref','wrap','wrapd','mrow','sub','csub'}
A=[]
quick=(TIER=='quick')
for k,(mod,ro,pt) in VS.items():
    full=k in('fix','dyn','cref','sub','mrow') or not quick
    def add(nm,pre,code): A.append(('%s_%s'%(k,nm),mod+pre+code,[ro+pre+code]))
    for a,e in VE.items():
        if a=='dat': continue
        for o,t in elem(pt).items():
            if full or o in('set','bind'): add('e_%s_%s'%(a,o),'',t.format(e=e))
    w='Vector<3,%s> w=Zeros;'%pt
    for a,e in VL.items():
        for o,t in VW.items():
            if full or o in('asg','pe','sc'): add('l_%s_%s'%(a,o),w,t.format(e=e))
        if a=='v' : continue
        for o,t in VC.items():
            if full or o=='loc': add('c_%s_%s'%(a,o),w,t.format(e=e))
    w='Matrix<1,3,%s> w=Zeros;'%pt
    for a,e in VM.items():
        for o,t in MW.items():
            if full or o in('asg',): add('m_%s_%s'%(a,o),w,t.format(e=e))
        for o,t in MC.items(): 
            if full or o=='loc': add('mc_%s_%s'%(a,o),w,t.format(e=e))
    if k not in VIEW: add('ptr','','%s*p=v.get_data_ptr(); (void)p;'%pt); add('fill','','Fill(v)=1,2,3;'); add('assign','','Vector<3> q=Zeros; v=q;')
    if k=='rsz': add('resize','','v.resize(4);')
ME={'idx':'m[0][1]','par':'m(0,1)','pr':'m[std::make_pair(0,1)]','T':'m.T()[0][1]','Tp':'m.T()(0,1)','sl':'m.slice<0,1,2,2>()(0,1)','sd':'m.slice(0,1,2,2)[0][1]','sm':'m.slice<0,Dynamic,Dynamic,2>(0,1,2,2)(0,0)','dg':'m.diagonal_slice()[0]','ref':'m.ref()(0,0)','TT':'m.T().T()[0][0]','sT':'m.slice(0,0,2,2).T()(0,1)','Ts':'m.T().slice<0,0,2,2>()(0,1)','Td':'m.T().diagonal_slice()[0]','rs':'m[1].slice<0,2>()[0]','rr':'m[1].as_row()(0,0)','cs':'m.T()[1].slice(0,2)[0]','ds':'m.diagonal_slice().slice(0,1)[0]','dm':'m.diagonal_slice().as_diagonal()[0]'}
ML={'m':'m','sl':'m.slice<0,0,2,3>()','sd':'m.slice(0,0,2,3)','TT':'m.T().T()','ref':'m.ref()','ss':'m.slice(0,0,2,3).slice<0,0,2,3>()'}
MV={'row':'m[1]','sub':'m.slice<0,0,2,3>()[0]','col':'m.T().T()[1]','rs':'m[1].slice<0,3>()','rsd':'m[1].slice(0,3)','dg':'m.slice(0,0,2,2).diagonal_slice()'}
MS={'fix':('Matrix<2,3> u; auto&m=u;','Matrix<2,3> u; const auto&m=u;','double'),'cm':('Matrix<2,3,float,ColMajor> m;','const Matrix<2,3,float,ColMajor> m=Zeros;','float'),'dyn':('Matrix<> m(2,3);','Matrix<> u(2,3); const auto&m=u;','double'),'ref':('double d[6]; Matrix<2,3,double,Reference::RowMajor> m(d);','double d[6]; const Matrix<2,3,double,Reference::RowMajor> m(d);','double'),'cref':('double d[6]; Matrix<2,3,double,Reference::ColMajor> m(d);','const double d[6]={}; Matrix<2,3,const double,Reference::ColMajor> m(d);','double'),'wrap':('double d[6]; auto m=wrapMatrix<2,3>(d);','const double d[6]={}; auto m=wrapMatrix<2,3>(d);','double'),'wrapd':('double d[6]; auto m=wrapMatrix(d,2,3);','const double d[6]={}; auto m=wrapMatrix(d,2,3);','double'),'T':('Matrix<3,2> u; auto m=u.T();','Matrix<3,2> q; const auto&u=q; auto m=u.T();','double'),'sub':('Matrix<5> u; auto m=u.slice<1,1,2,3>();','Matrix<5> q; const auto&u=q; auto m=u.slice<1,1,2,3>();','double'),'csub':('Matrix<5> u; auto m=u.slice(1,1,2,3);','Matrix<5> u; const auto m=u.slice(1,1,2,3);','double')}
B=[]
for k,(mod,ro,pt) in MS.items():
    full=k in('fix','dyn','cref','sub') or not quick
    def add(nm,pre,code): B.append(('%s_%s'%(k,nm),mod+pre+code,[ro+pre+code]))
    for a,e in ME.items():
        for o,t in elem(pt).items():
            if full or o in('set','bind'): add('e_%s_%s'%(a,o),'',t.format(e=e))
    w='Matrix<2,3,%s> w=Zeros;'%pt
    for a,e in ML.items():
        for o,t in MW.items():
            if full or o in('asg','pe','sc'): add('l_%s_%s'%(a,o),w,t.format(e=e))
        if a=='m': continue
        for o,t in MC.items():
            if full or o=='loc': add('c_%s_%s'%(a,o),w,t.format(e=e))
    for a,e in MV.items():
        w='Vector<%d,%s> w=Zeros;'%(2 if a=='dg' else 3,pt)
        for o,t in VW.items():
            if full or o in('asg','pe','sc'): add('v_%s_%s'%(a,o),w,t.format(e=e))
        for o,t in VC.items():
            if full or o=='loc': add('vc_%s_%s'%(a,o),w,t.format(e=e))
    if k in('fix','cm','dyn'): add('ptr','','%s*p=m.get_data_ptr(); (void)p;'%pt); add('fill','','Fill(m)=1,2,3,4,5,6;')
    if k!='fix' : add('sq','','m.slice(0,0,2,2)=Identity;')
# diagonal matrices
D=[]
for k,mod,ro in (('fix','DiagonalMatrix<3> m;','DiagonalMatrix<3> u; const auto&m=u;'),('dyn','DiagonalMatrix<> m(3);','DiagonalMatrix<> u(3); const auto&m=u;'),('vec','Vector<3> v; auto m=v.as_diagonal();','const Vector<3> v=Zeros; auto m=v.as_diagonal();'),('cvec','Vector<3> v; auto m=v.as_diagonal();','Vector<3> v; const auto m=v.as_diagonal();')):
    for nm,c in (('idx','m[0]=1;'),('bind','double&r=m[0];'),('ds','m.diagonal_slice()[0]=1;'),('dl','m.diagonal_slice()=makeVector(1,2,3);'),('dp','m.diagonal_slice()*=2;'),('dss','m.diagonal_slice().slice<0,2>()[0]=1;'),('loc','auto x=m.diagonal_slice(); x[0]=1;'),('mv','m.my_vector[0]=1;')): D.append(('%s_%s'%(k,nm),mod+c,[ro+c]))
# transformations
def const(decl,var): return decl, decl.replace(var+';','%s_;'%var,1)+' const auto&%s=%s_;'%(var,var)
G=[]
GR={'se2':('SE2<>','SO2<>()',2),'se3':('SE3<>','SO3<>()',3),'sim2':('SIM2<>','SO2<>()',2),'sim3':('SIM3<>','SO3<>()',3),'se2f':('SE2<float>','SO2<float>()',2),'se3f':('SE3<float>','SO3<float>()',3)}
for k,(t,r,n) in GR.items():
    for nm,c in (('rot','a.get_rotation()=%s;'%r),('rotm','a.get_rotation()*=%s;'%r),('rotc','a.get_rotation().coerce();'),('tr','a.get_translation()[0]=1;'),('trv','a.get_translation()=Zeros;'),('trs','a.get_translation().slice<0,2>()*=2;'),('trr','auto&x=a.get_translation(); x[0]=1;'),('rr','auto&x=a.get_rotation(); x.coerce();'),('mul','a*=a;'),('rd','std::istringstream i; i>>a;'),('asg','a=%s();'%t)):
        G.append(('%s_%s'%(k,nm),t+' a;'+c,['%s b; const auto&a=b;'%t+c]))
    G.append((k+'_mat',t+' a; auto x=a.get_rotation().get_matrix(); x[0][0]=1;',[t+' a; auto&x=a.get_rotation().get_matrix(); x[0][0]=1;',t+' a; a.get_rotation().get_matrix()[0][0]=1;',t+' a; a.get_rotation().get_matrix()[0]=Zeros;',t+' a; a.get_rotation().get_matrix().T()[0][0]=1;',t+' a; auto x=a.get_rotation().get_matrix().T(); x[0][0]=1;',t+' a; a.get_rotation().get_matrix()=Identity;',t+' a; auto x=a.get_rotation().get_matrix().slice<0,0,2,2>(); x(0,0)=1;']))
    if k.startswith('sim'): G.append((k+'_sc',t+' a; a.get_scale()=2;',['%s b; const auto&a=b; a.get_scale()=2;'%t,'%s b; const auto&a=b; double&x=a.get_scale();'%t]))
for k,t in (('so2','SO2<>'),('so3','SO3<>'),('sl3','SL<3>'),('sl2f','SL<2,float>'),('so3f','SO3<float>')):
    G.append((k+'_mat',t+' a; auto x=a.get_matrix(); x[0][0]=1; double y=a.get_matrix()[0][0];',[t+' a;'+c for c in ('a.get_matrix()[0][0]=1;','a.get_matrix()(0,0)=1;','a.get_matrix()=Identity;','auto&x=a.get_matrix(); x[0][0]=1;','a.get_matrix().T()[0][0]=1;','a.get_matrix().diagonal_slice()[0]=1;','auto x=a.get_matrix().T(); x[0][0]=1;','auto x=a.get_matrix()[0]; x[0]=1;','a.get_matrix()*=2;','a.get_matrix().slice<0,0,1,1>()(0,0)=1;','a.my_matrix[0][0]=1;')]))
    G.append((k+'_c',t+' a; std::istringstream i; i>>a; a=%s();'%t,['%s b; const auto&a=b;%s'%(t,c) for c in ('a.coerce();','std::istringstream i; i>>a;','a=%s();'%t,'a*=a;')]))
# decompositions and estimators: results that are only readable, and read-only objects
def ro(decl,e,vec): 
    w=['%s=1;'%(e+('[0]' if vec else '(0,0)')),'%s*=2;'%e,'%s=%s;'%(e,e.replace('s.','t.')),'auto&x=%s; x%s=1;'%(e,'[0]' if vec else '(0,0)')]
    return ('auto y=%s; double z=y%s;'%(e,'[0]' if vec else '(0,0)'),w)
def rod(k,decl,e,vec,const=False):
    r,ws=ro(decl,e,vec); c=' const auto&s=b;' if const else ' auto&s=b;'; G2.append((k,decl+c+r,[decl+c+' auto t=b;'+w for w in ws]))
G2=[]
M3='Matrix<3> A=Identity;'
rod('lu',M3+'LU<3> b(A);','s.get_lu()',0); rod('luc',M3+'LU<3> b(A);','s.get_lu()',0,True); rod('qrR',M3+'QR<3> b(A);','s.get_R()',0); rod('qrQ',M3+'QR<3> b(A);','s.get_Q()',0); rod('qlR',M3+'QR_Lapack<3> b(A);','s.get_R()',0); rod('qlQ',M3+'QR_Lapack<3> b(A);','s.get_Q()',0); rod('qlP',M3+'QR_Lapack<3> b(A);','s.get_P()',1); rod('grU',M3+'GR_SVD<3> b(A);','s.get_U()',0); rod('grV',M3+'GR_SVD<3> b(A);','s.get_V()',0); rod('grd',M3+'GR_SVD<3> b(A);','s.get_diagonal()',1)
rod('sev',M3+'SymEigen<3> b(A);','s.get_evectors()',0,True); rod('sel',M3+'SymEigen<3> b(A);','s.get_evalues()',1,True); rod('wC','WLS<3> b;','s.get_C_inv()',0,True); rod('wm','WLS<3> b;','s.get_mu()',1,True); rod('wv','WLS<3> b;','s.get_vector()',1,True); rod('iC','IRLS<3,double,RobustI> b;','s.get_true_C_inv()',0,True)
for nm,d,c in (('sev',M3+'SymEigen<3> b(A);','s.get_evectors()(0,0)=1;'),('sel',M3+'SymEigen<3> b(A);','s.get_evalues()[0]=1;'),('wC','WLS<3> b;','s.get_C_inv()(0,0)=1;'),('wm','WLS<3> b;','s.get_mu()[0]=1;'),('wv','WLS<3> b;','s.get_vector()[0]=1;'),('wdc','WLS<3> b; Matrix<3> A=Identity;','s.get_decomposition().compute(A);'),('wcl','WLS<3> b;','s.clear();'),('wad','WLS<3> b;','s.add_mJ(1.,makeVector(1.,2,3));'),('wpr','WLS<3> b;','s.add_prior(1.);'),('wcm','WLS<3> b;','s.compute();'),('wpe','WLS<3> b,c;','s+=c;'),('chc',M3+'Cholesky<3> b(A);','s.compute(A);'),('luc',M3+'LU<3> b(A);','s.compute(A);'),('sec',M3+'SymEigen<3> b(A);','s.compute(A);'),('lcc',M3+'Lapack_Cholesky<3> b(A);','s.compute(A);'),('svc',M3+'SVD<3> b(A);','s.compute(A);'),('iad','IRLS<3,double,RobustI> b; b.set_sd(1);','s.add_mJ(1.,makeVector(1.,2,3));'),('icl','IRLS<3,double,RobustI> b;','s.clear();')):
    G2.append(('w_'+nm,d+'auto&s=b;'+c,[d+'const auto&s=b;'+c]))
for nm,d in (('lc',M3+'const Lapack_Cholesky<3> s(A);'),('se',M3+'const SymEigen<3> s(A);')): G2.append(('q_'+nm,d+'Vector<3> b=Zeros; auto x=s.backsub(b); double y=s.determinant();' if nm!='se' else d+'Vector<3> b=Zeros; auto x=s.backsub(b); double y=s.get_determinant();',[]))
GROUPS=[dict(name='vector',top=TOP,cases=A),dict(name='matrix',top=TOP,cases=B),dict(name='diagonal',top=TOP,cases=D),dict(name='groups',top=TOP,cases=G),dict(name='solvers',top=TOP,cases=G2)]
