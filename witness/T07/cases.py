# Precision and size of the result of every arithmetic expression, as types
TOP='''#include <TooN/TooN.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <complex>
#include <type_traits>
using namespace TooN;
typedef std::complex<float> cf; typedef std::complex<double> cd; typedef std::complex<long double> cl; typedef long double ld;
template<class T> struct Dc{typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type t;};
template<class T> struct VT{}; template<int N,class P,class B> struct VT<Vector<N,P,B> >{typedef typename std::remove_cv<P>::type p; static const int n=(N==Resizable?-99:N);};
template<class T> struct MT{}; template<int R,int C,class P,class B> struct MT<Matrix<R,C,P,B> >{typedef typename std::remove_cv<P>::type p; static const int r=R,c=C;};
template<class T> struct DT{}; template<int N,class P,class B> struct DT<DiagonalMatrix<N,P,B> >{typedef typename std::remove_cv<P>::type p; static const int n=N;};
#define IS(a,b) static_assert(std::is_same<a,b>::value,"precision")
// the type the built-in operator gives
#define BI(P,Q,op) Dc<decltype(std::declval<P>() op std::declval<Q>())>::t
#define VIS(e,P,N) IS(VT<Dc<decltype(e)>::t>::p,P); static_assert((N)<0?VT<Dc<decltype(e)>::t>::n<0:VT<Dc<decltype(e)>::t>::n==(N),"size")
#define MIS(e,P,R,C) IS(MT<Dc<decltype(e)>::t>::p,P); static_assert(MT<Dc<decltype(e)>::t>::r==(R)&&MT<Dc<decltype(e)>::t>::c==(C),"size")
#define DIS(e,P,N) IS(DT<Dc<decltype(e)>::t>::p,P); static_assert(DT<Dc<decltype(e)>::t>::n==(N),"size")
#define SIS(e,P) IS(Dc<decltype(e)>::t,P)
'''
REAL=['char','short','int','unsigned','long','float','double','ld']; CX=['cf','cd','cl']
PAIRS=[(p,q) for p in REAL for q in REAL]+[(c,c) for c in CX]+[('cf','float'),('float','cf'),('cd','double'),('double','cd'),('cl','ld'),('ld','cl')]
V=[]
def vd(n,p,kind):
    if kind=='own': return 'Vector<%d,%s>'%(n,p)
    if kind=='dyn': return 'Vector<Dynamic,%s>'%p
    if kind=='rsz': return 'Vector<Resizable,%s>'%p
    if kind=='ref': return 'Vector<%d,const %s,Reference>'%(n,p)
    if kind=='dref': return 'Vector<Dynamic,%s,Reference>'%p
    if kind=='slc': return 'Vector<%d,%s,Internal::SliceVBase<2> >'%(n,p)
def md(r,c,p,kind):
    if kind=='own': return 'Matrix<%d,%d,%s>'%(r,c,p)
    if kind=='cm': return 'Matrix<%d,%d,%s,ColMajor>'%(r,c,p)
    if kind=='dyn': return 'Matrix<Dynamic,Dynamic,%s>'%p
    if kind=='hr': return 'Matrix<%d,Dynamic,%s>'%(r,p)
    if kind=='hc': return 'Matrix<Dynamic,%d,%s,ColMajor>'%(c,p)
    if kind=='ref': return 'Matrix<%d,%d,const %s,Reference::RowMajor>'%(r,c,p)
    if kind=='slc': return 'Matrix<%d,%d,%s,Internal::Slice<Dynamic,1> >'%(r,c,p)
def fixed(n,k): return n if k in('own','ref','slc','cm') else -1
def rs(r,k): return r if k in('own','ref','slc','cm','hr') else -1
def csz(c,k): return c if k in('own','ref','slc','cm','hc') else -1
def args(*t): return 'auto f=[]('+','.join('%s&%s'%(x,n) for x,n in t)+'){%s}; (void)f;'
X='const '
for p,q in PAIRS:
    cpx=p in CX or q in CX
    a=args((X+vd(3,p,'own'),'a'),(X+vd(3,q,'own'),'b')); f=args((X+md(2,3,p,'own'),'m'),(X+md(2,3,q,'own'),'n'),(X+md(3,4,q,'own'),'k'),(X+vd(3,q,'own'),'b'),(X+vd(2,p,'own'),'c'),(X+vd(3,p,'own'),'a'))
    B=lambda op:'BI(%s,%s,%s)'%(p,q,op)
    V.append(('vp_%s_%s'%(p,q),a%('VIS(a+b,%s,3); VIS(a-b,%s,3); SIS(a*b,%s); VIS(diagmult(a,b),%s,3); VIS(a.as_diagonal()*b,%s,3); VIS(a*b.as_diagonal(),%s,3); VIS(a^b,%s,3); DIS(a.as_diagonal()*b.as_diagonal(),%s,3);'%(B('+'),B('-'),B('*'),B('*'),B('*'),B('*'),B('*'),B('*'))),[]))
    V.append(('mp_%s_%s'%(p,q),f%('MIS(m+n,%s,2,3); MIS(m-n,%s,2,3); MIS(m*k,%s,2,4); VIS(m*b,%s,2); VIS(c*n,%s,3); MIS(diagmult(m,b),%s,2,3); MIS(diagmult(c,n),%s,2,3); MIS(m*b.as_diagonal(),%s,2,3); MIS(c.as_diagonal()*n,%s,2,3); MIS(a.as_col()*b.as_row(),%s,3,3);'%((B('+'),B('-'))+(B('*'),)*8)),[]))
    s=args((X+vd(3,p,'own'),'a'),(X+md(2,3,p,'own'),'m'),(X+q,'s'))
    V.append(('sp_%s_%s'%(p,q),s%('VIS(a*s,%s,3); VIS(s*a,%s,3); VIS(a/s,%s,3); MIS(m*s,%s,2,3); MIS(s*m,%s,2,3); MIS(m/s,%s,2,3);'%(B('*'),'BI(%s,%s,*)'%(q,p),B('/'),B('*'),'BI(%s,%s,*)'%(q,p),B('/'))),[]))
KS=['own','dyn','rsz','ref','dref','slc']; MK=['own','cm','dyn','hr','hc','ref','slc']
S=[]
big=lambda a,b: a if a!=-1 else b
for ka in KS:
    for kb in KS:
        for p,q,t in (('float','double','double'),('double','double','double'),('int','float','float')):
            n=big(fixed(3,ka),fixed(3,kb)); a=args((X+vd(3,p,ka),'a'),(X+vd(3,q,kb),'b'))
            S.append(('v_%s_%s_%s'%(ka,kb,p),a%('VIS(a+b,%s,%d); VIS(a-b,%s,%d); SIS(a*b,%s); VIS(diagmult(a,b),%s,%d); VIS(a+(b-a),%s,%d); VIS((a*2.f)+b,%s,%d);'%(t,n,t,n,t,t,n,t,n,t,n)),[]))
    for p in ('float','double','int'):
        n=fixed(3,ka); S.append(('u_%s_%s'%(ka,p),args((X+vd(3,p,ka),'a'))%('VIS(-a,%s,%d); VIS(a*2,%s,%d); VIS(2.0*a,BI(double,%s,*),%d); VIS(a/3.0L,ld,%d); VIS(a.as_slice(),%s,%d); MIS(a.as_row(),%s,1,%d); MIS(a.as_col(),%s,%d,1); DIS(a.as_diagonal(),%s,%d); VIS((a.template slice<1,2>()),%s,2); VIS(a.slice(1,2),%s,-1); '%((p,n)+(p,n)+(p,n)+(n,)+(p,n)*4+(p,p))),[]))
for ka in MK:
    for kb in MK:
        for p,q,t in (('float','double','double'),('double','float','double'),('double','double','double')):
            r=big(rs(2,ka),rs(2,kb)); c=big(csz(3,ka),csz(3,kb)); f=args((X+md(2,3,p,ka),'m'),(X+md(2,3,q,kb),'n'),(X+md(3,4,q,kb),'k'))
            S.append(('m_%s_%s_%s%s'%(ka,kb,p,q),f%('MIS(m+n,%s,%d,%d); MIS(m-n,%s,%d,%d); MIS(m*k,%s,%d,%d); MIS(k.T()*m.T(),%s,%d,%d); MIS(m+(n-m),%s,%d,%d);'%(t,r,c,t,r,c,t,rs(2,ka),csz(4,kb),t,csz(4,kb),rs(2,ka),t,r,c)),[]))
    for kv in KS:
        f=args((X+md(2,3,'float',ka),'m'),(X+vd(3,'double',kv),'b'),(X+vd(2,'double',kv),'c')); R=rs(2,ka);C=csz(3,ka)
        S.append(('mv_%s_%s'%(ka,kv),f%('VIS(m*b,double,%d); VIS(c*m,double,%d); MIS(diagmult(m,b),double,%d,%d); MIS(diagmult(c,m),double,%d,%d); MIS(m*b.as_diagonal(),double,%d,%d); MIS(c.as_diagonal()*m,double,%d,%d);'%((R,C)+(R,C)*4)),[]))
    for p in ('float','double'):
        R=rs(2,ka);C=csz(3,ka); S.append(('mu_%s_%s'%(ka,p),args((X+md(2,3,p,ka),'m'))%('MIS(-m,%s,%d,%d); MIS(m*2,%s,%d,%d); MIS(2.0*m,double,%d,%d); MIS(m/3.0L,ld,%d,%d); MIS(m.T(),%s,%d,%d); VIS(m[0],%s,%d); VIS(m.T()[0],%s,%d); VIS(m.diagonal_slice(),%s,%d); MIS((m.template slice<0,1,2,2>()),%s,2,2); MIS(m.slice(0,0,1,1),%s,-1,-1);'%((p,R,C)*2+(R,C)*2+(p,C,R)+(p,C)+(p,R)+(p,(2 if R!=-1 and C!=-1 else -1))+(p,p))),[]))
for ka in KS:
    for kb in KS:
        a=args((X+vd(3,'float',ka),'a'),(X+vd(4,'double',kb),'b')); S.append(('out_%s_%s'%(ka,kb),a%('MIS(a.as_col()*b.as_row(),double,%d,%d);'%(fixed(3,ka),fixed(4,kb))),[]))
# identity, zeros and scalar operators keep the size and precision of the operand
for p in ('float','double','ld'):
    S.append(('op_'+p,args((X+md(3,3,p,'own'),'m'),(X+md(3,3,p,'dyn'),'d'))%('MIS(m+Identity,%s,3,3); MIS(Identity+m,%s,3,3); MIS(m-Identity,%s,3,3); MIS(Identity-m,%s,3,3); MIS(d+Identity,%s,-1,-1);'%((p,)*5)),[]))
    S.append(('opv_'+p,args((X+vd(3,p,'own'),'v'),(X+vd(3,p,'dyn'),'d'))%('VIS(v+Ones,%s,3); VIS(Ones+v,%s,3); VIS(v-Ones,%s,3); VIS(Ones-v,%s,3); VIS(d+Ones,%s,-1);'%((p,)*5)),[]))
# transformations
G=[]
for p,q in (('float','double'),('double','float'),('float','float'),('double','double')):
    t='double' if 'double' in (p,q) else 'float'
    for g,n in (('SO2<%s>',2),('SO3<%s>',3),('SE2<%s>',3),('SE3<%s>',4),('SIM2<%s>',3),('SIM3<%s>',4),('SL<3,%s>',3)):
        for k in ('own','dyn','slc'):
            G.append(('%s_%s_%s_%s'%(g[:3].replace('<','_'),p,q,k),args((X+g%p,'g'),(X+vd(n,q,k),'v'),(X+md(n,5,q,'own'),'m'),(X+md(5,n,q,'own'),'w'))%('VIS(g*v,%s,%d); VIS(v*g,%s,%d); MIS(g*m,%s,%d,5); MIS(w*g,%s,5,%d); auto x1=g*v; auto x2=v*g; auto x3=g*m; auto x4=w*g; (void)x1;(void)x2;(void)x3;(void)x4;'%(t,n,t,n,t,n,t,n)),[]))
        if g[1] in 'EI': G.append(('%s_%s_%s_pt'%(g[:4].replace('<','_'),p,q),args((X+g%p,'g'),(X+vd(n-1,q,'own'),'v'))%('VIS(g*v,%s,%d);'%(t,n-1)),[]))
    for g in ('SO2<%s>','SO3<%s>','SE2<%s>','SE3<%s>','SIM2<%s>','SIM3<%s>','SL<3,%s>'): G.append(('prod_%s_%s_%s'%(g[:4].replace('<','_'),p,q),args((X+g%p,'a'),(X+g%q,'b'))%('typedef %s R; SIS(a*b,R); R r=a*b; (void)r;'%(g%t)),[]))
def rn(l):
    seen={}; out=[]
    for n,a,b in l:
        c=seen.get(n,0); seen[n]=c+1; out.append((n if not c else n+'_%d'%c,a,b))
    return out
GROUPS=[dict(name='precision',top=TOP,cases=rn(V)),dict(name='size',top=TOP,cases=rn(S)),dict(name='groups',top=TOP,cases=rn(G))]
