TOP='''#include <TooN/TooN.h>
using namespace TooN;'''
cs=[]
def vals(k): return ','.join('%d'%(i+1) for i in range(k))
V={'own':'Vector<{n}> v;','ownf':'Vector<{n},float> v;','ref':'double d[{n}]; Vector<{n},double,Reference> v(d);','slice':'Vector<9> w; auto v=w.slice<1,{n}>();','row':'Matrix<3,{n}> m; auto v=m[1];','col':'Matrix<{n},3> m; auto v=m.T()[1];','diag':'Matrix<{n}> m; auto v=m.diagonal_slice();'}
for k,d in V.items():
    for n in (1,2,3,5):
        o=d.format(n=n); cs.append(('v%s%d'%(k,n),o+'Fill(v)=%s;'%vals(n),[o+'Fill(v)=%s;'%vals(n+1),o+'Fill(v)=%s;'%vals(n+2),o+'Fill(v)=%s;'%vals(n+5)]))
M={'own':'Matrix<{r},{c}> m;','col':'Matrix<{r},{c},double,ColMajor> m;','ref':'double d[{n}]; Matrix<{r},{c},double,Reference::RowMajor> m(d);','t':'Matrix<{c},{r}> a; auto m=a.T();','sub':'Matrix<7,8> a; auto m=a.slice<1,1,{r},{c}>();'}
for k,d in M.items():
    for r,c in ((1,1),(1,3),(3,1),(2,2),(2,3),(3,2)):
        o=d.format(r=r,c=c,n=r*c); cs.append(('m%s%d%d'%(k,r,c),o+'Fill(m)=%s;'%vals(r*c),[o+'Fill(m)=%s;'%vals(r*c+1),o+'Fill(m)=%s;'%vals(r*c+c+1)]))
# brace lists of fixed-size vectors
for n in (1,2,3,5):
    if n>1: cs.append(('b%d'%n,'Vector<%d> v={{%s}};'%(n,vals(n)),['Vector<%d> v={{%s}};'%(n,vals(n+1))]+(['Vector<%d> v={{%s}};'%(n,vals(n-1))] if n>2 else [])))
    cs.append(('a%d'%n,'const double a[%d]={}; Vector<%d> v(a);'%(n,n),['const double a[%d]={}; Vector<%d> v(a);'%(n+1,n)]))
    cs.append(('mv%d'%n,'Vector<%d> v=makeVector(%s);'%(n,vals(n)),['Vector<%d> v=makeVector(%s);'%(n,vals(n+1))]))
    cs.append(('d%d'%n,'Vector<%d> v=Data(%s);'%(n,vals(n)),['Vector<%d> v=Data(%s);'%(n,vals(n+1))]+(['Vector<%d> v=Data(%s);'%(n,vals(n-1))] if n>1 else [])))
for r,c in ((1,1),(2,2),(2,3),(3,2)):
    cs.append(('dm%d%d'%(r,c),'Matrix<%d,%d> v=Data(%s);'%(r,c,vals(r*c)),['Matrix<%d,%d> v=Data(%s);'%(r,c,vals(r*c+1))]+(['Matrix<%d,%d> v=Data(%s);'%(r,c,vals(r*c-1))] if r*c>1 else [])))
GROUPS=[dict(name='count',top=TOP,cases=cs),dict(name='nocheck',top=TOP,flags=['-DTOON_NDEBUG_FILL'],cases=cs)]
