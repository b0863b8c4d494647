TOP='''#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <complex>
#include <type_traits>
using namespace TooN;'''
cs=[]
def sz(n,t,e,p): cs.append((n,'static_assert(sizeof(%s)==%s*sizeof(%s),"size"); static_assert(alignof(%s)>=alignof(%s) && alignof(%s)<=8,"alignment"); static_assert(sizeof(%s[5])==5*sizeof(%s),"array");'%(t,e,p,t,p,t,t,t),[]))
for p,nm in (('double','d'),('float','f'),('int','i')):
    for n in (1,2,3,4,5,6,7,8,16,33,64,125): sz('v%s%d'%(nm,n),'Vector<%d,%s>'%(n,p),n,p)
    for r,c in ((1,1),(1,4),(2,2),(2,3),(3,2),(3,3),(4,4),(5,1),(6,6),(7,7),(3,11),(11,11)):
        for l in ('RowMajor','ColMajor'):  sz('m%s%d_%d%s'%(nm,r,c,l),'Matrix<%d,%d,%s,%s>'%(r,c,p,l),r*c,p)
for p,nm in (('double','d'),('float','f')):
    for g,n in (('SO2',4),('SO3',9),('SE2',6),('SE3',12),('SIM2',7),('SIM3',13)): sz(g+nm,'%s<%s>'%(g,p),n,p)
    for n in (2,3,4): sz('SL%d%s'%(n,nm),'SL<%d,%s>'%(n,p),n*n,p)
    sz('diag'+nm,'DiagonalMatrix<4,%s>'%p,4,p)
GROUPS=[dict(name='inline',top=TOP,cases=cs)]
