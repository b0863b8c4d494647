// What the external linear-algebra routines are documented to do, for the analysis to inline.
// Column-major arrays; the documented restrictions on every argument are asserted.
#pragma once
#include "vf.h"
#include <cmath>
namespace lm {
typedef int I;
static inline bool is(const char*c,char u){ return *c==u||*c==u+32; }
static inline I mx(I a,I b){ return a>b?a:b; }
template<class T> static void getrf(I*pm,I*pn,T*a,I*plda,I*ip,I*info){ I m=*pm,n=*pn,lda=*plda; vf_assert(m>=0); vf_assert(n>=0); vf_assert(lda>=mx(1,m)); *info=0;
  for(I k=0;k<n&&k<m;k++){ I p=k; for(I i=k+1;i<m;i++) if(std::abs(a[i+k*lda])>std::abs(a[p+k*lda])) p=i; ip[k]=p+1; if(p!=k) for(I j=0;j<n;j++){ T t=a[k+j*lda]; a[k+j*lda]=a[p+j*lda]; a[p+j*lda]=t; }
#ifdef LM_INFO
    if(a[k+k*lda]==0){ if(!*info) *info=k+1; continue; }
#endif
    for(I i=k+1;i<m;i++){ a[i+k*lda]/=a[k+k*lda]; for(I j=k+1;j<n;j++) a[i+j*lda]-=a[i+k*lda]*a[k+j*lda]; } } }
template<class T> static void trsm(char*side,char*uplo,char*tr,char*diag,I*pm,I*pn,T*al,T*a,I*plda,T*b,I*pldb){ I m=*pm,n=*pn,lda=*plda,ldb=*pldb; bool left=is(side,'L'),up=is(uplo,'U'),t=is(tr,'T')||is(tr,'C'),unit=is(diag,'U');
  vf_assert(left||is(side,'R')); vf_assert(up||is(uplo,'L')); vf_assert(t||is(tr,'N')); vf_assert(unit||is(diag,'N')); vf_assert(m>=0); vf_assert(n>=0); I k=left?m:n; vf_assert(lda>=mx(1,k)); vf_assert(ldb>=mx(1,m));
  // op(A) X = alpha B  or  X op(A) = alpha B, one row or column of X at a time
  bool upper=up!=t; I cnt=left?n:m; for(I c=0;c<cnt;c++){ for(I s=0;s<k;s++){ bool back=left?upper:!upper; I i=back?k-1-s:s; T v=(left?b[i+c*ldb]:b[c+i*ldb])**al; for(I q=0;q<s;q++){ I j=back?k-1-q:q; I r=left?i:j,l=left?j:i; v-=(t?a[l+r*lda]:a[r+l*lda])*(left?b[j+c*ldb]:b[c+j*ldb]); } if(!unit) v/=a[i+i*lda]; (left?b[i+c*ldb]:b[c+i*ldb])=v; } } }
template<class T> static void getri(I*pn,T*a,I*plda,I*ip,T*w,I*plw,I*info){ I n=*pn,lda=*plda,lw=*plw; vf_assert(n>=0); vf_assert(lda>=mx(1,n)); *info=0; if(lw==-1){ w[0]=(T)mx(1,2*n); return; } vf_assert(lw>=mx(1,n)); for(I i=0;i<lw;i++) w[i]=(T)vf_any();
  T x[36]; vf_assert(n<=6); for(I c=0;c<n;c++) for(I i=0;i<n;i++) x[i+c*n]=i==c; // solve L U x = e, then undo the exchanges on the columns
  for(I c=0;c<n;c++){ for(I i=0;i<n;i++) for(I j=0;j<i;j++) x[i+c*n]-=a[i+j*lda]*x[j+c*n]; for(I i=n-1;i>=0;i--){ for(I j=i+1;j<n;j++) x[i+c*n]-=a[i+j*lda]*x[j+c*n]; x[i+c*n]/=a[i+i*lda]; } }
  for(I k=n-1;k>=0;k--){ I p=ip[k]-1; if(p!=k) for(I i=0;i<n;i++){ T t=x[i+k*n]; x[i+k*n]=x[i+p*n]; x[i+p*n]=t; } } for(I c=0;c<n;c++) for(I i=0;i<n;i++) a[i+c*lda]=x[i+c*n]; w[0]=(T)mx(1,2*n); }
// the factor is kept where uplo says: element (i,j), j<=i, of L
template<class T> static inline T& tri(T*a,I lda,bool up,I i,I j){ return up?a[j+i*lda]:a[i+j*lda]; }
template<class T> static inline const T& tri(const T*a,I lda,bool up,I i,I j){ return up?a[j+i*lda]:a[i+j*lda]; }
template<class T> static void potrf(const char*uplo,const I*pn,T*a,const I*plda,I*info){ I n=*pn,lda=*plda; bool up=is(uplo,'U'); vf_assert(up||is(uplo,'L')); vf_assert(n>=0); vf_assert(lda>=mx(1,n)); *info=0;
  for(I j=0;j<n;j++){ T d=tri(a,lda,up,j,j); for(I q=0;q<j;q++) d-=tri(a,lda,up,j,q)*tri(a,lda,up,j,q); 
#ifdef LM_INFO
    if(!(d>0)){ *info=j+1; return; }
#endif
    d=std::sqrt(d); tri(a,lda,up,j,j)=d; for(I i=j+1;i<n;i++){ T v=tri(a,lda,up,i,j); for(I q=0;q<j;q++) v-=tri(a,lda,up,i,q)*tri(a,lda,up,j,q); tri(a,lda,up,i,j)=v/d; } } }
template<class T> static void potrs(const char*uplo,const I*pn,const I*pr,const T*a,const I*plda,T*b,const I*pldb,I*info){ I n=*pn,r=*pr,lda=*plda,ldb=*pldb; bool up=is(uplo,'U'); vf_assert(up||is(uplo,'L')); vf_assert(n>=0); vf_assert(r>=0); vf_assert(lda>=mx(1,n)); vf_assert(ldb>=mx(1,n)); *info=0;
  for(I c=0;c<r;c++){ T*x=b+c*ldb; for(I i=0;i<n;i++){ for(I j=0;j<i;j++) x[i]-=tri(a,lda,up,i,j)*x[j]; x[i]/=tri(a,lda,up,i,i); } for(I i=n-1;i>=0;i--){ for(I j=i+1;j<n;j++) x[i]-=tri(a,lda,up,j,i)*x[j]; x[i]/=tri(a,lda,up,i,i); } } }
template<class T> static void potri(const char*uplo,const I*pn,T*a,const I*plda,I*info){ I n=*pn,lda=*plda; bool up=is(uplo,'U'); vf_assert(up||is(uplo,'L')); vf_assert(n>=0); vf_assert(lda>=mx(1,n)); *info=0; T x[36]; vf_assert(n<=6);
  for(I c=0;c<n;c++){ for(I i=0;i<n;i++) x[i+c*n]=i==c; for(I i=0;i<n;i++){ for(I j=0;j<i;j++) x[i+c*n]-=tri(a,lda,up,i,j)*x[j+c*n]; x[i+c*n]/=tri(a,lda,up,i,i); } for(I i=n-1;i>=0;i--){ for(I j=i+1;j<n;j++) x[i+c*n]-=tri(a,lda,up,j,i)*x[j+c*n]; x[i+c*n]/=tri(a,lda,up,i,i); } }
  for(I c=0;c<n;c++) for(I i=c;i<n;i++) tri(a,lda,up,i,c)=x[i+c*n]; }
}
#define LMU __attribute__((used))
#define LM(p,T) extern "C" { \
 LMU void vfmodel_##p##getrf_(int*m,int*n,T*a,int*lda,int*ip,int*info){ lm::getrf(m,n,a,lda,ip,info); } \
 LMU void vfmodel_##p##getri_(int*n,T*a,int*lda,int*ip,T*w,int*lw,int*info){ lm::getri(n,a,lda,ip,w,lw,info); } \
 LMU void vfmodel_##p##trsm_(char*s,char*u,char*t,char*d,int*m,int*n,T*al,T*a,int*lda,T*b,int*ldb){ lm::trsm(s,u,t,d,m,n,al,a,lda,b,ldb); } \
 LMU void vfmodel_##p##potrf_(const char*u,const int*n,T*a,const int*lda,int*info){ lm::potrf(u,n,a,lda,info); } \
 LMU void vfmodel_##p##potrs_(const char*u,const int*n,const int*r,const T*a,const int*lda,T*b,const int*ldb,int*info){ lm::potrs(u,n,r,a,lda,b,ldb,info); } \
 LMU void vfmodel_##p##potri_(const char*u,const int*n,T*a,const int*lda,int*info){ lm::potri(u,n,a,lda,info); } }
LM(d,double) LM(s,float)
