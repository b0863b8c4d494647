// vf - value-flow / guard / effect analysis of LLVM IR for the TooN checks.
//
// One forward data-flow pass with joins per analysed function; see DESIGN.md.
//   abstract value  : decision diagram over branch-condition atoms, leaves are
//                     canonical value numbers (field hashes), integers (constants
//                     or linear forms), pointers (region, offset) or UNDEFINED
//   abstract memory : regions of cells, with a release typestate for heap regions
// usage: vf [--only NAME] [--root /repo] FILE.bc   -> JSON on stdout
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <cmath>
#include <chrono>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;
typedef uint32_t Nd;

//---------------------------------------------------------------- field GF(p)
static const u64 PR=(1ULL<<61)-1;
static inline u64 fadd_(u64 a,u64 b){u64 s=a+b; return s>=PR?s-PR:s;}
static inline u64 fsub_(u64 a,u64 b){return a>=b?a-b:a+PR-b;}
static inline u64 fneg_(u64 a){return a?PR-a:0;}
static inline u64 fmul_(u64 a,u64 b){u128 m=(u128)a*b; u64 lo=(u64)(m&PR),hi=(u64)(m>>61); u64 s=lo+hi; return s>=PR?s-PR:s;}
static u64 fpow_(u64 a,u64 e){u64 r=1;while(e){if(e&1)r=fmul_(r,a);a=fmul_(a,a);e>>=1;}return r;}
static inline u64 finv_(u64 a){return fpow_(a,PR-2);}
static u64 G_seed=1;
static u64 mix(u64 x){x+=0x9E3779B97F4A7C15ULL; x=(x^(x>>30))*0xBF58476D1CE4E5B9ULL; x=(x^(x>>27))*0x94D049BB133111EBULL; return x^(x>>31);}
struct Hs{u64 s; Hs(const char*t){s=mix(G_seed*0x1234567ULL+77);for(;*t;t++)s=mix(s^(u64)(unsigned char)*t);}
  Hs(const std::string&t):Hs(t.c_str()){}
  Hs&operator()(u64 v){s=mix(s^mix(v));return*this;}
  u64 f(){u64 r=mix(s)&PR; r%=PR; return r<2?r+12345:r;} };

struct Fail{std::string why;};
[[noreturn]] static void fail(const std::string&w){throw Fail{w};}

//---------------------------------------------------------------- leaves
enum LK{UND,NUM,INT,LIN,PTR,PTS,CAT,ANY};
struct Leaf{LK k=UND; u64 h=0; i64 a=0; // NUM: h hash ; INT: h value ; LIN: a=lin id ; PTR: a=region,h=offset ; PTS: a=region,h=lin id ; CAT: a=index
  unsigned char fl=0; // NUM: 1 carries double information, 2 was narrowed, 4 has constant dv
  double dv=0;};
struct NodeS{int var; Nd lo,hi; int leaf;};
struct Lin{std::vector<std::pair<int,i64>> t; i64 c=0; bool operator<(const Lin&o)const{return c<o.c||(c==o.c&&t<o.t);} };
enum AK{FZ,FP_,GEI,NANA,BOOLA};
struct Atom{AK k; u64 h; int lin; std::string loc;};

struct Mgr{
  std::vector<NodeS> nd; std::vector<Leaf> lf; std::vector<Atom> at; std::unordered_map<int,std::vector<std::vector<int>>> cores; // conjunctions of literals known to be impossible
  std::map<std::tuple<int,u64,i64,int,u64>,Nd> leafTab;
  struct K3{u64 a,b; bool operator==(const K3&o)const{return a==o.a&&b==o.b;}};
  struct H3{size_t operator()(const K3&k)const{return mix(k.a*31+mix(k.b));}};
  std::unordered_map<K3,Nd,H3> uniq; std::unordered_map<K3,Nd,H3> memo,memoIte,memoC;
  std::map<std::pair<int,u64>,int> atomTab; 
  std::vector<Lin> lins; std::map<Lin,int> linTab;
  std::vector<std::pair<std::string,u64>> syms; std::map<std::string,int> symTab;
  std::unordered_map<u64,double> constH; // hash -> constant value
  std::vector<std::vector<std::pair<Nd,int>>> cats; std::map<std::vector<std::pair<Nd,int>>,int> catTab;
  struct InitO{int region; i64 off; int size;}; std::unordered_map<u64,InitO> initTab;
  std::unordered_map<u64,u64> expArg,logArg; // value -> argument
  // comparisons of a value with a constant: atom hash -> (base value, bound); bases are shared between constant multiples
  struct Bound{int base; double c; bool up;}; std::unordered_map<u64,Bound> bounds; std::unordered_map<u64,std::pair<int,double>> baseTab; std::vector<bool> baseNonneg;
  void bound(u64 d,u64 x,double c,bool nonneg){ if(bounds.count(d)||std::isinf(c)||c!=c) return; static const i64 ks[]={1,2,3,4,6,8,9,12,16,24}; int b=-1; double k=1;
    auto it=baseTab.find(x); if(it!=baseTab.end()){b=it->second.first;k=it->second.second;}
    for(int s=1;s>=-1&&b<0;s-=2) for(int i=0;i<10&&b<0;i++) for(int inv=0;inv<2&&b<0;inv++){ u64 f=inv?finv_(ks[i]):(u64)ks[i]; u64 m=fmul_(x,f); if(s<0)m=fneg_(m); auto jt=baseTab.find(m); if(jt!=baseTab.end()){ b=jt->second.first; k=s*jt->second.second*(inv?(double)ks[i]:1.0/ks[i]); } }
    if(b<0){b=baseNonneg.size();baseNonneg.push_back(false);} baseTab[x]={b,k}; if(nonneg&&k>0) baseNonneg[b]=true; bounds[d]={b,c/k,k>0}; }
  int badRes=0,sqrts=0,posBad=0; std::set<u64> nums; bool nanOn=false,generic=false; std::set<u64> roots; std::vector<u64> posV; void addPos(u64 h){ if(h==0||h==1||posV.size()>=24) return; for(u64 x:posV) if(x==h) return; posV.push_back(h); }
  Nd F,T,U; std::string curLoc;
  Mgr(){ U=leaf({UND,0,0,0,0}); F=mkInt(0); T=mkInt(1); }
  Nd leaf(Leaf l){ if(l.k==NUM) nums.insert(l.h); u64 dvb=0; if(l.fl&4) memcpy(&dvb,&l.dv,8); auto key=std::make_tuple((int)l.k,l.h,l.a,(int)l.fl,dvb);
    auto it=leafTab.find(key); if(it!=leafTab.end()) return it->second;
    lf.push_back(l); nd.push_back({1<<30,0,0,(int)lf.size()-1}); if(nd.size()>6000000) fail("diagram too large"); return leafTab[key]=nd.size()-1; }
  Nd mkInt(u64 v){Leaf l;l.k=INT;l.h=v;return leaf(l);}
  bool isLeaf(Nd n){return nd[n].leaf>=0;}
  Leaf& L(Nd n){return lf[nd[n].leaf];}
  Nd mk(int v,Nd lo,Nd hi){ if(lo==hi) return lo; K3 k{((u64)v<<32)|lo,hi}; auto it=uniq.find(k); if(it!=uniq.end()) return it->second;
    nd.push_back({v,lo,hi,-1}); if(nd.size()>6000000) fail("diagram too large"); return uniq[k]=nd.size()-1; }
  Nd varN(int v){return mk(v,F,T);}
  // ite with a boolean condition c (leaves 0/1; UND condition leaf gives UND)
  Nd ite(Nd c,Nd a,Nd b){ if(c==T) return a; if(c==F) return b; if(a==b) return a; if(c==U) return U;
    if(a==T&&b==F) return c;
    if(isLeaf(a)&&isLeaf(b)&&!isLeaf(c)&&L(a).k==NUM&&L(b).k==NUM&&!(L(a).fl&12)&&!(L(b).fl&12)&&L(a).h==fneg_(L(b).h)){ Nd z,p; int s=absPattern(c,L(a).h); if(s>0||s<0){ if(s>0){Leaf x=L(a),y=L(b); return ite_(c,mkNum(x.h,x.fl|8),mkNum(y.h,y.fl|8));} } (void)z;(void)p; }
    return ite_(c,a,b); }
  // c selects h exactly where h>=0 (or >0): +1
  int absPattern(Nd c,u64 h){ for(int s=0;s<2;s++){ u64 m=s?fneg_(h):h; auto it=atomTab.find({(int)FZ,m}); if(it==atomTab.end()) continue; int z=it->second; auto jt=atomTab.find({(int)FP_,m}); if(jt==atomTab.end()) continue; Nd zn=varN(z),P=varN(jt->second); if(s)P=ite_(P,F,T); Nd pos=ite_(zn,F,P),nonneg=ite_(zn,T,P); if(c==pos||c==nonneg) return 1; return 0; } return 0; }
  Nd ite_(Nd c,Nd a,Nd b){ if(c==T) return a; if(c==F) return b; if(a==b) return a; if(a==T&&b==F) return c;
    K3 k{((u64)c<<32)|a,b}; auto it=memoIte.find(k); if(it!=memoIte.end()) return it->second;
    if(isLeaf(c)){ if(L(c).k==INT) return L(c).h&1?a:b; return U; }
    int v=nd[c].var; v=std::min(v,nd[a].var); v=std::min(v,nd[b].var);
    auto co=[&](Nd x,bool hi){return nd[x].var==v?(hi?nd[x].hi:nd[x].lo):x;};
    Nd h=ite(co(c,1),co(a,1),co(b,1)), l=ite(co(c,0),co(a,0),co(b,0));
    return memoIte[k]=mk(v,l,h); }
  Nd And(Nd a,Nd b){return ite(a,b,F);} Nd Or(Nd a,Nd b){return ite(a,T,b);} Nd Not(Nd a){return ite(a,F,T);}
  Nd constrain(Nd f,Nd c){ if(c==T||isLeaf(f)) return f; if(c==F) return f; if(isLeaf(c)) return f;
    K3 k{((u64)f<<32)|c,0}; auto it=memoC.find(k); if(it!=memoC.end()) return it->second;
    int vc=nd[c].var,vf=nd[f].var; Nd r;
    if(vc<vf){ r = nd[c].lo==F?constrain(f,nd[c].hi): nd[c].hi==F?constrain(f,nd[c].lo): constrain(f,Or(nd[c].hi,nd[c].lo)); }
    else { Nd ch=vc==vf?nd[c].hi:c, cl=vc==vf?nd[c].lo:c;
      if(ch==F) r=constrain(nd[f].lo,cl); else if(cl==F) r=constrain(nd[f].hi,ch);
      else r=mk(vf,constrain(nd[f].lo,cl),constrain(nd[f].hi,ch)); }
    return memoC[k]=r; }
  // generic leafwise application (fn may return a non-leaf node)
  Nd app1(int op,Nd a,const std::function<Nd(Nd)>&fn){
    if(isLeaf(a)) return fn(a); K3 k{((u64)a<<32),(u64)op<<34}; if(op){auto it=memo.find(k); if(it!=memo.end()) return it->second;}
    Nd h=app1(op,nd[a].hi,fn),l=app1(op,nd[a].lo,fn); Nd r=ite(varN(nd[a].var),h,l); if(op) memo[k]=r; return r; }
  Nd app2(int op,Nd a,Nd b,const std::function<Nd(Nd,Nd)>&fn){
    if(isLeaf(a)&&isLeaf(b)) return fn(a,b); K3 k{((u64)a<<32)|b,((u64)op<<34)|1}; if(op){auto it=memo.find(k); if(it!=memo.end()) return it->second;}
    int v=std::min(nd[a].var,nd[b].var); auto co=[&](Nd x,bool hi){return nd[x].var==v?(hi?nd[x].hi:nd[x].lo):x;};
    Nd h=app2(op,co(a,1),co(b,1),fn),l=app2(op,co(a,0),co(b,0),fn); Nd r=ite(varN(v),h,l); if(op) memo[k]=r; return r; }
  Nd appN(std::vector<Nd> a,const std::function<Nd(const std::vector<Nd>&)>&fn){
    std::map<std::vector<Nd>,Nd> mm; std::function<Nd(const std::vector<Nd>&)> rec=[&](const std::vector<Nd>&x)->Nd{
      int v=1<<30; for(Nd n:x) v=std::min(v,nd[n].var); if(v==1<<30) return fn(x);
      auto it=mm.find(x); if(it!=mm.end()) return it->second; auto h=x,l=x; for(auto&n:h) if(nd[n].var==v) n=nd[n].hi; for(auto&n:l) if(nd[n].var==v) n=nd[n].lo;
      Nd rh=rec(h),rl=rec(l); Nd r=ite(varN(v),rh,rl); return mm[x]=r; };
    return rec(a); }
  //---- atoms
  int atom(AK k,u64 h,int lin=-1){ auto key=std::make_pair((int)k,k==GEI?(u64)lin:h); auto it=atomTab.find(key); if(it!=atomTab.end()) return it->second;
    at.push_back({k,h,lin,curLoc}); return atomTab[key]=at.size()-1; }
  // sign trichotomy of a field value: returns (zero,pos) diagrams
  // the atom an existing comparison has for this value up to a factor known to be positive
  bool findSign(u64 h,u64&c,bool&flip){ static const i64 ks[][2]={{1,1},{2,1},{1,2},{4,1},{1,4},{3,1},{1,3},{8,1},{1,8},{6,1},{1,6}}; bool found=false; flip=false; c=h;
    for(auto&q:ks){ u64 m=fmul_(h,fmul_(q[0],finv_(q[1]))); for(int s=0;s<2&&!found;s++){ u64 mm=s?fneg_(m):m; if(atomTab.count({(int)FZ,mm})){c=mm;flip=s;found=true;} } if(found)break; }
    if(!found) for(u64 pv:posV) for(int s=0;s<4&&!found;s++){ u64 m=fmul_(h,s&2?finv_(pv):pv); if(s&1) m=fneg_(m); if(atomTab.count({(int)FZ,m})){ c=m; flip=s&1; found=true; } } // nor does a factor known to be positive matter
    return found; }
  void sign(u64 h,Nd&zero,Nd&pos){ bool flip=false; u64 c=h; findSign(h,c,flip);
    static const i64 ks[][2]={{1,1},{2,1},{1,2},{4,1},{1,4},{3,1},{1,3},{8,1},{1,8},{6,1},{1,6}};
    for(auto&q:ks) for(int s=0;s<2;s++){ u64 m=fmul_(h,fmul_(q[1],finv_(q[0]))); if(s) m=fneg_(m); if(roots.count(m)){ zero=generic?F:varN(atom(FZ,c)); pos=s?F:Not(zero); return; } } // a square root is never negative
    int z=atom(FZ,c),p=atom(FP_,c); zero=generic?F:varN(z); Nd P=varN(p); if(flip) P=Not(P); pos=ite(zero,F,P); }
  Nd geLin(Lin x){ if(x.t.empty()) return x.c>=0?T:F; bool neg=x.t[0].second<0; if(neg){ for(auto&q:x.t)q.second=-q.second; x.c=-x.c-1; }
    i64 g=0; for(auto&q:x.t){i64 a=std::llabs(q.second),b=g; while(a){i64 t=b%a;b=a;a=t;} g=b;} if(g>1){ for(auto&q:x.t)q.second/=g; i64 c=x.c; x.c=c>=0?c/g:-((-c+g-1)/g); }
    Nd v=varN(atom(GEI,0,linId(x))); return neg?Not(v):v; }
  //---- integers
  int sym(const std::string&n){auto it=symTab.find(n); if(it!=symTab.end()) return it->second; syms.push_back({n,Hs("sym")(Hs(n).s).f()}); return symTab[n]=syms.size()-1;}
  int linId(const Lin&l){auto it=linTab.find(l); if(it!=linTab.end()) return it->second; lins.push_back(l); return linTab[l]=lins.size()-1;}
  static u64 mask(u64 v,unsigned w){return w>=64?v:v&((1ULL<<w)-1);} static i64 sx(u64 v,unsigned w){return w>=64?(i64)v:(i64)(v<<(64-w))>>(64-w);}
  Nd mkLin(const Lin&l,unsigned w){ if(l.t.empty()) return mkInt(mask(l.c,w)); Leaf x;x.k=LIN;x.a=linId(l);return leaf(x);}
  Nd mkSym(const std::string&n){Lin l;l.t.push_back({sym(n),1});return mkLin(l,64);}
  bool getLin(Nd n,unsigned w,Lin&o){Leaf&l=L(n); if(l.k==INT){o=Lin();o.c=sx(l.h,w);return true;} if(l.k==LIN){o=lins[l.a];return true;} return false;}
  static Lin ladd(const Lin&a,const Lin&b,i64 kb){std::map<int,i64> m; for(auto&q:a.t)m[q.first]+=q.second; for(auto&q:b.t)m[q.first]+=kb*q.second; Lin r;r.c=a.c+kb*b.c; for(auto&q:m)if(q.second)r.t.push_back(q);return r;}
  u64 linHash(const Lin&l){u64 h=iconst(l.c); for(auto&q:l.t)h=fadd_(h,fmul_(iconst(q.second),syms[q.first].second)); return h;}
  static u64 iconst(i64 v){ return v>=0?(u64)v%PR:fneg_((u64)(-(v+1))%PR+1); }
  u64 leafHash(Nd n){Leaf&l=L(n); switch(l.k){case UND:return Hs("und").f();case NUM:return l.h;case INT:return Hs("int")(l.h).f();case LIN:return Hs("lin")(linHash(lins[l.a])).f();
    case PTR:return Hs("ptr")(l.a)(l.h).f();case PTS:return Hs("pts")(l.a)(linHash(lins[l.h])).f();case CAT:{Hs s("cat");for(auto&q:cats[l.a])s(leafHash(q.first))(q.second);return s.f();}case ANY:return 4;} return 0;}
  //---- floating point
  Nd mkNum(u64 h,unsigned fl,bool hasdv=false,double dv=0){Leaf l;l.k=NUM;l.h=h;l.fl=fl&11; if(h==0){hasdv=true;dv=0;l.fl=0;} if(!hasdv&&(h<64||PR-h<64)){hasdv=true;dv=h<64?(double)h:-(double)(PR-h);l.fl=0;} if(hasdv){l.fl|=4;l.dv=dv==0?0:dv; constH.emplace(h,dv);} return leaf(l);}
  std::map<std::pair<u64,bool>,u64> fcTab;
  Nd mkFC(double v,bool isF=false){ u64 b;memcpy(&b,&v,8); if(v!=v) return mkNum(Hs("nan")(b==0xFFFFFFFFFFFFFFFFULL).f(),0,true,v); if(std::isinf(v)) {u64 h=Hs("inf").f();return mkNum(v>0?h:fneg_(h),0,true,v);}
    auto key=std::make_pair(b,isF); auto it=fcTab.find(key); u64 h; if(it!=fcTab.end()) h=it->second; else { h=0; bool ok=false; double av=fabs(v);
      if(av<1e15&&av==floor(av)){h=(u64)av;ok=true;} 
      for(int ok2=0;ok2<2&&!ok;ok2++) // a double that is exactly a float may be a rounded float constant widened at compile time
      for(int q=2;q<=1000&&!ok;q++){double p=floor(av*q+0.5); if(p>=1&&p<1e6&&(isF||(ok2&&(double)(float)av==av)?(float)p/(float)q==(float)av:p/q==av)){h=fmul_((u64)p,finv_(q));ok=true;}}
      if(!ok){ if(!isF&&av>1e-30&&av<1e30){ float fa=(float)av; bool rat=fa==floorf(fa); for(int q=2;q<=1000&&!rat;q++){double p=floor((double)fa*q+0.5); if(p>=1&&p<1e6&&(float)p/(float)q==fa) rat=true;} if(!rat) av=fa; } // an irrational constant has one value number in both precisions
        int e;double m=frexp(av,&e);u64 mi=(u64)ldexp(m,53);e-=53;u64 two=e>=0?2:finv_(2);h=fmul_(mi%PR,fpow_(two,std::abs(e)));}
      if(v<0)h=fneg_(h); fcTab[key]=h; }
    return mkNum(h,0,true,v); }
  // view a leaf as a number (w: bits)
  bool toNum(Nd n,unsigned w,Nd&out){Leaf&l=L(n); if(l.k==NUM){out=n;return true;} if(l.k==INT){ if(w==32){float f;uint32_t b=l.h;memcpy(&f,&b,4);out=mkFC(f,true);}else{double d;memcpy(&d,&l.h,8);out=mkFC(d);} return true;}
    if(l.k==LIN||l.k==PTR||l.k==PTS||l.k==CAT){out=mkNum(Hs("bits")(leafHash(n)).f(),0);return true;} return false;}
  Nd fun(const char*name,const std::vector<Nd>&a,unsigned w){ Hs s(name); unsigned fl=0; for(Nd n:a){ Leaf l=L(n); if(l.k==UND) return U; if(l.k==ANY) return n; Nd m; if(toNum(n,w,m)){fl|=L(m).fl&3;s(L(m).h);} else s(leafHash(n)); } return mkNum(s.f(),fl); }
};
static Mgr*M;
enum OP{O_FADD=1,O_FSUB,O_FMUL,O_FDIV,O_FREM,O_FNEG,O_FCMP=16,O_FABS=40,O_SQRT,O_TRUNC,O_EXT,O_BASE=64};

//---------------------------------------------------------------- regions and memory
enum RK{R_NULL,R_ARG,R_ALLOCA,R_HEAP,R_GLOBAL,R_DERIVED,R_FUNC,R_UNK};
struct RegInfo{RK k; i64 size=-1; std::string name; GlobalVariable*gv=nullptr; Function*fn=nullptr; u64 id=0; int loc=-1;};
struct Cell{int size; Nd v; bool written; int loc;};
struct RegSt{std::map<i64,Cell> c; Nd freed; bool bulk=false; RegSt():freed(0){}};
typedef std::shared_ptr<RegSt> RegP;
struct Mem{std::map<int,RegP> r; Nd trace; size_t inpos=0;};
struct Val{std::vector<Nd> e; Val(){} Val(Nd n):e{n}{} Nd s()const{return e.empty()?M->U:e[0];} };

struct Event{std::string kind; Nd guard; int loc; std::string detail;};

struct Engine{
  Module&mod; const DataLayout&dl; std::string root;
  std::vector<RegInfo> reg; std::map<std::string,int> regByName; std::map<const void*,int> gvReg;
  std::vector<std::string> locs; std::map<std::string,int> locTab;
  struct FnInfo{std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li; std::vector<BasicBlock*> rpo; std::map<BasicBlock*,int> idx;};
  std::map<Function*,std::unique_ptr<FnInfo>> fi;
  std::vector<std::pair<Function*,const Instruction*>> stack;
  std::vector<Event> events; Nd abortG; std::map<int,Nd> abortAt; std::set<std::string> covered; std::set<std::string> covLines; long steps=0; long maxSteps=30000000; int allocN=0,unkN=0; long depthLimit=400;
  int loopCap=600; bool guardMode=false; bool wideMode=false; bool limitMode=false; bool loopCapHit=false; Nd require; bool inRef=false; long accesses=0,stores=0,calls=0; 
  std::vector<std::pair<Nd,u64>> divs; // (guard, denominator)
  bool strictOOB=true; std::string prefix;
  std::map<std::string,std::function<Val(CallBase*,std::vector<Val>&,Mem&,Nd&)>> ext;
  std::chrono::steady_clock::time_point deadline;
  Engine(Module&m,const std::string&r):mod(m),dl(m.getDataLayout()),root(r){}
  void reset(){ reg.clear();regByName.clear();gvReg.clear();events.clear();abortG=M->F;abortAt.clear();allocN=unkN=0;steps=0;require=M->T;divs.clear();loopCapHit=false;accesses=stores=calls=0;stack.clear(); RegInfo n;n.k=R_NULL;n.name="null";reg.push_back(n);}
  //---- locations
  static std::string fileOf(const DIScope*s){ if(!s) return ""; std::string d=s->getDirectory().str(),f=s->getFilename().str(); if(!f.empty()&&f[0]=='/') return f; return d.empty()?f:d+"/"+f; }
  std::string norm(std::string f){ size_t p; while((p=f.find("/./"))!=std::string::npos) f.erase(p,2); if(f.compare(0,root.size()+1,root+"/")==0) f=f.substr(root.size()+1); return f; }
  int loc(const Instruction*I){ // innermost TooN frame, else innermost
    std::string best; 
    auto one=[&](const Instruction*i)->std::string{ if(!i) return ""; if(auto&d=i->getDebugLoc()){ const DILocation*L=d.get(); std::string f=norm(fileOf(L->getScope())); return f+":"+std::to_string(L->getLine()); } return ""; };
    std::string in=one(I); if(in.compare(0,5,"TooN/")==0) best=in; else for(size_t k=stack.size();k-->0;){ std::string s=one(stack[k].second); if(s.compare(0,5,"TooN/")==0){best=s;break;} }
    if(best.empty()) best=in; else { Function*f=nullptr; (void)f; }
    auto it=locTab.find(best); if(it!=locTab.end()) return it->second; locs.push_back(best); return locTab[best]=locs.size()-1; }
  void event(const char*k,Nd g,const Instruction*I,const std::string&d=""){ if(g==M->F) return; int l=I?loc(I):-1; for(auto&e:events) if(e.kind==k&&e.loc==l&&e.detail==d){e.guard=M->Or(e.guard,g);return;} events.push_back({k,g,l,d}); }
  //---- regions
  int newReg(RegInfo r){reg.push_back(r);return reg.size()-1;}
  int regNamed(RK k,const std::string&n,i64 size){auto it=regByName.find(n);if(it!=regByName.end())return it->second;RegInfo r;r.k=k;r.name=n;r.size=size;r.id=Hs("reg")(Hs(n).s).s;return regByName[n]=newReg(r);}
  int globReg(GlobalValue*g){auto it=gvReg.find(g);if(it!=gvReg.end())return it->second;RegInfo r;r.k=isa<Function>(g)?R_FUNC:R_GLOBAL;r.name=g->getName().str();r.gv=dyn_cast<GlobalVariable>(g);r.fn=dyn_cast<Function>(g);r.size=r.gv&&r.gv->getValueType()->isSized()?(i64)dl.getTypeAllocSize(r.gv->getValueType()):-1;r.id=Hs("glob")(Hs(r.name).s).s;return gvReg[g]=newReg(r);}
  Nd ptr(int r,i64 off){Leaf l;l.k=PTR;l.a=r;l.h=(u64)off;return M->leaf(l);}
  Nd nullp(){return ptr(0,0);}
  bool isInit(int r){auto k=reg[r].k;return k==R_ARG||k==R_DERIVED||k==R_UNK||(k==R_GLOBAL);}
  Nd initVal(int r,i64 off,int size,Type*ty){ // initial contents
    RegInfo ri=reg[r]; 
    if(ri.k==R_GLOBAL&&ri.gv&&ri.gv->hasInitializer()&&ri.gv->isConstant()){ Constant*c=ConstantFoldLoadFromConst_(ri.gv->getInitializer(),ty,off); if(c){Val v=constant(c); if(v.e.size()==1) return v.e[0];}
      if(!ty->isPointerTy()&&size<=8){ u64 b; if(constBits(ri.gv->getInitializer(),off,size,b)) return M->mkInt(b); } }
    if(!isInit(r)) return M->U;
    if(ty->isPointerTy()){ std::string n=ri.name+"@"+std::to_string(off); return ptr(regNamed(R_DERIVED,n,-1),0); }
    if(ty->isIntegerTy()&&ty->getIntegerBitWidth()<64&&size<8&&!ty->isIntegerTy(1)){ return M->mkSym(ri.name+"["+std::to_string(off)+"]i"+std::to_string(size)); }
    u64 h=Hs("init")(ri.id)((u64)off)(size).f(); M->initTab[h]={r,off,size}; 
    if(ty->isIntegerTy(1)||ty->isIntegerTy(8)) return M->mkSym(ri.name+"["+std::to_string(off)+"]i1");
    return M->mkNum(h,ty->isDoubleTy()||size==8?1:0); }
  bool constBits(Constant*c,i64 off,int size,u64&b){ // the bytes of a constant that spans several elements
    Constant*k=ConstantFoldLoadFromConst_(c,Type::getIntNTy(mod.getContext(),size*8),off); if(k&&isa<ConstantInt>(k)){ b=cast<ConstantInt>(k)->getZExtValue(); return true; }
    if(size==1||size%2) return false; u64 x,y; if(!constBits(c,off,size/2,x)||!constBits(c,off+size/2,size/2,y)) return false; b=x|y<<(4*size); return true; }
  Constant*ConstantFoldLoadFromConst_(Constant*c,Type*ty,i64 off){ // walk aggregate initialisers
    while(true){ Type*t=c->getType(); if(off==0&&t==ty) return c; if(isa<ConstantAggregateZero>(c)||c->isNullValue()) return Constant::getNullValue(ty);
      if(off==0&&!t->isAggregateType()&&dl.getTypeStoreSize(t)==dl.getTypeStoreSize(ty)) { if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ty->isDoubleTy()){double d;u64 v=ci->getZExtValue();memcpy(&d,&v,8);return ConstantFP::get(ty,d);} } if(auto*cf=dyn_cast<ConstantFP>(c)) if(ty->isIntegerTy()) return ConstantInt::get(ty,cf->getValueAPF().bitcastToAPInt().getZExtValue()); return nullptr; }
      if(auto*st=dyn_cast<StructType>(t)){ auto*sl=dl.getStructLayout(st); if(off<0||off>=(i64)sl->getSizeInBytes()) return nullptr; unsigned e=sl->getElementContainingOffset(off); c=c->getAggregateElement(e); off-=sl->getElementOffset(e); if(!c) return nullptr; continue; }
      if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); i64 es=dl.getTypeAllocSize(et); u64 n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); if(es==0||off<0||(u64)(off/es)>=n) return nullptr; c=c->getAggregateElement(off/es); off%=es; if(!c) return nullptr; continue; }
      return nullptr; } }
  RegP& regW(Mem&m,int r){ RegP&p=m.r[r]; if(!p){p=std::make_shared<RegSt>();p->freed=M->F;} else if(p.use_count()>1) p=std::make_shared<RegSt>(*p); return p; }
  // leaf splitting
  Nd part(Nd v,int vsize,int off,int size){ if(off==0&&size==vsize) return v; return M->app1(0,v,[&](Nd x)->Nd{ Leaf l=M->L(x); if(l.k==UND||l.k==ANY) return x;
      u64 bits; bool hasb=false; if(l.k==INT){bits=l.h;hasb=true;} else if(l.k==NUM&&(l.fl&4)){ if(vsize==8){memcpy(&bits,&l.dv,8);hasb=true;} else if(vsize==4){float f=l.dv;uint32_t b;memcpy(&b,&f,4);bits=b;hasb=true;} }
      if(hasb&&vsize<=8) return M->mkInt(Mgr::mask(bits>>(8*off),8*size));
      if(l.k==CAT){ int p=0; std::vector<std::pair<Nd,int>> sub; auto cs=M->cats[l.a]; for(auto&q:cs){ int a=std::max(p,off),b=std::min(p+q.second,off+size); if(a<b) sub.push_back({part(q.first,q.second,a-p,b-a),b-a}); p+=q.second; } return cat(sub); }
      if(l.k==NUM){ auto it=M->initTab.find(l.h); if(it!=M->initTab.end()){ auto o=it->second; u64 h=Hs("init")(reg[o.region].id)((u64)(o.off+off))(size).f(); M->initTab[h]={o.region,o.off+off,size}; return M->mkNum(h,0);} }
      return M->mkNum(Hs("part")(M->leafHash(x))(off)(size).f(),0); }); }
  Nd cat(const std::vector<std::pair<Nd,int>>&s){ if(s.size()==1) return s[0].first; bool allc=true; u64 v=0; int sh=0; for(auto&q:s){Leaf l=M->L(q.first); u64 b=0; if(l.k==INT)b=l.h; else if(l.k==NUM&&(l.fl&4)&&q.second==8)memcpy(&b,&l.dv,8); else if(l.k==NUM&&(l.fl&4)&&q.second==4){float f=l.dv;uint32_t x;memcpy(&x,&f,4);b=x;} else {allc=false;break;} if(sh<64) v|=b<<sh; sh+=8*q.second;}
    if(allc&&sh<=64) return M->mkInt(v);
    bool allu=true; for(auto&q:s) if(M->L(q.first).k!=UND) allu=false; if(allu) return M->U;
    // adjacent initial contents
    { auto it=M->L(s[0].first).k==NUM?M->initTab.find(M->L(s[0].first).h):M->initTab.end(); if(it!=M->initTab.end()){ auto o=it->second; i64 e=o.off; bool ok=true; for(auto&q:s){ Leaf l=M->L(q.first); auto jt=l.k==NUM?M->initTab.find(l.h):M->initTab.end(); if(jt==M->initTab.end()||jt->second.region!=o.region||jt->second.off!=e||jt->second.size!=q.second){ok=false;break;} e+=q.second; } if(ok&&(e-o.off==8||e-o.off==16)){ int sz=e-o.off; u64 h=Hs("init")(reg[o.region].id)((u64)o.off)(sz).f(); M->initTab[h]={o.region,o.off,sz}; return M->mkNum(h,sz==8?1:0); } } }
    auto it=M->catTab.find(s); int id; if(it==M->catTab.end()){M->cats.push_back(s);id=M->cats.size()-1;M->catTab[s]=id;} else id=it->second; Leaf l;l.k=CAT;l.a=id;return M->leaf(l); }
  // make cell boundaries at off and off+size
  void cut(RegSt&r,i64 at){ auto it=r.c.upper_bound(at); if(it==r.c.begin()) return; --it; i64 o=it->first; if(o==at||o+it->second.size<=at) return; Cell c=it->second; int k=at-o; Cell a=c,b=c; a.size=k; b.size=c.size-k; a.v=part(c.v,c.size,0,k); b.v=part(c.v,c.size,k,c.size-k); it->second=a; r.c[at]=b; }
  Nd conv(Nd v,Type*ty){ // reinterpret a loaded cell value for type ty
    if(ty->isFloatingPointTy()){ unsigned w=ty->getPrimitiveSizeInBits(); return M->app1(0,v,[&](Nd x)->Nd{ if(M->L(x).k==INT){Nd o;M->toNum(x,w,o);return o;} return x; }); }
    if(ty->isPointerTy()) return M->app1(0,v,[&](Nd x)->Nd{ Leaf l=M->L(x); if(l.k==INT&&l.h==0) return nullp(); if(l.k==NUM){ auto it=M->initTab.find(l.h); if(it!=M->initTab.end()&&it->second.size==8){ std::string n=reg[it->second.region].name+"@"+std::to_string(it->second.off); return ptr(regNamed(R_DERIVED,n,-1),0);} } return x; });
    if(ty->isIntegerTy()) { unsigned w=ty->getIntegerBitWidth(); return M->app1(0,v,[&](Nd x)->Nd{ Leaf l=M->L(x); if(l.k==INT) return M->mkInt(Mgr::mask(l.h,w)); if(l.k==NUM&&(l.fl&4)){u64 b; if(w==64){memcpy(&b,&l.dv,8);return M->mkInt(b);} if(w==32){float f=l.dv;uint32_t q;memcpy(&q,&f,4);return M->mkInt(q);} }
        if(l.k==NUM&&w<64&&w>=8){auto it=M->initTab.find(l.h); if(it!=M->initTab.end()) return M->mkSym(reg[it->second.region].name+"["+std::to_string(it->second.off)+"]i"+std::to_string(w/8));}
        return x; }); }
    return v; }
  Nd loadScalarAt(Mem&m,int r,i64 off,Type*ty){ int size=dl.getTypeStoreSize(ty); 
    auto ri=m.r.find(r); if(ri==m.r.end()||ri->second->c.empty()){ return initVal(r,off,size,ty); }
    RegSt&R=*ri->second; auto it=R.c.find(off); if(it!=R.c.end()&&it->second.size==size) return conv(it->second.v,ty);
    // overlap?
    auto lo=R.c.upper_bound(off); if(lo!=R.c.begin()) --lo; bool ov=false; for(auto j=lo;j!=R.c.end()&&j->first<off+size;++j) if(j->first+j->second.size>off) ov=true;
    if(!ov) return initVal(r,off,size,ty);
    if(lo->first<=off&&lo->first+lo->second.size>=off+size) return conv(part(lo->second.v,lo->second.size,off-lo->first,size),ty);
    RegP&W=regW(m,r); cut(*W,off); cut(*W,off+size); std::vector<Nd> vs; std::vector<int> sz; i64 p=off; while(p<off+size){ auto j=W->c.lower_bound(p); i64 nx=j==W->c.end()?off+size:std::min<i64>(j->first,off+size); if(nx>p){ int gs=nx-p; Type*gt=Type::getIntNTy(mod.getContext(),gs*8); vs.push_back(initVal(r,p,gs,gt)); sz.push_back(gs); p=nx; } else { vs.push_back(j->second.v); sz.push_back(j->second.size); p+=j->second.size; } }
    Nd c=M->appN(vs,[&](const std::vector<Nd>&x)->Nd{ std::vector<std::pair<Nd,int>> s; bool u=false; for(size_t k=0;k<x.size();k++){s.push_back({x[k],sz[k]}); if(M->L(x[k]).k==UND)u=true;} (void)u; return cat(s); });
    return conv(c,ty); }
  void storeScalarAt(Mem&m,int r,i64 off,int size,Nd v,int lc,Nd cond){ RegP&W=regW(m,r); cut(*W,off); cut(*W,off+size);
    if(cond!=M->T){ // conditional: merge with the old contents
      auto it=W->c.find(off); Nd old; if(it!=W->c.end()&&it->second.size==size) old=it->second.v; else { Type*ty=size==8?Type::getDoubleTy(mod.getContext()):size==4?Type::getFloatTy(mod.getContext()):(Type*)Type::getIntNTy(mod.getContext(),size*8); if(M->isLeaf(v)&&(M->L(v).k==LIN||M->L(v).k==INT)&&size<=8) ty=Type::getIntNTy(mod.getContext(),size*8); if(M->isLeaf(v)&&M->L(v).k==PTR)ty=PointerType::get(mod.getContext(),0); old=loadScalarAt(m,r,off,ty);} RegP&W2=regW(m,r); W2->c.erase(W2->c.lower_bound(off),W2->c.lower_bound(off+size)); W2->c[off]={size,M->ite(cond,v,old),true,lc}; return; }
    W->c.erase(W->c.lower_bound(off),W->c.lower_bound(off+size)); W->c[off]={size,v,true,lc}; }
  //---- access through pointer diagrams
  // visit the pointer leaves of p feasible under g
  void leaves(Nd p,Nd g,const std::function<void(Nd leaf,Nd cond)>&fn){ std::map<Nd,Nd> acc; std::function<void(Nd,Nd)> rec=[&](Nd n,Nd c){ if(c==M->F) return; if(M->isLeaf(n)){ auto it=acc.find(n); if(it==acc.end())acc[n]=c; else it->second=M->Or(it->second,c); return;} Nd v=M->varN(M->nd[n].var); rec(M->nd[n].hi,M->And(c,v)); rec(M->nd[n].lo,M->And(c,M->Not(v))); };
    if(M->isLeaf(p)){fn(p,g);return;} rec(M->constrain(p,g),g); for(auto&q:acc) fn(q.first,q.second); }
  // returns the accessible (region,off) or raises events; ok=false when no concrete location
  bool access(Nd leafn,Nd cond,i64 size,Mem&m,const Instruction*I,bool wr,int&r,i64&off,bool&symb){ Leaf l=M->L(leafn); symb=false; 
    if(l.k==UND){ event("uninitialised-pointer",cond,I); return false; }
    if(l.k==PTS){ r=l.a; symb=true; auto k=reg[r].k; if(k!=R_ALLOCA) accessCheck(r,cond,I,wr); return true; }
    if(l.k!=PTR){ if(guardMode){ r=unkReg(); symb=true; accessCheck(r,cond,I,wr); return true;} fail("memory access through a non-pointer value"); }
    r=l.a; off=(i64)l.h; auto&ri=reg[r];
    if(ri.k==R_NULL){ event("null-access",cond,I); return false; }
    if(ri.k==R_FUNC) fail("access to code");
    if(ri.size>=0&&(off<0||off+size>ri.size)){ event(wr?"out-of-bounds-write":"out-of-bounds-read",cond,I,ri.name+" offset "+std::to_string(off)+" size "+std::to_string(ri.size)); return false; }
    if(ri.k==R_HEAP){ auto it=m.r.find(r); if(it!=m.r.end()){ Nd bad=M->And(cond,it->second->freed); if(bad!=M->F) event("use-after-release",bad,I); } }
    if(wr&&ri.k==R_GLOBAL&&!inRef&&ri.name.find("vfstub_")==std::string::npos) event("global-write",cond,I,ri.name);
    if(ri.k!=R_ALLOCA&&ri.k!=R_GLOBAL) accessCheck(r,cond,I,wr);
    return true; }
  std::vector<std::pair<int,Nd>> accLog; 
  void accessCheck(int r,Nd cond,const Instruction*I,bool wr){ accesses++; if(guardMode&&require!=M->T){ auto&ri=reg[r]; if(ri.k==R_DERIVED||ri.k==R_UNK||(ri.k==R_ARG&&fpAccess(I))){ Nd bad=M->And(cond,M->Not(require)); if(bad!=M->F) event("unguarded-access",bad,I); } } }
  static bool fpAccess(const Instruction*I){ if(!I) return true; if(auto*l=dyn_cast<LoadInst>(I)) return l->getType()->isFloatingPointTy(); if(auto*s=dyn_cast<StoreInst>(I)) return s->getValueOperand()->getType()->isFloatingPointTy(); return true; }
  int unkReg(){ return regNamed(R_UNK,"unknown",-1); }
  Nd freshOf(Type*ty,const std::string&tag){ std::string n=tag+std::to_string(unkN++); if(ty->isPointerTy()) return ptr(unkReg(),0)==0?0:[&]{Lin l;l.t.push_back({M->sym(n),1});Leaf x;x.k=PTS;x.a=unkReg();x.h=M->linId(l);return M->leaf(x);}(); if(ty->isIntegerTy(1)) return M->varN(M->atom(BOOLA,Hs(n).f())); if(ty->isIntegerTy()) return M->mkSym(n); return M->mkNum(Hs("fresh")(Hs(n).s).f(),ty->isDoubleTy()?1:0); }
  Nd loadScalar(Mem&m,Nd p,Type*ty,Nd g,const Instruction*I){ int size=dl.getTypeStoreSize(ty); Nd pp=M->isLeaf(p)?p:M->constrain(p,g);
    std::map<Nd,Nd> val; leaves(pp,g,[&](Nd l,Nd c){ int r;i64 off;bool sy; if(!access(l,c,size,m,I,false,r,off,sy)){val[l]=M->U;return;} if(sy){ if(guardMode) val[l]=freshOf(ty,"ld"); else { Leaf lf=M->L(l); if(ty->isPointerTy()||!isInit(r)||m.r.count(r)) fail("load at a symbolic offset ("+reg[r].name+")"); val[l]=symInit(r,lf.h,ty);} return;} val[l]=loadScalarAt(m,r,off,ty); });
    if(M->isLeaf(pp)) return val.count(pp)?val[pp]:M->U; return M->app1(0,pp,[&](Nd x)->Nd{auto it=val.find(x);return it==val.end()?M->U:it->second;}); }
  Nd symInit(int r,u64 lin,Type*ty){ u64 h=Hs("symload")(reg[r].id)(M->linHash(M->lins[lin]))(dl.getTypeStoreSize(ty)).f(); if(ty->isIntegerTy()) return M->mkSym("sl"+std::to_string(h)); return M->mkNum(h,ty->isDoubleTy()?1:0); }
  void storeScalar(Mem&m,Nd p,Nd v,Type*ty,Nd g,const Instruction*I){ int size=dl.getTypeStoreSize(ty); stores++; int lc=loc(I); if(!M->isLeaf(p)) p=M->constrain(p,g);
    bool single=M->isLeaf(p); leaves(p,g,[&](Nd l,Nd c){ int r;i64 off;bool sy; if(!access(l,c,size,m,I,true,r,off,sy)) return; if(sy){ if(!guardMode) fail("store at a symbolic offset ("+reg[r].name+")"); havocReg(m,r); return; } storeScalarAt(m,r,off,size,v,lc,single?M->T:M->constrain(c,g)); }); }
  void havocReg(Mem&m,int r){ RegP&W=regW(m,r); for(auto&q:W->c){ Nd v=q.second.v; Type*t=q.second.size==8?Type::getDoubleTy(mod.getContext()):nullptr; (void)v; (void)t; q.second.v=M->mkNum(Hs("havoc")(unkN++).f(),1); q.second.written=true; } W->bulk=true; }
  //---- aggregates
  void flat(Type*t,i64 off,std::vector<std::pair<Type*,i64>>&o){ if(auto*s=dyn_cast<StructType>(t)){auto*sl=dl.getStructLayout(s);for(unsigned i=0;i<s->getNumElements();i++)flat(s->getElementType(i),off+sl->getElementOffset(i),o);} else if(auto*a=dyn_cast<ArrayType>(t)){i64 es=dl.getTypeAllocSize(a->getElementType());for(u64 i=0;i<a->getNumElements();i++)flat(a->getElementType(),off+i*es,o);} else if(auto*v=dyn_cast<FixedVectorType>(t)){i64 es=dl.getTypeAllocSize(v->getElementType());for(u64 i=0;i<v->getNumElements();i++)flat(v->getElementType(),off+i*es,o);} else o.push_back({t,off}); }
  unsigned nflat(Type*t){std::vector<std::pair<Type*,i64>> o;flat(t,0,o);return o.size();}
  Nd gep(Nd p,i64 add){ if(add==0) return p; return M->app1(0,p,[&](Nd x)->Nd{ Leaf l=M->L(x); if(l.k==PTR) return ptr(l.a,(i64)l.h+add); if(l.k==PTS){Lin q=M->lins[l.h];q.c+=add;Leaf y=l;y.h=M->linId(q);return M->leaf(y);} if(l.k==UND) return x; if(l.k==INT){return M->mkInt(l.h+add);} fail("pointer arithmetic on a non-pointer"); }); }
  Val load(Mem&m,Nd p,Type*ty,Nd g,const Instruction*I){ if(ty->isSingleValueType()&&!ty->isVectorTy()) return Val(loadScalar(m,p,ty,g,I)); std::vector<std::pair<Type*,i64>> fl; flat(ty,0,fl); Val v; for(auto&q:fl) v.e.push_back(loadScalar(m,gep(p,q.second),q.first,g,I)); return v; }
  void store(Mem&m,Nd p,const Val&v,Type*ty,Nd g,const Instruction*I){ if(ty->isSingleValueType()&&!ty->isVectorTy()){storeScalar(m,p,v.s(),ty,g,I);return;} std::vector<std::pair<Type*,i64>> fl; flat(ty,0,fl); for(size_t i=0;i<fl.size();i++) storeScalar(m,gep(p,fl[i].second),v.e[i],fl[i].first,g,I); }
  //---- constants
  std::unordered_map<Constant*,Val> dummy;
  Val constant(Constant*c){ Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)) return Val(M->mkInt(ci->getBitWidth()<=64?ci->getZExtValue():0));
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) return Val(M->mkFC(cf->getValueAPF().convertToDouble())); if(t->isFloatTy()) return Val(M->mkFC(cf->getValueAPF().convertToFloat(),true)); APFloat f=cf->getValueAPF(); bool lo; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&lo); return Val(M->mkFC(f.convertToDouble())); }
    if(isa<ConstantPointerNull>(c)) return Val(nullp());
    if(isa<UndefValue>(c)){ Val v; unsigned n=nflat(t); for(unsigned i=0;i<n;i++) v.e.push_back(M->U); return v; }
    if(auto*g=dyn_cast<GlobalValue>(c)){ if(auto*ga=dyn_cast<GlobalAlias>(g)) return constant(ga->getAliasee()); return Val(ptr(globReg(g),0)); }
    if(t->isAggregateType()||t->isVectorTy()){ Val v; unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++){Val e=constant(c->getAggregateElement(i));v.e.insert(v.e.end(),e.e.begin(),e.e.end());} return v; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){ if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(cast<GEPOperator>(ce)->accumulateConstantOffset(dl,off)) return Val(gep(constant(ce->getOperand(0)).s(),off.getSExtValue())); }
      if(ce->isCast()) return constant(ce->getOperand(0)); }
    std::string s; raw_string_ostream o(s); c->print(o); fail("constant "+o.str()); }
  //---- integer / float operations on leaves
  Nd opaqueInt(const std::string&n,Nd a,Nd b,unsigned w){ Leaf x=M->L(a),y=M->L(b); if(x.k==UND||y.k==UND) return M->U; u64 h=Hs(n)(M->leafHash(a))(M->leafHash(b)).f(); if(w==1) return M->varN(M->atom(BOOLA,h)); return M->mkSym("o"+std::to_string(h)); }
  Nd intBin(unsigned opc,Nd A,Nd B,unsigned w){ return M->app2(O_BASE+opc*66+w,A,B,[&](Nd a,Nd b)->Nd{ Leaf x=M->L(a),y=M->L(b); if(x.k==ANY||y.k==ANY) return x.k==ANY?a:b;
      if(x.k==UND||y.k==UND){ // masking with a constant zero is defined
        if(opc==Instruction::And&&((x.k==INT&&x.h==0)||(y.k==INT&&y.h==0))) return M->mkInt(0); if(opc==Instruction::Mul&&((x.k==INT&&x.h==0)||(y.k==INT&&y.h==0))) return M->mkInt(0); return M->U; }
      if(x.k==INT&&y.k==INT){ APInt p(w,x.h),q(w,y.h); switch(opc){case Instruction::Add:return M->mkInt((p+q).getZExtValue());case Instruction::Sub:return M->mkInt((p-q).getZExtValue());case Instruction::Mul:return M->mkInt((p*q).getZExtValue());
          case Instruction::And:return M->mkInt((p&q).getZExtValue());case Instruction::Or:return M->mkInt((p|q).getZExtValue());case Instruction::Xor:return M->mkInt((p^q).getZExtValue());
          case Instruction::Shl:return M->mkInt(p.shl(q).getZExtValue());case Instruction::LShr:return M->mkInt(p.lshr(q).getZExtValue());case Instruction::AShr:return M->mkInt(p.ashr(q).getZExtValue());
          case Instruction::UDiv:if(!q.isZero())return M->mkInt(p.udiv(q).getZExtValue());break;case Instruction::SDiv:if(!q.isZero())return M->mkInt(p.sdiv(q).getZExtValue());break;
          case Instruction::URem:if(!q.isZero())return M->mkInt(p.urem(q).getZExtValue());break;case Instruction::SRem:if(!q.isZero())return M->mkInt(p.srem(q).getZExtValue());break;} return M->U; }
      if(x.k==PTR&&y.k==INT&&opc==Instruction::Add) return ptr(x.a,(i64)x.h+(i64)y.h); if(y.k==PTR&&x.k==INT&&opc==Instruction::Add) return ptr(y.a,(i64)y.h+(i64)x.h); if(x.k==PTR&&y.k==INT&&opc==Instruction::Sub) return ptr(x.a,(i64)x.h-(i64)y.h);
      if(x.k==PTR&&y.k==PTR&&opc==Instruction::Sub&&x.a==y.a) return M->mkInt(x.h-y.h);
      if((x.k==PTS||x.k==PTR)&&(y.k==PTS||y.k==PTR)&&x.a==y.a&&opc==Instruction::Sub){ Lin p,q; if(x.k==PTS)p=M->lins[x.h]; else p.c=(i64)x.h; if(y.k==PTS)q=M->lins[y.h]; else q.c=(i64)y.h; return M->mkLin(Mgr::ladd(p,q,-1),w); }
      if((opc==Instruction::Or||opc==Instruction::Add||opc==Instruction::Xor||opc==Instruction::Sub)&&y.k==INT&&y.h==0) return a; if((opc==Instruction::Or||opc==Instruction::Add||opc==Instruction::Xor)&&x.k==INT&&x.h==0) return b;
      if(opc==Instruction::And&&((x.k==INT&&x.h==0)||(y.k==INT&&y.h==0))) return M->mkInt(0);
      Lin p,q; bool lp=M->getLin(a,w,p),lq=M->getLin(b,w,q);
      if(lp&&lq){ switch(opc){case Instruction::Add:return M->mkLin(Mgr::ladd(p,q,1),w);case Instruction::Sub:return M->mkLin(Mgr::ladd(p,q,-1),w);
          case Instruction::Mul: if(p.t.empty()){Lin z;return M->mkLin(Mgr::ladd(z,q,p.c),w);} if(q.t.empty()){Lin z;return M->mkLin(Mgr::ladd(z,p,q.c),w);} {u64 h=fmul_(M->linHash(p),M->linHash(q)); return M->mkSym("prod"+std::to_string(h));}
          case Instruction::Shl: if(q.t.empty()&&q.c>=0&&q.c<40){Lin z;return M->mkLin(Mgr::ladd(z,p,1LL<<q.c),w);} break;
          case Instruction::SDiv: case Instruction::AShr: if(q.t.empty()&&q.c>0){ i64 d=opc==Instruction::SDiv?q.c:(1LL<<q.c); bool div=p.c%d==0; for(auto&e:p.t) if(e.second%d) div=false; if(div){Lin r=p;r.c/=d;for(auto&e:r.t)e.second/=d;return M->mkLin(r,w);} } break; } }
      return opaqueInt("iop"+std::to_string(opc),a,b,w); }); }
  Nd icmp(CmpInst::Predicate pr,Nd A,Nd B,unsigned w){ return M->app2(O_BASE+8000+pr*66+w,A,B,[&](Nd a,Nd b)->Nd{ Leaf x=M->L(a),y=M->L(b); if(x.k==UND||y.k==UND) return M->U; auto B1=[&](bool v){return v?M->T:M->F;};
      if(x.k==INT&&y.k==INT) return B1(ICmpInst::compare(APInt(w,x.h),APInt(w,y.h),pr));
      bool xp=x.k==PTR||x.k==PTS,yp=y.k==PTR||y.k==PTS; if(xp&&y.k==INT&&y.h==0){y=M->L(nullp());yp=true;} if(yp&&x.k==INT&&x.h==0){x=M->L(nullp());xp=true;}
      if(xp&&yp){ if(x.a!=y.a){ auto known=[&](RK k){return k!=R_DERIVED&&k!=R_UNK;}; bool kn=(x.a==0||y.a==0)?true:(known(reg[x.a].k)||known(reg[y.a].k)); if(guardMode&&x.a!=0&&y.a!=0&&(reg[x.a].k==R_UNK||reg[y.a].k==R_UNK)) kn=false; if(kn||(reg[x.a].k==R_DERIVED&&reg[y.a].k==R_DERIVED)){ if(pr==CmpInst::ICMP_EQ) return M->F; if(pr==CmpInst::ICMP_NE) return M->T; } Nd r=M->varN(M->atom(BOOLA,Hs("pcmp")(pr)(M->leafHash(a))(M->leafHash(b)).f())); return r; }
        Lin p,q; if(x.k==PTS)p=M->lins[x.h]; else p.c=(i64)x.h; if(y.k==PTS)q=M->lins[y.h]; else q.c=(i64)y.h; return lcmp(pr,p,q,true); }
      Lin p,q; if(M->getLin(a,w,p)&&M->getLin(b,w,q)) return lcmp(pr,p,q,false);
      bool inv=false; auto P=pr; if(P==CmpInst::ICMP_NE){P=CmpInst::ICMP_EQ;inv=true;} Nd r=M->varN(M->atom(BOOLA,Hs("icmp")(P)(M->leafHash(a))(M->leafHash(b)).f())); return inv?M->Not(r):r; }); }
  Nd lcmp(CmpInst::Predicate pr,const Lin&p,const Lin&q,bool ptrs){ Lin d=Mgr::ladd(p,q,-1); Lin nd=Mgr::ladd(Lin(),d,-1); Lin dm=d;dm.c-=1; Lin ndm=nd;ndm.c-=1; auto ge=[&](const Lin&x){return M->geLin(x);}; auto lt=[&]{return ge(ndm);}; auto le=[&]{return ge(nd);};
    auto ult=[&](bool orEq){ if(ptrs) return orEq?le():lt(); Nd pn=ge(p),qn=ge(q); Nd c=orEq?le():lt(); return M->ite(pn,M->ite(qn,c,M->T),M->ite(qn,M->F,c)); };
    switch(pr){case CmpInst::ICMP_EQ:return M->And(ge(d),ge(nd));case CmpInst::ICMP_NE:return M->Not(M->And(ge(d),ge(nd)));case CmpInst::ICMP_SLT:return lt();case CmpInst::ICMP_SLE:return le();case CmpInst::ICMP_SGT:return M->Not(le());case CmpInst::ICMP_SGE:return M->Not(lt());
      case CmpInst::ICMP_ULT:return ult(false);case CmpInst::ICMP_ULE:return ult(true);case CmpInst::ICMP_UGT:return M->Not(ult(true));case CmpInst::ICMP_UGE:return M->Not(ult(false));default:break;} return M->U; }
  Nd num2(Nd a,Nd b,unsigned w,const std::function<Nd(const Leaf&,const Leaf&)>&f){ Leaf x=M->L(a),y=M->L(b); if(x.k==ANY) return a; if(y.k==ANY) return b; if(x.k==UND||y.k==UND) return M->U; Nd p,q; if(!M->toNum(a,w,p)||!M->toNum(b,w,q)) return M->U; Leaf lp=M->L(p),lq=M->L(q); return f(lp,lq); }
  Nd fbin(unsigned opc,Nd A,Nd B,unsigned w,Nd g,const Instruction*I){ 
    if(opc==Instruction::FDiv){ // division: record denominators
      Nd bb=M->isLeaf(B)?B:M->constrain(B,g); leaves(bb,g,[&](Nd l,Nd c){ Leaf y=M->L(l); Nd q; if(y.k==UND||y.k==ANY) return; if(!M->toNum(l,w,q)) return; y=M->L(q); if(y.h==0) event("division-by-zero",c,I); else if(!(y.fl&4)) divs.push_back({c,std::min(y.h,fneg_(y.h))}); }); B=bb; }
    int code=opc==Instruction::FAdd?O_FADD:opc==Instruction::FSub?O_FSUB:opc==Instruction::FMul?O_FMUL:opc==Instruction::FDiv?O_FDIV:O_FREM;
    return M->app2(code*128+w,A,B,[&](Nd a,Nd b)->Nd{ return num2(a,b,w,[&](const Leaf&x,const Leaf&y)->Nd{ unsigned fl=(x.fl|y.fl)&3; bool cv=(x.fl&4)&&(y.fl&4); 
      if(((x.fl&4)&&x.dv!=x.dv)||((y.fl&4)&&y.dv!=y.dv)) return M->mkFC(std::nan(""));
      if(opc==Instruction::FMul||opc==Instruction::FDiv){ if((x.fl&4)&&x.dv>0&&std::isfinite(x.dv)) M->addPos(x.h); if((y.fl&4)&&y.dv>0&&std::isfinite(y.dv)) M->addPos(y.h); }
      double dv=0; u64 h=0; switch(opc){case Instruction::FAdd:h=fadd_(x.h,y.h);dv=x.dv+y.dv;break;case Instruction::FSub:h=fsub_(x.h,y.h);dv=x.dv-y.dv;break;case Instruction::FMul:h=fmul_(x.h,y.h);dv=x.dv*y.dv;break;
        case Instruction::FDiv: if(y.h==0) return x.h==0?M->mkFC(std::nan("")):M->mkNum(Hs("div0")(x.h).f(),fl); if(cv&&std::isinf(y.dv)) return M->mkFC(0); h=fmul_(x.h,finv_(y.h));dv=x.dv/y.dv;break;
        default: return M->mkNum(Hs("frem")(x.h)(y.h).f(),fl);} 
      if(cv&&w==32) dv=(float)dv; if(cv&&!std::isfinite(dv)) return M->mkFC(dv); if(!cv&&(opc==Instruction::FMul||opc==Instruction::FDiv)&&(((x.fl&8)&&(y.fl&4)&&y.dv>0)||((y.fl&8)&&(x.fl&4)&&x.dv>0&&opc==Instruction::FMul))) fl|=8; return M->mkNum(h,fl,cv,dv); }); }); }
  Nd fneg(Nd A,unsigned w){return M->app1(O_FNEG*128+w,A,[&](Nd a)->Nd{Leaf l=M->L(a); if(l.k==UND||l.k==ANY) return a; Nd q; if(!M->toNum(a,w,q)) return M->U; Leaf x=M->L(q); return M->mkNum(fneg_(x.h),x.fl&3,x.fl&4,-x.dv);});}
  void sgn(const Leaf&x,const Leaf&y,Nd&zero,Nd&pos){ if((x.fl&4)&&(y.fl&4)){zero=x.dv==y.dv?M->T:M->F;pos=x.dv>y.dv?M->T:M->F;return;} if((y.fl&4)&&y.dv==INFINITY&&!(x.fl&4)&&!M->nanOn){zero=M->F;pos=M->F;return;} if((x.fl&4)&&x.dv==INFINITY&&!(y.fl&4)&&!M->nanOn){zero=M->F;pos=M->T;return;} if((y.fl&4)&&y.dv==-INFINITY&&!(x.fl&4)&&!M->nanOn){zero=M->F;pos=M->T;return;} if((x.fl&4)&&x.dv==-INFINITY&&!(y.fl&4)&&!M->nanOn){zero=M->F;pos=M->F;return;}
    bool xn=(x.fl&8)||((x.fl&4)&&x.dv>=0),yn=(y.fl&8)||((y.fl&4)&&y.dv>=0); u64 d=fsub_(x.h,y.h); if(d==0){zero=M->T;pos=M->F;return;}
    if(xn&&yn){ if((y.fl&4)&&y.dv==0){ Nd p; M->bound(x.h,fmul_(x.h,x.h),0,true); M->sign(x.h,zero,p); pos=M->Not(zero); return; } if((x.fl&4)&&x.dv==0){ Nd p; M->bound(y.h,fmul_(y.h,y.h),0,true); M->sign(y.h,zero,p); pos=M->F; return; } { u64 c; bool fp; if(M->findSign(d,c,fp)){ M->sign(d,zero,pos); return; } } d=fmul_(d,fadd_(x.h,y.h)); if(d==0){zero=M->T;pos=M->F;return;} if(y.fl&4) M->bound(d,fmul_(x.h,x.h),y.dv*y.dv,true); else if(x.fl&4) M->bound(fneg_(d),fmul_(y.h,y.h),x.dv*x.dv,true); M->sign(d,zero,pos); return; }
    else if(xn&&(y.fl&4)&&y.dv<0){zero=M->F;pos=M->T;return;} else if(yn&&(x.fl&4)&&x.dv<0){zero=M->F;pos=M->F;return;}
    if(y.fl&4) M->bound(d,x.h,y.dv,false); else if(x.fl&4) M->bound(fneg_(d),y.h,x.dv,false);
    M->sign(d,zero,pos); }
  Nd fcmp(CmpInst::Predicate pr,Nd A,Nd B,unsigned w){ return M->app2(O_FCMP*128+pr*130+w,A,B,[&](Nd a,Nd b)->Nd{ if(pr==CmpInst::FCMP_FALSE) return M->F; if(pr==CmpInst::FCMP_TRUE) return M->T; return num2(a,b,w,[&](const Leaf&x,const Leaf&y)->Nd{ 
      bool xn=(x.fl&4)&&x.dv!=x.dv,yn=(y.fl&4)&&y.dv!=y.dv; Nd nan=M->F; if(xn||yn) nan=M->T; else if(M->nanOn){ if(!(x.fl&4)) nan=M->varN(M->atom(NANA,std::min(x.h,fneg_(x.h)))); if(!(y.fl&4)&&y.h!=x.h) nan=M->Or(nan,M->varN(M->atom(NANA,std::min(y.h,fneg_(y.h))))); }
      Nd z,p; if(nan==M->T){z=p=M->F;} else sgn(x,y,z,p); Nd n=M->ite(z,M->F,M->Not(p)); Nd r; bool ord; switch(pr){
        case CmpInst::FCMP_OEQ:r=z;ord=true;break;case CmpInst::FCMP_OGT:r=p;ord=true;break;case CmpInst::FCMP_OGE:r=M->Or(z,p);ord=true;break;case CmpInst::FCMP_OLT:r=n;ord=true;break;case CmpInst::FCMP_OLE:r=M->Or(z,n);ord=true;break;case CmpInst::FCMP_ONE:r=M->Not(z);ord=true;break;case CmpInst::FCMP_ORD:return M->Not(nan);
        case CmpInst::FCMP_UNO:return nan;case CmpInst::FCMP_UEQ:r=z;ord=false;break;case CmpInst::FCMP_UGT:r=p;ord=false;break;case CmpInst::FCMP_UGE:r=M->Or(z,p);ord=false;break;case CmpInst::FCMP_ULT:r=n;ord=false;break;case CmpInst::FCMP_ULE:r=M->Or(z,n);ord=false;break;case CmpInst::FCMP_UNE:r=M->Not(z);ord=false;break;default:return M->U;}
      return ord?M->And(M->Not(nan),r):M->Or(nan,r); }); }); }
  Nd num1(const char*nm,Nd A,unsigned w,const std::function<Nd(const Leaf&)>&f){ (void)nm; return M->app1(0,A,[&](Nd a)->Nd{Leaf l=M->L(a); if(l.k==UND||l.k==ANY) return a; Nd q; if(!M->toNum(a,w,q)) return M->U; Leaf x=M->L(q); return f(x);}); }
  Nd fabs_(Nd A,unsigned w){ return num1("fabs",A,w,[&](const Leaf&x)->Nd{ if(x.fl&4) return M->mkNum(x.dv<0?fneg_(x.h):x.h,x.fl,true,fabs(x.dv)); Leaf z;z.k=NUM;z.fl=4; Nd ze,po; sgn(x,z,ze,po); if(x.fl&8) return M->mkNum(x.h,x.fl); Nd n=M->ite(ze,M->F,M->Not(po)); return M->ite_(n,M->mkNum(fneg_(x.h),x.fl|8),M->mkNum(x.h,x.fl|8)); }); }
  Nd sqrt_(Nd A,unsigned w){ return num1("sqrt",A,w,[&](const Leaf&x)->Nd{ if((x.fl&4)){ if(x.dv<0) return M->mkFC(std::nan("")); double s=w==32?sqrtf(x.dv):sqrt(x.dv); Leaf c=M->L(M->mkFC(s,w==32)); if(fmul_(c.h,c.h)==x.h) return M->mkNum(c.h,0,true,s); }
      M->sqrts++; u64 r=fpow_(x.h,(PR+1)/4); if(!M->nums.count(r)&&!M->nums.count(fneg_(r))) M->roots.insert(r); /* the root of a square of something already known may be its negative */ if(fmul_(r,r)!=x.h) M->badRes++; return (x.fl&4)?M->mkNum(r,0,true,sqrt(x.dv)):M->mkNum(r,(x.fl&3)|8); }); }
  Nd fn1(const char*name,Nd A,unsigned w){ std::string n=name; if(n=="fabs") return fabs_(A,w); if(n=="sqrt") return sqrt_(A,w);
    return num1(name,A,w,[&](const Leaf&x)->Nd{ if(n=="sin"||n=="cos"||n=="tan"){ if(x.h==0) return n=="cos"?M->mkFC(1):M->mkFC(0); bool neg=x.h>fneg_(x.h); u64 c=neg?fneg_(x.h):x.h; u64 t=Hs("trig")(c).f(); u64 t2=fmul_(t,t); u64 iv=finv_(fadd_(1,t2)); u64 s=fmul_(fmul_(2,t),iv),co=fmul_(fsub_(1,t2),iv); if(neg)s=fneg_(s); return M->mkNum(n=="sin"?s:n=="cos"?co:fmul_(s,finv_(co)),x.fl&3); }
      if(n=="exp"){ if(x.h==0) return M->mkFC(1); auto it=M->logArg.find(x.h); if(it!=M->logArg.end()) return M->mkNum(it->second,x.fl&3); it=M->logArg.find(fneg_(x.h)); if(it!=M->logArg.end()) return M->mkNum(finv_(it->second),x.fl&3); bool neg=x.h>fneg_(x.h); u64 c=neg?fneg_(x.h):x.h; u64 r=Hs("exp")(c).f(); if(neg)r=finv_(r); M->expArg[r]=x.h; return M->mkNum(r,x.fl&3);} 
      if(n=="log"){ if(x.h==1) return M->mkFC(0); auto it=M->expArg.find(x.h); if(it!=M->expArg.end()) return M->mkNum(it->second,x.fl&3); u64 iv=finv_(x.h); bool neg=x.h>iv; u64 r=Hs("log")(neg?iv:x.h).f(); if(neg) r=fneg_(r); M->logArg[r]=x.h; return M->mkNum(r,x.fl&3);} 
      if(n=="log2"){ if(x.h==0) return M->mkFC(-INFINITY); if((x.fl&4)&&x.dv>0) return w==32?M->mkFC(log2f(x.dv),true):M->mkFC(log2(x.dv)); }
      if((x.fl&4)){ double v=x.dv; if(n=="ceil") return M->mkFC(ceil(v)); if(n=="floor") return M->mkFC(floor(v)); }
      if(n=="asin"||n=="atan"){ if(x.h==0) return M->mkFC(0); bool neg=x.h>fneg_(x.h); u64 r=Hs(n)(neg?fneg_(x.h):x.h).f(); return M->mkNum(neg?fneg_(r):r,x.fl&3);} 
      return M->mkNum(Hs(n)(x.h).f(),x.fl&3); }); }
  Nd fn2(const std::string&n,Nd A,Nd B,unsigned w,Nd g,const Instruction*I){
    if(n=="fmin"||n=="fmax"){ Nd c=fcmp(CmpInst::FCMP_OLT,A,B,w); return n=="fmin"?M->ite(c,A,B):M->ite(c,B,A); }
    if(n=="copysign"){ Nd a=fabs_(A,w); Nd c=fcmp(CmpInst::FCMP_OLT,B,M->mkFC(0),w); return M->ite(c,fneg(a,w),a); }
    if(n=="hypot"){ return sqrt_(fbin(Instruction::FAdd,fbin(Instruction::FMul,A,A,w,g,I),fbin(Instruction::FMul,B,B,w,g,I),w,g,I),w); }
    if(n=="pow") return M->app2(0,A,B,[&](Nd a,Nd b)->Nd{ return num2(a,b,w,[&](const Leaf&x,const Leaf&y)->Nd{ if((y.fl&4)&&y.dv==floor(y.dv)&&fabs(y.dv)<64){ u64 h=fpow_(x.h,(u64)fabs(y.dv)); if(y.dv<0)h=finv_(h); return M->mkNum(h,(x.fl)&3,x.fl&4,(x.fl&4)?pow(x.dv,y.dv):0);} if(x.h==0&&(y.fl&4)&&y.dv>0) return M->mkFC(0); if((y.fl&4)&&y.dv==0.5) return sqrt_(M->mkNum(x.h,x.fl,x.fl&4,x.dv),w); return M->mkNum(Hs("pow")(x.h)(y.h).f(),(x.fl|y.fl)&3); }); });
    return M->app2(0,A,B,[&](Nd a,Nd b)->Nd{ return num2(a,b,w,[&](const Leaf&x,const Leaf&y)->Nd{ if(n=="atan2"&&x.h==0&&(y.fl&4)&&y.dv>0) return M->mkFC(0); return M->mkNum(Hs(n)(x.h)(y.h).f(),(x.fl|y.fl)&3); }); }); }

#include "vf_exec.inc"
};
#include "vf_main.inc"
