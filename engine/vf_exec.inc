// ---- function execution over the abstract domain (included inside struct Engine)
struct Edge{BasicBlock*from;Nd g;Mem m;std::vector<Val> phis;};
struct Ret{Nd g;Mem m;Val v;};
struct Frame{Function*F;FnInfo*fi;std::unordered_map<const Value*,Val> v;std::map<BasicBlock*,std::vector<Edge>> pend;std::vector<Ret> rets;std::vector<int> allocas;};

FnInfo*info(Function*F){ auto&p=fi[F]; if(!p){ p=std::make_unique<FnInfo>(); p->dt=std::make_unique<DominatorTree>(*F); p->li=std::make_unique<LoopInfo>(*p->dt); ReversePostOrderTraversal<Function*> rt(F); for(auto*b:rt){p->idx[b]=p->rpo.size();p->rpo.push_back(b);}
    // irreducible?
    for(auto*b:p->rpo) for(auto*s:successors(b)) if(p->idx[s]<=p->idx[b]&&!(p->li->getLoopFor(b)&&p->dt->dominates(s,b))) { p->rpo.clear(); return p.get(); } }
  return p.get(); }

RegP mergeReg(int id,RegP a,Nd ga,RegP b,Nd gb){ // value under ga from a, under gb from b
  if(a==b) return a; Nd c=M->constrain(ga,M->Or(ga,gb));
  auto r=std::make_shared<RegSt>(); RegSt x=*a,y=*b;
  for(auto&q:b->c){cut(x,q.first);cut(x,q.first+q.second.size);} for(auto&q:x.c){cut(y,q.first);cut(y,q.first+q.second.size);} for(auto&q:y.c){cut(x,q.first);cut(x,q.first+q.second.size);}
  r->freed=M->ite(c,x.freed,y.freed); r->bulk=x.bulk||y.bulk;
  auto def=[&](i64 off,const Cell&o)->Nd{ Type*ty=o.size==8?Type::getDoubleTy(mod.getContext()):o.size==4?Type::getFloatTy(mod.getContext()):(Type*)Type::getIntNTy(mod.getContext(),o.size*8);
    Nd s=o.v; while(!M->isLeaf(s)) s=M->nd[s].lo; auto k=M->L(s).k; if(k==PTR||k==PTS) ty=PointerType::get(mod.getContext(),0); else if((k==LIN||k==INT)) ty=Type::getIntNTy(mod.getContext(),o.size*8); return initVal(id,off,o.size,ty); };
  auto i=x.c.begin(),j=y.c.begin(); while(i!=x.c.end()||j!=y.c.end()){ if(j==y.c.end()||(i!=x.c.end()&&i->first<j->first)){ Nd d=def(i->first,i->second); r->c[i->first]={i->second.size,M->ite(c,i->second.v,d),i->second.written,i->second.loc}; ++i; }
    else if(i==x.c.end()||j->first<i->first){ Nd d=def(j->first,j->second); r->c[j->first]={j->second.size,M->ite(c,d,j->second.v),j->second.written,j->second.loc}; ++j; }
    else { Cell n=i->second; n.size=std::min(i->second.size,j->second.size); if(i->second.v!=j->second.v){ n.v=M->ite(c,i->second.v,j->second.v); if(!j->second.written) n.loc=i->second.loc; else n.loc=j->second.loc; } n.written|=j->second.written; r->c[i->first]=n; ++i;++j; } }
  return r; }
Mem mergeMem(const Mem&a,Nd ga,const Mem&b,Nd gb){ Mem o; o.trace=M->ite(M->constrain(ga,M->Or(ga,gb)),a.trace,b.trace); if(a.inpos!=b.inpos) fail("input position differs between paths"); o.inpos=a.inpos; auto i=a.r.begin();auto j=b.r.begin();
  while(i!=a.r.end()||j!=b.r.end()){ if(j==b.r.end()||(i!=a.r.end()&&i->first<j->first)){ auto k=reg[i->first].k; if(k==R_ALLOCA||k==R_HEAP) o.r[i->first]=i->second; else {auto e=std::make_shared<RegSt>();e->freed=M->F;o.r[i->first]=mergeReg(i->first,i->second,ga,e,gb);} ++i; }
    else if(i==a.r.end()||j->first<i->first){ auto k=reg[j->first].k; if(k==R_ALLOCA||k==R_HEAP) o.r[j->first]=j->second; else {auto e=std::make_shared<RegSt>();e->freed=M->F;o.r[j->first]=mergeReg(j->first,e,ga,j->second,gb);} ++j; }
    else { o.r[i->first]=mergeReg(i->first,i->second,ga,j->second,gb); ++i;++j; } } return o; }
Val mergeVal(const Val&a,Nd ga,const Val&b,Nd gb){ Nd c=M->constrain(ga,M->Or(ga,gb)); Val r; for(size_t k=0;k<std::max(a.e.size(),b.e.size());k++) r.e.push_back(M->ite(c,k<a.e.size()?a.e[k]:M->U,k<b.e.size()?b.e[k]:M->U)); return r; }

Val get(Frame&f,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return constant(const_cast<Constant*>(c)); auto it=f.v.find(v); if(it==f.v.end()){ Val r; unsigned n=nflat(v->getType()); for(unsigned i=0;i<n;i++) r.e.push_back(M->U); return r;} return it->second; }
void pushEdge(Frame&f,BasicBlock*from,BasicBlock*to,Nd g,const Mem&m){ if(g==M->F) return; Edge e; e.from=from; e.g=g; e.m=m; for(auto&p:to->phis()) e.phis.push_back(get(f,p.getIncomingValueForBlock(from))); 
  auto&v=f.pend[to]; if(!v.empty()&&to->phis().empty()){ Edge&x=v[0]; Edge n; n.from=from; n.m=mergeMem(x.m,x.g,e.m,e.g); n.g=M->Or(x.g,e.g); v[0]=std::move(n); return; } v.push_back(std::move(e)); }
bool symbolicBranch=false;

void runBlock(Frame&f,BasicBlock*bb){ auto it=f.pend.find(bb); if(it==f.pend.end()||it->second.empty()) return; std::vector<Edge> es=std::move(it->second); f.pend.erase(bb);
  Nd g=es[0].g; Mem m=std::move(es[0].m); std::vector<Val> ph=es[0].phis; for(size_t k=1;k<es.size();k++){ for(size_t q=0;q<ph.size();q++) ph[q]=mergeVal(ph[q],g,es[k].phis[q],es[k].g); m=mergeMem(m,g,es[k].m,es[k].g); g=M->Or(g,es[k].g); }
  if(g==M->F) return; { size_t q=0; for(auto&p:bb->phis()) f.v[&p]=ph[q++]; }
  for(auto&I:*bb){ if(isa<PHINode>(I)) continue; if(++steps>maxSteps) fail("too many steps"); if((steps&1023)==0&&std::chrono::steady_clock::now()>deadline) fail("time limit"); stack.back().second=&I; 
    if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isUnconditional()){pushEdge(f,bb,br->getSuccessor(0),g,m);return;} Nd c=get(f,br->getCondition()).s(); curLocAtom(&I); c=M->isLeaf(c)?c:M->constrain(c,g); 
        // undefined conditions
        Nd und=M->app1(0,c,[&](Nd x){return M->L(x).k==UND?M->T:M->F;}); und=M->And(und,g); if(und!=M->F){ event("uninitialised-branch",und,&I); c=M->app1(0,c,[&](Nd x){return M->L(x).k==UND?M->varN(M->atom(BOOLA,Hs("undbr")(unkN++).f())):x;}); }
        c=M->app1(0,c,[&](Nd x){Leaf l=M->L(x); if(l.k==INT) return l.h&1?M->T:M->F; return M->varN(M->atom(BOOLA,Hs("br")(M->leafHash(x)).f()));});
        Nd gt=M->And(g,c),gf=M->And(g,M->Not(c)); if(gt!=M->F&&gf!=M->F&&br->getSuccessor(0)!=br->getSuccessor(1)) { if(prune(gt)) gt=M->F; else if(prune(gf)) gf=M->F; }
        if(br->getSuccessor(0)==br->getSuccessor(1)) pushEdge(f,bb,br->getSuccessor(0),g,m); else { pushEdge(f,bb,br->getSuccessor(0),gt,m); pushEdge(f,bb,br->getSuccessor(1),gf,m);} return; }
    if(auto*sw=dyn_cast<SwitchInst>(&I)){ Nd c=get(f,sw->getCondition()).s(); unsigned w=sw->getCondition()->getType()->getIntegerBitWidth(); Nd rest=g; std::map<BasicBlock*,Nd> tg; for(auto cs:sw->cases()){ Nd e=icmp(CmpInst::ICMP_EQ,c,M->mkInt(cs.getCaseValue()->getZExtValue()),w); e=M->app1(0,e,[&](Nd x){return M->L(x).k==UND?M->F:x;}); Nd gc=M->And(rest,e); auto&t=tg.emplace(cs.getCaseSuccessor(),M->F).first->second; t=M->Or(t,gc); rest=M->And(rest,M->Not(e)); } auto&t=tg.emplace(sw->getDefaultDest(),M->F).first->second; t=M->Or(t,rest); for(auto&q:tg) pushEdge(f,bb,q.first,q.second,m); return; }
    if(auto*rt=dyn_cast<ReturnInst>(&I)){ Ret r; r.g=g; r.m=std::move(m); if(rt->getReturnValue()) r.v=get(f,rt->getReturnValue()); 
        if(!f.rets.empty()){ Ret&x=f.rets[0]; x.v=mergeVal(x.v,x.g,r.v,r.g); x.m=mergeMem(x.m,x.g,r.m,r.g); x.g=M->Or(x.g,r.g);} else f.rets.push_back(std::move(r)); return; }
    if(isa<UnreachableInst>(&I)){ event("missing-return",g,&I); return; }
    inst(f,I,m,g); if(g==M->F) return; } }
void curLocAtom(const Instruction*I){ int l=loc(I); M->curLoc=locs[l]; }
// cheap theory pruning of a guard (only small diagrams)
bool prune(Nd g);

void runScope(Frame&f,Loop*L){ for(auto*bb:f.fi->rpo){ Loop*bl=f.fi->li->getLoopFor(bb); if(L&&!L->contains(bb)) continue; if(bl==L) runBlock(f,bb); else if(bl&&bl->getHeader()==bb&&bl->getParentLoop()==L) runLoop(f,bl); } }
void runLoop(Frame&f,Loop*L){ BasicBlock*H=L->getHeader(); int symb=0; for(int it=0;;it++){ auto p=f.pend.find(H); if(p==f.pend.end()||p->second.empty()) return; Nd gin=M->F; for(auto&e:p->second) gin=M->Or(gin,e.g); if(gin==M->F||(it>1&&symb&&prune(gin))){f.pend.erase(H);return;}
    if(it>loopCap){ if(limitMode){loopCapHit=true; event("loop-not-bounded",gin,H->getTerminator()); f.pend.erase(H); return;} fail("loop not bounded by constants at "+locs[loc(H->getTerminator())]); }
    std::vector<Edge> saved; std::map<BasicBlock*,std::vector<Edge>> savedP; std::vector<Ret> savedR; if(guardMode){saved=p->second;savedP=f.pend;savedR=f.rets;}
    Nd exits0=exitGuard(f,L);
    runScopeOnce(f,L);
    auto q=f.pend.find(H); bool back=q!=f.pend.end()&&!q->second.empty(); Nd exits1=exitGuard(f,L); bool ex=exits1!=exits0;
    if(back&&ex){ symb++; if(guardMode){ f.pend=savedP; f.rets=savedR; havocLoop(f,L,saved); return; } if(!limitMode&&symb>symCap) fail("loop with a data-dependent number of iterations at "+locs[loc(H->getTerminator())]); if(limitMode&&symb>symCap){loopCapHit=true;event("loop-not-bounded",gin,H->getTerminator());f.pend.erase(H);return;} } } }
int symCap=40;
Nd exitGuard(Frame&f,Loop*L){ Nd g=M->F; SmallVector<BasicBlock*,8> ex; L->getExitBlocks(ex); std::set<BasicBlock*> s(ex.begin(),ex.end()); for(auto*b:s){auto it=f.pend.find(b); if(it!=f.pend.end()) for(auto&e:it->second) g=M->Or(g,e.g);} for(auto&r:f.rets) g=M->Or(g,r.g); return g; }
void runScopeOnce(Frame&f,Loop*L){ BasicBlock*H=L->getHeader(); for(auto*bb:f.fi->rpo){ if(!L->contains(bb)) continue; Loop*bl=f.fi->li->getLoopFor(bb); if(bl==L) runBlock(f,bb); else if(bl&&bl->getHeader()==bb&&bl->getParentLoop()==L) runLoop(f,bl); } (void)H; }
void havocLoop(Frame&f,Loop*L,std::vector<Edge> entry){ BasicBlock*H=L->getHeader(); Nd g=entry[0].g; Mem m=entry[0].m; for(size_t k=1;k<entry.size();k++){ m=mergeMem(m,g,entry[k].m,entry[k].g); g=M->Or(g,entry[k].g);} 
  std::set<std::pair<int,i64>> hv; std::map<std::pair<int,i64>,std::pair<int,Nd>> samp; 
  auto ev0=events; auto ab0=abortG; auto at0=abortAt; bool refined=false; std::map<std::pair<int,i64>,int> mono; /* 1: never decreases, -1: never increases */
  for(int pass=0;pass<9;pass++){ Mem hm=m; Nd gg=g; std::map<std::pair<int,i64>,Nd> cur; for(auto&h:hv){ auto s=samp[h]; Nd x=s.second; while(!M->isLeaf(x)) x=M->nd[x].lo; auto k=M->L(x).k; Type*ty=k==PTR||k==PTS?(Type*)PointerType::get(mod.getContext(),0):(k==INT||k==LIN)?(Type*)Type::getIntNTy(mod.getContext(),s.first*8):s.first==4?Type::getFloatTy(mod.getContext()):Type::getDoubleTy(mod.getContext()); Nd fv=freshOf(ty,"hv"); if(k==PTR||k==PTS){ Nd e0=loadScalarAt(m,h.first,h.second,ty); auto one=[&](Nd n,int&r){ std::set<Nd> seen; bool ok=true; std::function<void(Nd)> rec=[&](Nd n){ if(!seen.insert(n).second) return; if(!M->isLeaf(n)){rec(M->nd[n].lo);rec(M->nd[n].hi);return;} Leaf l=M->L(n); if((l.k!=PTR&&l.k!=PTS)||(r!=-1&&r!=l.a)) ok=false; else r=l.a; }; rec(n); return ok; }; int r=-1; if(one(e0,r)&&one(s.second,r)){ Lin l; l.t.push_back({M->sym("hp"+std::to_string(unkN++)),1}); Leaf x; x.k=PTS; x.a=r; x.h=M->linId(l); fv=M->leaf(x); } } if(k==INT||k==LIN){ cur[h]=fv; auto mo=mono.find(h); if(mo!=mono.end()){ Nd e0=loadScalarAt(m,h.first,h.second,ty); gg=M->And(gg,icmp(mo->second>0?CmpInst::ICMP_SGE:CmpInst::ICMP_SLE,fv,e0,s.first*8)); } } storeScalarAt(hm,h.first,h.second,s.first,fv,-1,M->T); }
    Edge e; e.from=entry[0].from; e.g=gg; e.m=hm; for(auto&p:H->phis()) e.phis.push_back(Val(freshOf(p.getType(),"ph"))); auto sp=f.pend; auto sr=f.rets; f.pend[H]={e}; runScopeOnce(f,L);
    bool grew=false; auto q=f.pend.find(H); if(q!=f.pend.end()) for(auto&be:q->second) for(auto&rr:be.m.r){ if(!hm.r.count(rr.first)&&(reg[rr.first].k==R_ALLOCA||reg[rr.first].k==R_HEAP)) continue; auto o=hm.r.find(rr.first); if(o!=hm.r.end()&&o->second==rr.second) continue; for(auto&c:rr.second->c){ Nd ov=0; bool have=false; if(o!=hm.r.end()){auto oc=o->second->c.find(c.first); if(oc!=o->second->c.end()&&oc->second.size==c.second.size){ov=oc->second.v;have=true;}} if(!have||ov!=c.second.v){ auto key=std::make_pair(rr.first,c.first); if(!hv.count(key)){hv.insert(key);samp[key]={c.second.size,c.second.v};grew=true;} } } }
    if(!grew&&!refined&&q!=f.pend.end()){ for(auto&c:cur){ Lin b; if(!M->getLin(c.second,samp[c.first].first*8,b)) continue; bool up=true,dn=true; for(auto&be:q->second){ auto ri=be.m.r.find(c.first.first); if(ri==be.m.r.end()){up=dn=false;break;} auto ci=ri->second->c.find(c.first.second); if(ci==ri->second->c.end()){up=dn=false;break;} std::set<Nd> seen; std::function<void(Nd)> rec=[&](Nd n){ if(!seen.insert(n).second) return; if(!M->isLeaf(n)){rec(M->nd[n].lo);rec(M->nd[n].hi);return;} Lin v; if(!M->getLin(n,samp[c.first].first*8,v)){up=dn=false;return;} v=Mgr::ladd(v,b,-1); if(!v.t.empty()){up=dn=false;return;} if(v.c<0) up=false; if(v.c>0) dn=false; }; rec(ci->second.v); }
        if(up||dn) mono[c.first]=up?1:-1; }
      if(!mono.empty()){ refined=true; events=ev0; abortG=ab0; abortAt=at0; f.pend=sp; f.rets=sr; f.pend.erase(H); continue; } }
    f.pend.erase(H); if(!grew){ return; } if(pass>=7) fail("loop state did not stabilise"); f.pend=sp; f.rets=sr; f.pend.erase(H); } }

bool runFunction(Function*F,std::vector<Val> args,Mem&m,Nd&g,Val&rv){ 
  if(stack.size()>200) fail("call depth"); for(size_t i=0,c=0;i<stack.size();i++){ if(stack[i].first==F&&++c>6) fail("recursion in "+demangle(F->getName().str())); }
  FnInfo*in=info(F); if(in->rpo.empty()) fail("irreducible control flow in "+F->getName().str());
  if(auto*sp=F->getSubprogram()){ std::string fl=norm(fileOf(sp)); if(fl.compare(0,5,"TooN/")==0&&!inRef) covered.insert(fl+":"+std::to_string(sp->getLine())+" "+sp->getName().str()); }
  Frame f; f.F=F; f.fi=in; size_t k=0; stack.push_back({F,nullptr}); calls++;
  for(auto&a:F->args()){ Val v=k<args.size()?args[k]:Val(M->U); if(a.hasByValAttr()){ Type*t=a.getParamByValType(); int r=newAlloca(dl.getTypeAllocSize(t),"byval"); f.allocas.push_back(r); copyBytes(m,ptr(r,0),v.s(),dl.getTypeAllocSize(t),g,nullptr); v=Val(ptr(r,0)); } f.v[&a]=v; k++; }
  Edge e; e.from=nullptr;e.g=g;e.m=std::move(m); f.pend[&F->getEntryBlock()].push_back(std::move(e)); 
  runScope(f,nullptr);
  stack.pop_back();
  if(f.rets.empty()){ g=M->F; m=Mem(); m.trace=M->U; return false; }
  g=f.rets[0].g; m=std::move(f.rets[0].m); rv=f.rets[0].v; if(M->L(M->F).k!=INT) abort(); for(int r:f.allocas) m.r.erase(r); return g!=M->F; }
int newAlloca(i64 sz,const std::string&n){ RegInfo r; r.k=R_ALLOCA; r.size=sz; r.name=n; r.id=Hs("alloca")(allocN).s; return newReg(r); }
void copyBytes(Mem&m,Nd d,Nd s,i64 n,Nd g,const Instruction*I){ // word-wise following source cell boundaries
  if(n==0) return; int lc=I?loc(I):-1; struct Piece{i64 o;int sz;Nd v;}; std::vector<Piece> ps; 
  Nd ss=M->isLeaf(s)?s:M->constrain(s,g); std::set<i64> cuts; bool bad=false; cuts.insert(0);cuts.insert(n);
  auto addCuts=[&](Nd q,bool wr){ leaves(q,g,[&](Nd l,Nd c){ int r;i64 off;bool sy; if(!access(l,c,n,m,I?I:stack.back().second,wr,r,off,sy)){bad=true;return;} if(sy) { if(guardMode){ if(wr) havocReg(m,r); bad=true; return;} fail("block copy at a symbolic offset"); } auto it=m.r.find(r); if(it!=m.r.end()) for(auto&cc:it->second->c){ i64 a=cc.first-off,b=a+cc.second.size; if(a>0&&a<n)cuts.insert(a); if(b>0&&b<n)cuts.insert(b);} }); };
  Nd dd=M->isLeaf(d)?d:M->constrain(d,g); addCuts(ss,false); addCuts(dd,true); if(bad) return;
  for(i64 k=8;k<n;k+=8) cuts.insert(k);
  std::vector<i64> cv(cuts.begin(),cuts.end()); for(size_t i=0;i+1<cv.size();i++){ i64 o=cv[i]; int sz=cv[i+1]-o; Type*ty=sz==8?Type::getDoubleTy(mod.getContext()):sz==4?Type::getFloatTy(mod.getContext()):(Type*)Type::getIntNTy(mod.getContext(),sz*8);
    // read raw cell values (no conversion)
    std::map<Nd,Nd> val; leaves(ss,g,[&](Nd l,Nd c){ Leaf L=M->L(l); val[l]=rawAt(m,L.a,(i64)L.h+o,sz,ty); }); Nd v=M->isLeaf(ss)?val[ss]:M->app1(0,ss,[&](Nd x)->Nd{auto it=val.find(x);return it==val.end()?M->U:it->second;}); ps.push_back({o,sz,v}); }
  bool single=M->isLeaf(dd); for(auto&p:ps) leaves(dd,g,[&](Nd l,Nd c){ Leaf L=M->L(l); storeScalarAt(m,L.a,(i64)L.h+p.o,p.sz,p.v,lc,single?M->T:M->constrain(c,g)); }); }
Nd rawAt(Mem&m,int r,i64 off,int sz,Type*ty){ auto it=m.r.find(r); if(it!=m.r.end()){ auto c=it->second->c.find(off); if(c!=it->second->c.end()&&c->second.size==sz) return c->second.v; } return loadScalarAt(m,r,off,ty); }
void setBytes(Mem&m,Nd d,Nd byte,i64 n,Nd g,const Instruction*I){ Leaf b=M->isLeaf(byte)?M->L(byte):Leaf(); u64 w=0; bool con=b.k==INT; if(con) for(int i=0;i<8;i++) w=w<<8|(b.h&255); int lc=loc(I); Nd dd=M->isLeaf(d)?d:M->constrain(d,g); bool single=M->isLeaf(dd);
  leaves(dd,g,[&](Nd l,Nd c){ int r;i64 off;bool sy; if(n==0) return; if(!access(l,c,n,m,I,true,r,off,sy)) return; if(sy) fail("memset at a symbolic offset"); for(i64 o=0;o<n;){ int sz=n-o>=8?8:n-o>=4?4:1; storeScalarAt(m,r,off+o,sz,con?M->mkInt(Mgr::mask(w,sz*8)):M->U,lc,single?M->T:M->constrain(c,g)); o+=sz; } }); }
Nd hashAll(const char*n,const std::vector<Nd>&v){ Nd acc=M->mkNum(Hs(n)(v.size()).f(),0); for(Nd x:v) acc=M->app2(0,acc,x,[&](Nd a,Nd b)->Nd{ if(M->L(a).k==UND) return a; Leaf lb=M->L(b); if(lb.k==UND) return b; u64 hb; if(lb.k==NUM) hb=lb.h; else if(lb.k==INT) hb=M->iconst((i64)lb.h); else if(lb.k==LIN) hb=M->linHash(M->lins[lb.a]); else hb=M->leafHash(b); return M->mkNum(Hs("acc")(M->L(a).h)(hb).f(),(M->L(a).fl|(lb.k==NUM?lb.fl:0))&3); }); return acc; }
std::vector<Nd> readArr(Mem&m,Nd p,int n,Type*ty,Nd g,const Instruction*I){ std::vector<Nd> r; i64 s=dl.getTypeStoreSize(ty); for(int i=0;i<n;i++) r.push_back(loadScalar(m,gep(p,i*s),ty,g,I)); return r; }
i64 constInt(Nd v,Nd g,unsigned w,const char*what){ if(!M->isLeaf(v)) v=M->constrain(v,g); if(M->isLeaf(v)&&M->L(v).k==UND) event("uninitialised-argument",g,stack.empty()?nullptr:stack.back().second,what); if(!M->isLeaf(v)||M->L(v).k!=INT) fail(std::string(what)+" is not a constant"); return Mgr::sx(M->L(v).h,w); }

void inst(Frame&f,Instruction&I,Mem&m,Nd&g){ Type*ty=I.getType();
  auto set=[&](const Val&v){f.v[&I]=v;}; auto op=[&](unsigned k){return get(f,I.getOperand(k));};
  switch(I.getOpcode()){
  case Instruction::Alloca:{ auto&A=cast<AllocaInst>(I); i64 n=dl.getTypeAllocSize(A.getAllocatedType()); if(A.isArrayAllocation()) n*=constInt(op(0).s(),g,64,"alloca size"); int r=newAlloca(n,A.getName().str()); f.allocas.push_back(r); set(Val(ptr(r,0))); return; }
  case Instruction::Load: curLocAtom(&I); set(load(m,op(0).s(),ty,g,&I)); return;
  case Instruction::Store: store(m,op(1).s(),op(0),I.getOperand(0)->getType(),g,&I); return;
  case Instruction::GetElementPtr:{ Nd p=op(0).s(); auto&G=cast<GetElementPtrInst>(I); i64 co=0; for(gep_type_iterator gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Val iv=get(f,gi.getOperand()); if(auto*st=gi.getStructTypeOrNull()){ co+=dl.getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
        i64 es=dl.getTypeAllocSize(gi.getIndexedType()); unsigned w=gi.getOperand()->getType()->getIntegerBitWidth(); Nd ix=iv.s(); if(M->isLeaf(ix)&&M->L(ix).k==INT){co+=Mgr::sx(M->L(ix).h,w)*es;continue;}
        p=M->app2(0,p,ix,[&](Nd a,Nd b)->Nd{ Leaf x=M->L(a),y=M->L(b); if(x.k==UND||y.k==UND) return M->U; if(y.k==INT) return gep(a,Mgr::sx(y.h,w)*es); Lin q; if(!M->getLin(b,w,q)){ q=Lin(); q.t.push_back({M->sym("ix"+std::to_string(M->leafHash(b))),1}); } Lin base; int r; if(x.k==PTR){base.c=(i64)x.h;r=x.a;} else if(x.k==PTS){base=M->lins[x.h];r=x.a;} else if(guardMode){r=unkReg();} else fail("indexing a non-pointer"); Leaf z;z.k=PTS;z.a=r;Lin s=Mgr::ladd(base,q,es); if(s.t.empty()) return ptr(r,s.c); z.h=M->linId(s); return M->leaf(z); }); }
      set(Val(gep(p,co))); return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast: set(op(0)); return;
  case Instruction::BitCast:{ set(op(0)); return; }
  case Instruction::Trunc:{ unsigned w=ty->getIntegerBitWidth(); set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k==INT) return M->mkInt(Mgr::mask(l.h,w)); if(l.k==LIN&&w==1) return M->varN(M->atom(BOOLA,Hs("tr1")(M->leafHash(x)).f())); return x;}))); return; }
  case Instruction::ZExt: set(op(0)); return;
  case Instruction::SExt:{ unsigned w0=I.getOperand(0)->getType()->getScalarSizeInBits(),w=ty->getScalarSizeInBits(); set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k==INT) return M->mkInt(Mgr::mask(Mgr::sx(l.h,w0),w)); return x;}))); return; }
  case Instruction::FPTrunc: set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k!=NUM) { Nd q; if(l.k==UND||l.k==ANY||!M->toNum(x,64,q)) return x; l=M->L(q);} if(l.fl&4){ return M->mkNum(l.h,l.fl,true,(double)(float)l.dv);} return M->mkNum(l.h,(l.fl&1)?(l.fl|2):l.fl); }))); return;
  case Instruction::FPExt: set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k!=NUM){ Nd q; if(l.k==UND||l.k==ANY||!M->toNum(x,32,q)) return x; l=M->L(q);} if(l.fl&4) return M->mkNum(l.h,l.fl,true,l.dv); if(l.fl&2) return M->mkNum(Hs("narrowed")(l.h).f(),1|(l.fl&8)); return M->mkNum(l.h,l.fl); }))); return;
  case Instruction::SIToFP: case Instruction::UIToFP:{ unsigned w=I.getOperand(0)->getType()->getScalarSizeInBits(); bool sg=I.getOpcode()==Instruction::SIToFP; set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k==UND||l.k==ANY) return x; if(l.k==INT) return M->mkFC(sg?(double)Mgr::sx(l.h,w):(double)l.h); Lin q; if(M->getLin(x,w,q)) return M->mkNum(M->linHash(q),0); return M->mkNum(Hs("itofp")(M->leafHash(x)).f(),0);}))); return; }
  case Instruction::FPToSI: case Instruction::FPToUI:{ unsigned w=ty->getIntegerBitWidth(); set(Val(M->app1(0,op(0).s(),[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k==UND||l.k==ANY) return x; if(l.k==NUM&&(l.fl&4)){ if(!(fabs(l.dv)<9e18)){event("float-to-int-overflow",g,&I);return M->U;} return M->mkInt(Mgr::mask((u64)(i64)l.dv,w)); } return M->mkSym("fptosi"+std::to_string(M->leafHash(x)));}))); return; }
  case Instruction::ICmp:{ auto&C=cast<ICmpInst>(I); unsigned w=C.getOperand(0)->getType()->isPointerTy()?64:C.getOperand(0)->getType()->getScalarSizeInBits(); curLocAtom(&I); set(Val(icmp(C.getPredicate(),op(0).s(),op(1).s(),w))); return; }
  case Instruction::FCmp:{ auto&C=cast<FCmpInst>(I); curLocAtom(&I); set(Val(fcmp(C.getPredicate(),op(0).s(),op(1).s(),C.getOperand(0)->getType()->getScalarSizeInBits()))); return; }
  case Instruction::Select:{ Nd c=op(0).s(); Val a=op(1),b=op(2),r; for(size_t k=0;k<a.e.size();k++) r.e.push_back(M->ite(c,a.e[k],b.e[k])); set(r); return; }
  case Instruction::FNeg:{ Val a=op(0),r; for(Nd x:a.e) r.e.push_back(fneg(x,ty->getScalarSizeInBits())); set(r); return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:{ Val a=op(0),b=op(1),r; for(size_t k=0;k<a.e.size();k++) r.e.push_back(fbin(I.getOpcode(),a.e[k],b.e[k],ty->getScalarSizeInBits(),g,&I)); set(r); return; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:{ Val a=op(0),b=op(1),r; for(size_t k=0;k<a.e.size();k++) r.e.push_back(intBin(I.getOpcode(),a.e[k],b.e[k],ty->getScalarSizeInBits())); if(wideMode&&guardMode&&ty->isIntegerTy(32)&&isa<OverflowingBinaryOperator>(&I)&&I.hasNoSignedWrap()) for(size_t k=0;k<r.e.size();k++){ Nd out=M->app1(0,r.e[k],[&](Nd x)->Nd{ Lin v; if(M->L(x).k!=LIN||!M->getLin(x,64,v)) return M->F; for(auto&q:v.t) if(M->syms[q.first].first.compare(0,3,"arg")) return M->F; Lin hi=Mgr::ladd(Lin(),v,1),lo=Mgr::ladd(Lin(),v,-1); hi.c-=2147483648LL; lo.c-=2147483649LL; return M->Or(M->geLin(hi),M->geLin(lo)); }); Nd bad=M->And(g,out); if(bad!=M->F&&!prune(bad)){ event("integer-overflow",bad,&I); g=M->And(g,M->Not(out)); } } set(r); return; }
  case Instruction::ExtractValue:{ auto&E=cast<ExtractValueInst>(I); auto [o,n]=aggIdx(E.getAggregateOperand()->getType(),E.getIndices()); Val a=op(0),r; for(unsigned k=0;k<n;k++) r.e.push_back(a.e[o+k]); set(r); return; }
  case Instruction::InsertValue:{ auto&E=cast<InsertValueInst>(I); auto [o,n]=aggIdx(E.getAggregateOperand()->getType(),E.getIndices()); Val a=op(0),b=op(1); for(unsigned k=0;k<n;k++) a.e[o+k]=b.e[k]; set(a); return; }
  case Instruction::ExtractElement:{ Val a=op(0); set(Val(a.e[constInt(op(1).s(),g,64,"vector index")])); return; }
  case Instruction::InsertElement:{ Val a=op(0); a.e[constInt(op(2).s(),g,64,"vector index")]=op(1).s(); set(a); return; }
  case Instruction::ShuffleVector:{ auto&S=cast<ShuffleVectorInst>(I); Val a=op(0),b=op(1),r; for(int k:S.getShuffleMask()) r.e.push_back(k<0?M->U:(size_t)k<a.e.size()?a.e[k]:b.e[k-a.e.size()]); set(r); return; }
  case Instruction::Call:{ Val r=call(f,cast<CallBase>(&I),m,g); if(!ty->isVoidTy()) set(r); return; }
  default:{ std::string s; raw_string_ostream o(s); I.print(o); fail("instruction"+o.str()); } } }
std::pair<unsigned,unsigned> aggIdx(Type*t,ArrayRef<unsigned> ix){ unsigned o=0; for(unsigned i:ix){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++)o+=nflat(s->getElementType(k)); t=s->getElementType(i);} else { Type*e=t->getArrayElementType(); o+=i*nflat(e); t=e; } } return {o,nflat(t)}; }

void doAbort(Nd&g,const Instruction*I){ abortG=M->Or(abortG,g); Nd&a=abortAt.emplace(loc(I),M->F).first->second; a=M->Or(a,g); g=M->F; }
int newHeap(Nd size,Nd g,const Instruction*I){ RegInfo r; r.k=R_HEAP; Nd s=M->isLeaf(size)?size:M->constrain(size,g); r.size=M->isLeaf(s)&&M->L(s).k==INT?(i64)M->L(s).h:-1; if(r.size>(i64)1<<40) r.size=-1; r.name="heap"; r.loc=loc(I); r.id=Hs("heap")(allocN++).s; int id=newReg(r); return id; }
void release(Mem&m,Nd p,Nd g,const Instruction*I){ Nd pp=M->isLeaf(p)?p:M->constrain(p,g); leaves(pp,g,[&](Nd l,Nd c){ Leaf L=M->L(l); if(L.k==PTR&&L.a==0&&L.h==0) return; if(L.k==UND){event("release-of-uninitialised-pointer",c,I);return;} if(L.k!=PTR||reg[L.a].k!=R_HEAP||L.h!=0){ if(L.k==PTR&&(reg[L.a].k==R_DERIVED||reg[L.a].k==R_UNK)) return; event("invalid-release",c,I); return;} RegP&W=regW(m,L.a); Nd bad=M->And(c,W->freed); if(bad!=M->F) event("double-release",bad,I); W->freed=M->Or(W->freed,M->constrain(c,g)==M->T?M->T:c); }); }

Val call(Frame&f,CallBase*C,Mem&m,Nd&g){ std::vector<Val> a; for(auto&x:C->args()) { if(x->getType()->isMetadataTy()) {a.push_back(Val());continue;} a.push_back(get(f,x)); }
  Function*F=dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); if(!F){ Nd p=get(f,C->getCalledOperand()).s(); if(!M->isLeaf(p)) p=M->constrain(p,g); if(M->isLeaf(p)&&M->L(p).k==PTR&&reg[M->L(p).a].k==R_FUNC) F=reg[M->L(p).a].fn; else fail("indirect call"); }
  Type*ty=C->getType(); if(F->isDeclaration()) if(auto*md=mod.getFunction(("vfmodel_"+F->getName()).str())) F=md; StringRef n=F->getName(); // a witness unit may supply the documented behaviour of an external routine
  if(F->isIntrinsic()) return intrinsic(*cast<IntrinsicInst>(C),a,m,g);
  if(auto r=builtin(n.str(),C,a,m,g)) return *r;
  if(!F->isDeclaration()){ Val rv; runFunction(F,a,m,g,rv); stack.back().second=C; if(rv.e.empty()&&!ty->isVoidTy()){unsigned q=nflat(ty);for(unsigned i=0;i<q;i++)rv.e.push_back(M->U);} return rv; }
  if(F->doesNotReturn()||C->doesNotReturn()){ doAbort(g,C); return Val(M->U); }
  fail("call of external function "+demangle(n.str())); }

Val intrinsic(IntrinsicInst&I,std::vector<Val>&a,Mem&m,Nd&g){ Type*ty=I.getType(); unsigned w=ty->isVoidTy()?64:ty->getScalarSizeInBits();
  switch(I.getIntrinsicID()){
  case Intrinsic::lifetime_start:{ Nd p=a[1].s(); if(M->isLeaf(p)&&M->L(p).k==PTR&&reg[M->L(p).a].k==R_ALLOCA) m.r.erase(M->L(p).a); return Val(); }
  case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return Val(nullp());
  case Intrinsic::trap: case Intrinsic::debugtrap: doAbort(g,&I); return Val(M->U);
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
  case Intrinsic::is_constant: return Val(M->F);
  case Intrinsic::objectsize: return Val(M->mkInt(~0ULL));
  case Intrinsic::stacksave: return Val(nullp()); case Intrinsic::stackrestore: return Val();
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ Nd n=a[2].s(); if(guardMode&&(!M->isLeaf(n)||M->L(n).k!=INT)){ Nd dd=a[0].s(); leaves(dd,g,[&](Nd l,Nd c){ int r;i64 o;bool sy; if(access(l,c,0,m,&I,true,r,o,sy)) havocReg(m,r); }); return Val(); } copyBytes(m,a[0].s(),a[1].s(),constInt(n,g,64,"copy length"),g,&I); return Val(); }
  case Intrinsic::memset: case Intrinsic::memset_inline: setBytes(m,a[0].s(),a[1].s(),constInt(a[2].s(),g,64,"set length"),g,&I); return Val();
  case Intrinsic::fabs:{Val r; for(Nd x:a[0].e) r.e.push_back(fabs_(x,w)); return r;} case Intrinsic::sqrt:{Val r; for(Nd x:a[0].e) r.e.push_back(sqrt_(x,w)); return r;}
  case Intrinsic::sin: return fn1("sin",a[0].s(),w); case Intrinsic::cos: return fn1("cos",a[0].s(),w); case Intrinsic::exp: return fn1("exp",a[0].s(),w); case Intrinsic::log: return fn1("log",a[0].s(),w); case Intrinsic::log2: return fn1("log2",a[0].s(),w); case Intrinsic::floor: return fn1("floor",a[0].s(),w); case Intrinsic::ceil: return fn1("ceil",a[0].s(),w); case Intrinsic::round: return fn1("round",a[0].s(),w); case Intrinsic::trunc: return fn1("truncf",a[0].s(),w);
  case Intrinsic::pow: return fn2("pow",a[0].s(),a[1].s(),w,g,&I); case Intrinsic::copysign: return fn2("copysign",a[0].s(),a[1].s(),w,g,&I); case Intrinsic::minnum: return fn2("fmin",a[0].s(),a[1].s(),w,g,&I); case Intrinsic::maxnum: return fn2("fmax",a[0].s(),a[1].s(),w,g,&I);
  case Intrinsic::fmuladd: case Intrinsic::fma:{ Val r; for(size_t k=0;k<a[0].e.size();k++) r.e.push_back(fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0].e[k],a[1].e[k],w,g,&I),a[2].e[k],w,g,&I)); return r; }
  case Intrinsic::abs:{ Nd x=a[0].s(); Nd c=icmp(CmpInst::ICMP_SLT,x,M->mkInt(0),w); return Val(M->ite(c,intBin(Instruction::Sub,M->mkInt(0),x,w),x)); }
  case Intrinsic::smax:{Nd c=icmp(CmpInst::ICMP_SGT,a[0].s(),a[1].s(),w);return Val(M->ite(c,a[0].s(),a[1].s()));} case Intrinsic::smin:{Nd c=icmp(CmpInst::ICMP_SLT,a[0].s(),a[1].s(),w);return Val(M->ite(c,a[0].s(),a[1].s()));}
  case Intrinsic::umax:{Nd c=icmp(CmpInst::ICMP_UGT,a[0].s(),a[1].s(),w);return Val(M->ite(c,a[0].s(),a[1].s()));} case Intrinsic::umin:{Nd c=icmp(CmpInst::ICMP_ULT,a[0].s(),a[1].s(),w);return Val(M->ite(c,a[0].s(),a[1].s()));}
  case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:{ auto id=I.getIntrinsicID(); unsigned o=(id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow)?Instruction::Mul:(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?Instruction::Add:Instruction::Sub; unsigned bw=ty->getStructElementType(0)->getIntegerBitWidth(); Val r; r.e.push_back(intBin(o,a[0].s(),a[1].s(),bw)); r.e.push_back(M->F); return r; }
  case Intrinsic::is_fpclass:{ u64 mask=cast<ConstantInt>(I.getArgOperand(1))->getZExtValue(); unsigned aw=I.getArgOperand(0)->getType()->getScalarSizeInBits(); Nd nan=fcmp(CmpInst::FCMP_UNO,a[0].s(),a[0].s(),aw); if((mask&0x3FF)==0x3) return Val(nan); if((mask&0x3FF)==0x3FC) return Val(M->Not(nan)); Nd ab=fabs_(a[0].s(),aw); Nd inf=fcmp(CmpInst::FCMP_OEQ,ab,M->mkFC(INFINITY),aw); if(mask==0x204) return Val(inf); if(mask==0x1F8) return Val(M->And(M->Not(nan),M->Not(inf))); fail("is.fpclass mask "+std::to_string(mask)); }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: { auto id=I.getIntrinsicID(); u64 x=(u64)constInt(a[0].s(),g,64,"bit count"); if(w<64) x&=(1ULL<<w)-1; u64 r=0; if(id==Intrinsic::ctpop) r=__builtin_popcountll(x); else if(id==Intrinsic::bswap){ for(unsigned k=0;k<w/8;k++) r|=((x>>(8*k))&255)<<(w-8-8*k); } else { r=w; for(unsigned k=0;k<w;k++){ unsigned b=id==Intrinsic::ctlz?w-1-k:k; if((x>>b)&1){ r=k; break; } } } return Val(M->mkInt(r)); }
  default: fail("intrinsic "+I.getCalledFunction()->getName().str()); } }

std::optional<Val> builtin(const std::string&n,CallBase*C,std::vector<Val>&a,Mem&m,Nd&g){ Type*ty=C->getType();
  static const std::map<std::string,std::string> f1={{"sin","sin"},{"cos","cos"},{"tan","tan"},{"asin","asin"},{"acos","acos"},{"atan","atan"},{"exp","exp"},{"log","log"},{"sqrt","sqrt"},{"fabs","fabs"},{"floor","floor"},{"ceil","ceil"},{"round","round"},{"trunc","truncf"},{"cbrt","cbrt"},{"sinh","sinh"},{"cosh","cosh"},{"tanh","tanh"},{"log2","log2"},{"log10","log10"},{"expm1","expm1"},{"log1p","log1p"},{"exp2","exp2"}};
  static const std::set<std::string> f2={"atan2","pow","fmod","hypot","fmin","fmax","copysign","fdim","remainder"};
  bool mathTy=ty->isFloatingPointTy();
  if(mathTy){ unsigned w=ty->getScalarSizeInBits(); std::string b=n; if(!f1.count(b)&&!f2.count(b)&&b.size()>1&&(b.back()=='f'||b.back()=='l')) b.pop_back(); if(a.size()==1&&f1.count(b)&&C->getCalledFunction()&&C->getCalledFunction()->isDeclaration()) return Val(fn1(f1.at(b).c_str(),a[0].s(),w)); if(a.size()==2&&f2.count(b)&&C->getArgOperand(0)->getType()->isFloatingPointTy()&&C->getArgOperand(1)->getType()->isFloatingPointTy()) return Val(fn2(b,a[0].s(),a[1].s(),w,g,C)); 
    if((b=="ldexp"||b=="scalbn")&&a.size()==2) return Val(M->appN({a[0].s(),a[1].s()},[&](const std::vector<Nd>&x)->Nd{Leaf l=M->L(x[0]),e=M->L(x[1]); if(e.k==INT&&l.k==NUM){ i64 k=Mgr::sx(e.h,32); u64 h=fmul_(l.h,fpow_(k>=0?2:finv_(2),std::llabs(k))); return M->mkNum(h,l.fl&3,l.fl&4,ldexp(l.dv,k)); } return M->fun("ldexp",{x[0],x[1]},w);})); }
  // memory
  if(n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmSt11align_val_t"||n=="_ZnamSt11align_val_t"||n=="_ZnwmRKSt9nothrow_t"||n=="_ZnamRKSt9nothrow_t"||n=="aligned_alloc"){ int r=newHeap(a[n=="aligned_alloc"?1:0].s(),g,C); RegP&W=regW(m,r); (void)W; allocs++; heapGuard[r]=g; return Val(ptr(r,0)); }
  if(n=="_ZdlPv"||n=="_ZdaPv"||n=="_ZdlPvm"||n=="_ZdaPvm"||n=="free"||n=="_ZdlPvSt11align_val_t"||n=="_ZdaPvSt11align_val_t"||n=="_ZdlPvmSt11align_val_t"||n=="_ZdaPvmSt11align_val_t"){ release(m,a[0].s(),g,C); return Val(); }
  if(n=="memcpy"||n=="memmove"){ copyBytes(m,a[0].s(),a[1].s(),constInt(a[2].s(),g,64,"copy length"),g,C); return a[0]; }
  if(n=="memset"){ setBytes(m,a[0].s(),a[1].s(),constInt(a[2].s(),g,64,"set length"),g,C); return a[0]; }
  // analysis markers
  if(n=="vf_assume"){ Nd c=boolOf(a[0].s()); g=M->And(g,c); { std::map<u64,int> zf,pf; Nd x=c; while(!M->isLeaf(x)){ auto&q=M->nd[x]; bool v=q.lo==M->F; if(!v&&q.hi!=M->F) break; Atom&at=M->at[q.var]; if(at.k==FZ) zf[at.h]=v; else if(at.k==FP_) pf[at.h]=v; x=v?q.hi:q.lo; } if(x==M->T) for(auto&q:pf){ if(q.second){ M->addPos(q.first); if(fpow_(q.first,(PR-1)/2)!=1) M->posBad++; } else { auto it=zf.find(q.first); if(it!=zf.end()&&!it->second) { M->addPos(fneg_(q.first)); if(fpow_(fneg_(q.first),(PR-1)/2)!=1) M->posBad++; } } } } return Val(); }
  if(n=="vf_require"){ require=M->And(require,boolOf(a[0].s())); return Val(); }
  if(n=="vf_assert"){ Nd c=boolOf(a[0].s()); asserts++; Nd bad=M->And(g,M->Not(c)); if(bad!=M->F) event("assertion",bad,C); return Val(); }
  if(n=="vf_feed"){ fed.push_back(a[0].s()); return Val(); }
  if(n=="vf_any"||n=="vf_anyf"){ Leaf l;l.k=ANY; return Val(M->leaf(l)); }
  if(n=="vf_choice"){ i64 k=constInt(a[0].s(),g,32,"choice"); (void)k; return Val(M->varN(M->atom(BOOLA,Hs("choice")(k).f()))); }
  if(n=="vf_choice_on"){ // a choice that depends on the given values only
    i64 k=constInt(a[0].s(),g,32,"choice"); i64 cnt=constInt(a[2].s(),g,32,"count"); auto v=readArr(m,a[1].s(),cnt,Type::getDoubleTy(mod.getContext()),g,C); Nd h=hashAll("choice",v); return Val(M->app1(0,h,[&](Nd x)->Nd{return M->varN(M->atom(BOOLA,Hs("ch")(k)(M->L(x).h).f()));})); }
  if(n.compare(0,5,"pure_")==0) return pureCall(n,C,a,m,g);
  if(n.compare(0,6,"trace_")==0){ std::vector<Nd> v; v.push_back(m.trace); v.push_back(M->mkNum(Hs(n).f(),0)); for(size_t k=0;k<a.size();k++) v.push_back(a[k].s()); m.trace=hashAll("trace",v); if(!ty->isVoidTy()){ std::vector<Nd> q={m.trace}; return Val(hashAll("traceret",q)); } return Val(); }
  if(n=="__muldc3"||n=="__mulsc3"||n=="__divdc3"||n=="__divsc3"){ unsigned w=n[5]=='d'?64:32; Nd p=a[0].s(),q=a[1].s(),r=a[2].s(),s=a[3].s(); auto mu=[&](Nd x,Nd y){return fbin(Instruction::FMul,x,y,w,g,C);}; auto ad=[&](Nd x,Nd y){return fbin(Instruction::FAdd,x,y,w,g,C);}; auto sb=[&](Nd x,Nd y){return fbin(Instruction::FSub,x,y,w,g,C);}; Val o; if(n[2]=='m'){o.e={sb(mu(p,r),mu(q,s)),ad(mu(p,s),mu(q,r))};} else { Nd d=ad(mu(r,r),mu(s,s)); o.e={fbin(Instruction::FDiv,ad(mu(p,r),mu(q,s)),d,w,g,C),fbin(Instruction::FDiv,sb(mu(q,r),mu(p,s)),d,w,g,C)}; } return o; }
  if(n.compare(0,2,"_Z")==0&&(n.find("basic_ostream")!=std::string::npos||n.compare(0,6,"_ZNSo")==0||n.compare(0,5,"_ZNSo")==0||n.find("basic_istream")!=std::string::npos||n.compare(0,5,"_ZNSi")==0||n.compare(0,6,"_ZNKSt")==0||n.find("ios_base")!=std::string::npos)) { auto r=streamCall(n,C,a,m,g); if(r) return r; }
  if(n=="dgesvd_"||n=="sgesvd_"||n=="dsyev_"||n=="ssyev_"||n=="dgeqp3_"||n=="sgeqp3_"||n=="dorgqr_"||n=="sorgqr_"||n=="dgeev_"||n=="sgeev_"){ if(C->getCalledFunction()->isDeclaration()) return lapack(n,C,a,m,g); }
  return std::nullopt; }
long allocs=0,asserts=0; std::map<int,Nd> heapGuard;
Nd boolOf(Nd x){ return M->app1(0,x,[&](Nd y)->Nd{Leaf l=M->L(y); if(l.k==INT) return (l.h&1)||l.h?M->T:M->F; return M->varN(M->atom(BOOLA,Hs("bool")(M->leafHash(y)).f()));}); }
// pure_NAME_d3_o2 : reads 3 doubles through each pointer argument, (o2) writes 2 doubles through the last pointer
std::optional<Val> pureCall(const std::string&n,CallBase*C,std::vector<Val>&a,Mem&m,Nd&g){ int rd=1,wr=0; Type*ety=Type::getDoubleTy(mod.getContext()); size_t p=n.find("_d"); while(p!=std::string::npos&&!(p+2<n.size()&&isdigit(n[p+2]))) p=n.find("_d",p+1); if(p!=std::string::npos) rd=atoi(n.c_str()+p+2); size_t q=n.find("_f"); while(q!=std::string::npos&&!(q+2<n.size()&&isdigit(n[q+2]))) q=n.find("_f",q+1); if(q!=std::string::npos&&q+2<n.size()&&isdigit(n[q+2])){rd=atoi(n.c_str()+q+2);ety=Type::getFloatTy(mod.getContext());} p=n.find("_o"); if(p!=std::string::npos&&p+2<n.size()&&isdigit(n[p+2])) wr=atoi(n.c_str()+p+2);
  std::vector<Nd> v; size_t np=0; for(auto&x:C->args()) if(x->getType()->isPointerTy()) np++; size_t seen=0; for(size_t k=0;k<a.size();k++){ if(C->getArgOperand(k)->getType()->isPointerTy()){ seen++; if(wr&&seen==np) continue; auto r=readArr(m,a[k].s(),rd,ety,g,C); v.insert(v.end(),r.begin(),r.end()); } else v.push_back(a[k].s()); }
  std::string base=n.substr(0,n.find("_d")==std::string::npos?n.size():n.size()); Nd h=hashAll(base.c_str(),v); if(wr){ for(int k=0;k<wr;k++){ Nd o=M->app1(0,h,[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k!=NUM) return x; return M->mkNum(Hs("out")(l.h)(k).f(),ety->isDoubleTy()?1:0);}); storeScalar(m,gep(a.back().s(),k*dl.getTypeStoreSize(ety)),o,ety,g,C);} }
  pureCalls++; if(C->getType()->isVoidTy()) return Val(); if(C->getType()->isIntegerTy(1)) return Val(M->app1(0,h,[&](Nd x)->Nd{return M->L(x).k==UND?x:M->varN(M->atom(BOOLA,M->L(x).h));})); if(C->getType()->isIntegerTy()) return Val(M->app1(0,h,[&](Nd x)->Nd{return M->L(x).k==UND?x:M->mkSym("pure"+std::to_string(M->L(x).h));})); bool dbl=C->getType()->isDoubleTy(); return Val(M->app1(0,h,[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k!=NUM) return x; return M->mkNum(l.h,dbl?1:0);})); }
long pureCalls=0;
// ---- streams: a chain of (kind,value) records in Mem::trace
std::optional<Val> streamCall(const std::string&n,CallBase*C,std::vector<Val>&a,Mem&m,Nd&g){ std::string d=demangle(n); auto rec=[&](const std::string&k,std::vector<Nd> v){ v.insert(v.begin(),M->mkNum(Hs(k).f(),0)); v.insert(v.begin(),m.trace); m.trace=hashAll("io",v); };
  auto strOf=[&](Nd p)->std::string{ if(!M->isLeaf(p)||M->L(p).k!=PTR) fail("stream text"); Leaf l=M->L(p); auto*gv=reg[l.a].gv; StringRef s; if(!gv||!gv->hasInitializer()) fail("stream text"); if(gv->getInitializer()->isNullValue()) return ""; if(auto*cd=dyn_cast<ConstantDataSequential>(gv->getInitializer())) { s=cd->getAsString(); std::string r=s.substr(l.h).str(); while(!r.empty()&&r.back()==0) r.pop_back(); return r; } fail("stream text"); };
  auto text=[&](const std::string&s){ // a run of white space is one separator, a line break if it contains one
    for(char c:s){ bool nl=c=='\n',ws=nl||c==' '||c=='\t'; if(!ws){ rec(std::string("txt:")+c,{}); continue; } auto it=sepOf.find(m.trace); Nd prev=m.trace; if(it!=sepOf.end()){ if(it->second.second||!nl) continue; prev=it->second.first; m.trace=prev; } rec(nl?"nl":"sp",{}); sepOf[m.trace]={prev,nl}; } };
  size_t par=d.find('('); std::string head=d.substr(0,par);
  if(head.find("ios_base::width")!=std::string::npos||head.find("ios_base::precision")!=std::string::npos||head.find("ios_base::flags")!=std::string::npos){ if(C->arg_size()==1) return Val(M->mkSym(head.substr(head.rfind(':')))); if(C->getType()->isVoidTy()) return Val(); return Val(M->mkSym(head.substr(head.rfind(':')))); }
  if(head.find("operator<<")!=std::string::npos){ bool member=n.compare(0,4,"_ZNS")==0; Type*at=C->arg_size()>1?C->getArgOperand(1)->getType():nullptr; if(at&&at->isFloatingPointTy()) rec("num",{a[1].s()}); else if(at&&at->isIntegerTy(8)&&!member){ Nd c=a[1].s(); if(!M->isLeaf(c)) fail("stream char"); text(std::string(1,(char)M->L(c).h)); } else if(at&&at->isIntegerTy()) rec("int",{a[1].s()}); else if(at&&at->isPointerTy()){ if(d.find("char const*")!=std::string::npos) text(strOf(a[1].s())); else if(member){ // manipulator
          text("\n"); } else return std::nullopt; } else return std::nullopt; return a[0]; }
  if(head.find("std::endl")!=std::string::npos){ text("\n"); return a[0]; }
  if(head.find("std::flush")!=std::string::npos) return a[0];
  if(head.find("::put")!=std::string::npos||head.find("::flush")!=std::string::npos||head.find("operator bool")!=std::string::npos||head.find("operator!")!=std::string::npos) return std::nullopt;
  if(head.find("operator>>")!=std::string::npos){ Nd p=a[1].s(); rec("read",{}); if(m.inpos<fed.size()){ storeScalar(m,p,fed[m.inpos++],d.find("float&")!=std::string::npos?Type::getFloatTy(mod.getContext()):Type::getDoubleTy(mod.getContext()),g,C); return a[0]; } Type*ty=d.find("float&")!=std::string::npos?Type::getFloatTy(mod.getContext()):d.find("int&")!=std::string::npos?(Type*)Type::getInt32Ty(mod.getContext()):Type::getDoubleTy(mod.getContext()); std::vector<Nd> q={m.trace}; Nd h=hashAll("in",q); if(ty->isIntegerTy()) h=M->app1(0,h,[&](Nd x)->Nd{return M->mkSym("in"+std::to_string(M->L(x).h));}); storeScalar(m,p,h,ty,g,C); return a[0]; }
  return std::nullopt; }
// ---- LAPACK routines whose factors stay opaque

std::optional<Val> lapack(const std::string&n,CallBase*C,std::vector<Val>&a,Mem&m,Nd&g){ bool dbl=n[0]=='d'; Type*ety=dbl?Type::getDoubleTy(mod.getContext()):Type::getFloatTy(mod.getContext()); i64 es=dbl?8:4; Type*i32=Type::getInt32Ty(mod.getContext()),*i8=Type::getInt8Ty(mod.getContext()); std::string b=n.substr(1);
  auto iv=[&](int k){return constInt(loadScalar(m,a[k].s(),i32,g,C),g,32,"LAPACK dimension");}; auto ch=[&](int k){return (char)constInt(loadScalar(m,a[k].s(),i8,g,C),g,8,"LAPACK option");};
  auto ld=[&](int k,i64 i){return loadScalar(m,gep(a[k].s(),i*es),ety,g,C);}; auto st=[&](int k,i64 i,Nd v){storeScalar(m,gep(a[k].s(),i*es),v,ety,g,C);}; auto sti=[&](int k,i64 i,Nd v){storeScalar(m,gep(a[k].s(),i*4),v,i32,g,C);};
  auto bad=[&](const char*w){event("bad-argument-to-numerical-library",g,C,n+": "+w);};
  unsigned fl=dbl?1:0; auto derive=[&](Nd h,const char*t,i64 i,i64 j){return M->app1(0,h,[&](Nd x)->Nd{Leaf l=M->L(x); if(l.k!=NUM) return x; return M->mkNum(Hs(t)(l.h)(i)(j).f(),fl);});};
  lapackCalls++;
  if(b=="syev_"){ char jz=ch(0),ul=ch(1); i64 N=iv(2),lda=iv(4),lw=iv(7); if(lda<std::max<i64>(1,N)) bad("leading dimension"); if(lw==-1){ st(6,0,M->mkFC(34.0*N)); sti(8,0,M->mkInt(0)); return Val(); } if(lw<std::max<i64>(1,3*N-1)) bad("work space too small"); std::vector<Nd> v; for(i64 j=0;j<N;j++) for(i64 i=0;i<=j;i++) v.push_back(ul=='U'||ul=='u'?ld(3,i+j*lda):ld(3,j+i*lda)); for(i64 i=0;i<lw;i++) if(i==0||i==lw-1) st(6,i,M->mkNum(Hs("work")(unkN++).f(),fl)); Nd h=hashAll("syev",v); for(i64 k=0;k<N;k++) st(5,k,derive(h,"eval",k,0)); if(jz=='V'||jz=='v') for(i64 k=0;k<N;k++) for(i64 i=0;i<N;i++) st(3,i+k*lda,derive(h,"evec",k,i)); sti(8,0,M->mkInt(0)); return Val(); }
  if(b=="gesvd_"){ char ju=ch(0),jv=ch(1); i64 m_=iv(2),n_=iv(3),lda=iv(5),ldu=iv(8),ldvt=iv(10),lw=iv(12); if(lda<std::max<i64>(1,m_)) bad("leading dimension"); i64 mn=std::min(m_,n_),mx=std::max(m_,n_); if(lw==-1){ st(11,0,M->mkFC(3.0*mn+2*mx+5*mn)); sti(13,0,M->mkInt(0)); return Val(); } if(lw<std::max<i64>(1,std::max(3*mn+mx,5*mn))) bad("work space too small"); std::vector<Nd> v={M->mkInt(m_)},w={M->mkInt(n_)}; for(i64 i=0;i<m_;i++) for(i64 j=0;j<n_;j++) v.push_back(ld(4,i+j*lda)); for(i64 j=0;j<n_;j++) for(i64 i=0;i<m_;i++) w.push_back(ld(4,i+j*lda)); st(11,lw-1,M->mkNum(Hs("work")(unkN++).f(),fl)); st(11,0,M->mkNum(Hs("work")(unkN++).f(),fl));
    Nd h1=hashAll("svd",v),h2=hashAll("svd",w); auto uv=[&](bool wantU,i64 i,i64 k){return M->app2(0,h1,h2,[&](Nd x,Nd y)->Nd{Leaf p=M->L(x),q=M->L(y); if(p.k!=NUM||q.k!=NUM) return M->U; bool sw=q.h<p.h; u64 base=std::min(p.h,q.h); return M->mkNum(Hs(wantU!=sw?"svdU":"svdV")(base)(i)(k).f(),fl);});}; auto sv=[&](i64 k){return M->app2(0,h1,h2,[&](Nd x,Nd y)->Nd{Leaf p=M->L(x),q=M->L(y); if(p.k!=NUM||q.k!=NUM) return M->U; return M->mkNum(Hs("svdS")(std::min(p.h,q.h))(k).f(),fl);});};
    for(i64 i=0;i<m_;i++) for(i64 j=0;j<n_;j++) st(4,i+j*lda,M->mkNum(Hs("destroyed")(unkN++).f(),fl));
    for(i64 k=0;k<mn;k++) st(6,k,sv(k)); auto U=toupper(ju),V=toupper(jv); if(U=='O'&&V=='O') bad("both factors overwrite"); if(U=='S'||U=='A'){ if(ldu<m_) bad("leading dimension of U"); i64 c=U=='A'?m_:mn; for(i64 k=0;k<c;k++) for(i64 i=0;i<m_;i++) st(7,i+k*ldu,uv(true,i,k)); } else if(U=='O') for(i64 k=0;k<mn;k++) for(i64 i=0;i<m_;i++) st(4,i+k*lda,uv(true,i,k));
    if(V=='S'||V=='A'){ i64 c=V=='A'?n_:mn; if(ldvt<c) bad("leading dimension of VT"); for(i64 k=0;k<c;k++) for(i64 j=0;j<n_;j++) st(9,k+j*ldvt,uv(false,j,k)); } else if(V=='O') for(i64 k=0;k<mn;k++) for(i64 j=0;j<n_;j++) st(4,k+j*lda,uv(false,j,k)); sti(13,0,M->mkInt(0)); return Val(); }
  if(b=="geqp3_"){ i64 m_=iv(0),n_=iv(1),lda=iv(3),lw=iv(7); if(lda<std::max<i64>(1,m_)) bad("leading dimension"); if(lw==-1){ st(6,0,M->mkFC(2.0*n_+(n_+1)*32)); sti(8,0,M->mkInt(0)); return Val(); } if(lw<3*n_+1) bad("work space too small"); std::vector<Nd> v; for(i64 i=0;i<m_;i++) for(i64 j=0;j<n_;j++) v.push_back(ld(2,i+j*lda)); for(i64 j=0;j<n_;j++) v.push_back(M->app1(0,loadScalar(m,gep(a[4].s(),4*j),i32,g,C),[&](Nd x)->Nd{Leaf l=M->L(x); return l.k==INT?M->mkInt(l.h!=0):x;})); st(6,lw-1,M->mkNum(Hs("work")(unkN++).f(),fl)); st(6,0,M->mkNum(Hs("work")(unkN++).f(),fl)); Nd h=hashAll("geqp3",v); for(i64 i=0;i<m_;i++) for(i64 j=0;j<n_;j++) st(2,i+j*lda,derive(h,"qrA",i,j)); for(i64 j=0;j<n_;j++) sti(4,j,M->app1(0,h,[&](Nd x)->Nd{return M->L(x).k==UND?x:M->mkSym("jpvt"+std::to_string(M->L(x).h)+"_"+std::to_string(j));})); for(i64 k=0;k<std::min(m_,n_);k++) st(5,k,derive(h,"tau",k,0)); sti(8,0,M->mkInt(0)); return Val(); }
  if(b=="orgqr_"){ i64 m_=iv(0),n_=iv(1),k_=iv(2),lda=iv(4),lw=iv(7); if(lda<std::max<i64>(1,m_)) bad("leading dimension"); if(n_>m_||k_>n_) bad("dimensions"); if(lw==-1){ st(6,0,M->mkFC(32.0*n_)); sti(8,0,M->mkInt(0)); return Val(); } if(lw<std::max<i64>(1,n_)) bad("work space too small"); std::vector<Nd> v; for(i64 j=0;j<k_;j++) for(i64 i=j+1;i<m_;i++) v.push_back(ld(3,i+j*lda)); for(i64 k=0;k<k_;k++) v.push_back(ld(5,k)); st(6,lw-1,M->mkNum(Hs("work")(unkN++).f(),fl)); st(6,0,M->mkNum(Hs("work")(unkN++).f(),fl)); Nd h=hashAll("orgqr",v); for(i64 i=0;i<m_;i++) for(i64 j=0;j<n_;j++) st(3,i+j*lda,derive(h,"Q",i,j)); sti(8,0,M->mkInt(0)); return Val(); }
  fail("numerical-library routine "+n); }
long lapackCalls=0; std::vector<Nd> fed; std::map<Nd,std::pair<Nd,bool>> sepOf; // separator just written: trace before it, is it a line break
