//---------------------------------------------------------------- theory of conjunctions of literals
struct Lit{int atom; bool v;};
static bool fmFeasible(std::vector<Lin> cs){ // all cs >= 0 over the integers (rational relaxation with tightening)
  for(int round=0;round<40;round++){ std::vector<Lin> nx; std::set<Lin> seen; for(auto&c:cs){ if(c.t.empty()){ if(c.c<0) return false; continue; } i64 g=0; for(auto&q:c.t){i64 a=std::llabs(q.second),b=g; while(a){i64 t=b%a;b=a;a=t;} g=b;} if(g>1){for(auto&q:c.t)q.second/=g; c.c=c.c>=0?c.c/g:-((-c.c+g-1)/g);} if(seen.insert(c).second) nx.push_back(c); }
    cs=nx; if(cs.empty()) return true; if(cs.size()>400) return true; std::map<int,std::pair<int,int>> cnt; for(auto&c:cs) for(auto&q:c.t) (q.second>0?cnt[q.first].first:cnt[q.first].second)++; int best=-1; long bc=1L<<40; for(auto&q:cnt){ long c=(long)q.second.first*q.second.second; if(c<bc){bc=c;best=q.first;} }
    std::vector<Lin> pos,neg,rest; for(auto&c:cs){ i64 k=0; for(auto&q:c.t) if(q.first==best) k=q.second; (k>0?pos:k<0?neg:rest).push_back(c); }
    for(auto&p:pos) for(auto&q:neg){ i64 kp=0,kq=0; for(auto&e:p.t) if(e.first==best) kp=e.second; for(auto&e:q.t) if(e.first==best) kq=-e.second; Lin z; z=Mgr::ladd(z,p,kq); z=Mgr::ladd(z,q,kp); rest.push_back(z); } cs=rest; }
  return true; }
static int constSign(u64 h,bool&known){ known=true; if(h==0) return 0; if(h<1000000) return 1; if(PR-h<1000000) return -1; auto it=M->constH.find(h); if(it!=M->constH.end()&&it->second==it->second&&!std::isinf(it->second)) return it->second>0?1:-1; it=M->constH.find(fneg_(h)); if(it!=M->constH.end()&&it->second==it->second&&!std::isinf(it->second)) return it->second>0?-1:1; known=false; return 0; }
static bool feasible(const std::vector<Lit>&ls,std::vector<u64>*zerosOut=nullptr){
  std::map<u64,int> z,p; std::vector<Lin> li; bool anyI=false; 
  for(auto&l:ls){ Atom&a=M->at[l.atom]; if(a.k==FZ) z[a.h]=l.v; else if(a.k==FP_) p[a.h]=l.v; else if(a.k==GEI){ Lin x=M->lins[a.lin]; if(!l.v){ x=Mgr::ladd(Lin(),x,-1); x.c-=1; } li.push_back(x); anyI=true; } }
  if(anyI&&!fmFeasible(li)) return false;
  std::set<u64> S,Z; for(auto&q:z) if(q.second) Z.insert(q.first); for(auto&q:p){ auto it=z.find(q.first); if(it!=z.end()&&it->second) continue; if(it==z.end()&&!M->generic) continue; S.insert(q.second?q.first:fneg_(q.first)); }
  { struct Iv{double lo=-INFINITY,hi=INFINITY,eq=0; bool has=false;}; std::map<int,Iv> iv; auto add=[&](u64 h,int sgn)->bool{ for(int f=1;f>=-1;f-=2){ auto it=M->bounds.find(f>0?h:fneg_(h)); if(it==M->bounds.end()) continue; auto&b=it->second; Iv&v=iv[b.base]; int s=sgn*f*(b.up?1:-1); if(s==0){ if(v.has&&fabs(v.eq-b.c)>1e-12*fabs(b.c)) return false; v.has=true; v.eq=b.c; } else if(s>0) v.lo=std::max(v.lo,b.c); else v.hi=std::min(v.hi,b.c); return true; } return true; };
    for(u64 x:S) if(!add(x,1)) return false; for(u64 x:Z) if(!add(x,0)) return false;
    for(auto&q:iv){ Iv&v=q.second; bool nn=M->baseNonneg[q.first]; if(v.lo>=v.hi||(nn&&v.hi<=0)) return false; if(v.has&&(v.eq<v.lo*(1+(v.lo>0?-1:1)*1e-12)||v.eq>v.hi*(1+(v.hi>0?1:-1)*1e-12)||(v.eq==v.lo)||(v.eq==v.hi)||(nn&&v.eq<0))) return false; } }
  if(zerosOut) zerosOut->assign(Z.begin(),Z.end());
  std::set<u64> nz; for(auto&q:z) if(!q.second) nz.insert(q.first);
  std::vector<u64> sv(S.begin(),S.end()),zv; const std::vector<u64> S0=sv; for(u64 a:Z){zv.push_back(a);zv.push_back(fneg_(a));}
  auto contra=[&](u64 s)->bool{ bool kn; int c=constSign(s,kn); if(kn) return c<=0; return S.count(fneg_(s))||Z.count(s)||Z.count(fneg_(s)); };
  for(u64 s:sv) if(contra(s)) return false; for(u64 a:Z){ bool kn; int c=constSign(a,kn); if(kn&&c!=0) return false; if(nz.count(a)||nz.count(fneg_(a))) return false; }
  for(int r=0;r<2;r++){ std::vector<u64> add; for(size_t i=0;i<sv.size();i++){ for(size_t j=i;j<sv.size();j++){ u64 s=fadd_(sv[i],sv[j]); if(contra(s)) return false; if(!S.count(s)) add.push_back(s);} for(u64 q:zv){ u64 s=fadd_(sv[i],q); if(contra(s)) return false; if(!S.count(s)) add.push_back(s);} } 
    for(size_t i=0;i<zv.size();i++) for(size_t j=i+1;j<zv.size();j++){ u64 s=fadd_(zv[i],zv[j]); bool kn; int c=constSign(s,kn); if(kn&&c!=0) return false; if(nz.count(s)||nz.count(fneg_(s))||S.count(s)||S.count(fneg_(s))) return false; }
    if(sv.size()+add.size()>120){ // too many to close under addition: look for up to four that add up to nothing
      std::vector<u64> one; for(u64 x:S0) one.push_back(x); for(u64 q:zv) one.push_back(q); std::unordered_set<u64> two; for(size_t i=0;i<one.size();i++) for(size_t j=i;j<one.size();j++) two.insert(fadd_(one[i],one[j]));
      for(size_t i=0;i<S0.size();i++) for(size_t j=i;j<one.size();j++){ u64 n=fneg_(fadd_(S0[i],one[j])); if(two.count(n)) return false; } for(u64 x:S0) if(two.count(fneg_(x))) return false; break; }
    for(u64 s:add) if(S.insert(s).second) sv.push_back(s); }
  return true; }
// search for a feasible path on which a and b differ (a/b may be arbitrary diagrams, care boolean)
struct Diff{bool found=false,limit=false; std::vector<Lit> path; Nd a=0,b=0;};
static bool numOf(Nd n,int size,Leaf&o){ Nd q; if(M->L(n).k==UND||M->L(n).k==ANY) return false; if(!M->toNum(n,size==4?32:64,q)) return false; o=M->L(q); return true; }
static bool leafEq(Nd a,Nd b,int size){ if(a==b) return true; Leaf x=M->L(a),y=M->L(b); if(x.k==UND) return false; if(y.k==ANY||x.k==ANY) return true; if(y.k==UND) return false; if(x.k==NUM||y.k==NUM){ Leaf p,q; if(numOf(a,size,p)&&numOf(b,size,q)){ bool pn=(p.fl&4)&&p.dv!=p.dv,qn=(q.fl&4)&&q.dv!=q.dv; if(pn||qn) return pn&&qn; return p.h==q.h; } } return M->leafHash(a)==M->leafHash(b)&&x.k==y.k; }
static bool infeasibleSet(const std::vector<Lit>&ls){ return !feasible(ls); }
// smallest-effort subset of an infeasible conjunction that is still infeasible
static std::vector<Lit> coreOf(const std::vector<Lit>&full){ std::vector<Lit> r,i; for(auto&l:full){ auto k=M->at[l.atom].k; if(k==GEI) i.push_back(l); else if(k==FZ||k==FP_) r.push_back(l); }
  std::vector<Lit> cur; if(!i.empty()&&infeasibleSet(i)) cur=i; else if(infeasibleSet(r)) cur=r; else { cur=full; if(!infeasibleSet(cur)) return full; }
  for(size_t step=std::max<size_t>(1,cur.size()/2);;step=step/2){ for(size_t at=0;at<cur.size()&&cur.size()>1;){ std::vector<Lit> t(cur.begin(),cur.begin()+at); t.insert(t.end(),cur.begin()+std::min(cur.size(),at+step),cur.end()); if(!t.empty()&&infeasibleSet(t)) cur=t; else at+=step; } if(step<=1) break; }
  return cur; }
static Diff findDiff(Nd a,Nd b,Nd care,int size,long limit=60000,bool openOnly=false){ Diff d; long cnt=0; typedef std::vector<int> Why; std::map<std::tuple<Nd,Nd,Nd>,std::vector<Why>> done; std::vector<Lit> path; std::unordered_set<int> on; 
  auto id=[](const Lit&l){return l.atom*2+(l.v?1:0);};
  auto toWhy=[&](const std::vector<Lit>&c){ Why w; for(auto&l:c) w.push_back(id(l)); std::sort(w.begin(),w.end()); return w; };
  auto holds=[&](const Why&w){ for(int x:w) if(!on.count(x)) return false; return true; };
  auto refute=[&](Why&why)->bool{ // is the current path impossible; why: literals responsible
    if(!path.empty()){ auto it=M->cores.find(id(path.back())); if(it!=M->cores.end()) for(auto&c:it->second) if(holds(c)){ why=c; return true; } }
    return false; };
  auto learn=[&](Why&why){ why=toWhy(coreOf(path)); if(why.size()<=24) for(int x:why){ auto&v=M->cores[x]; if(v.size()<400) v.push_back(why); } };
  std::function<bool(Nd,Nd,Nd,Why&)> rec=[&](Nd x,Nd y,Nd c,Why&why)->bool{ // true: found or give up ; false: no difference below while the literals in why hold
    why.clear(); if(c==M->F||x==y) return false; auto key=std::make_tuple(x,y,c); { auto it=done.find(key); if(it!=done.end()) for(auto&w:it->second) if(holds(w)){ why=w; return false; } } if(++cnt>limit){d.limit=true;return true;}
    int v=std::min(M->nd[x].var,std::min(M->nd[y].var,M->nd[c].var));
    if(v==1<<30){ if(M->L(c).k==INT&&!(M->L(c).h&1)) return false; if(leafEq(x,y,size)) return false; std::vector<u64> zs; if(!feasible(path,&zs)){ learn(why); return false; }
      auto zero=[&](u64 z){ for(auto&l:path) if(l.v&&M->at[l.atom].k==FZ&&M->at[l.atom].h==z) why.push_back(id(l)); std::sort(why.begin(),why.end()); };
      if(openOnly&&!zs.empty()){ zero(zs[0]); return false; } Leaf p,q; if(!zs.empty()&&numOf(x,size,p)&&numOf(y,size,q)){ u64 df=fsub_(p.h,q.h); for(u64 z:zs) for(int n=-4;n<=4;n++) for(int k=1;k<=4;k++) if(n&&df==fmul_(z,fmul_(M->iconst(n),finv_(k)))){ zero(z); return false; } for(u64 z:zs) for(u64 z2:zs) if(df==fadd_(z,z2)||df==fsub_(z,z2)||df==fneg_(fadd_(z,z2))){ zero(z); if(z2!=z) zero(z2); return false; } }
      d.found=true; d.path=path; d.a=x; d.b=y; return true; }
    bool leafPair=M->isLeaf(x)&&M->isLeaf(y); if(leafPair&&leafEq(x,y,size)) return false;
    auto co=[&](Nd n,bool hi){return M->nd[n].var==v?(hi?M->nd[n].hi:M->nd[n].lo):n;}; std::set<int> acc; for(int hi=1;hi>=0;hi--){ Lit l{v,(bool)hi}; path.push_back(l); on.insert(id(l)); Why w; bool stop=false; if(!refute(w)){ bool go=true; if(path.size()>=2&&(path.size()%4)==0&&!feasible(path)){ learn(w); go=false; } if(go) stop=rec(co(x,hi),co(y,hi),co(c,hi),w); } on.erase(id(l)); path.pop_back(); if(stop) return true; for(int q:w) if(q!=id(l)) acc.insert(q); }
    why.assign(acc.begin(),acc.end()); auto&dv=done[key]; if(dv.size()<16) dv.push_back(why); else dv[cnt%16]=why; return false; };
  Why w; rec(a,b,care,w); if(d.found) d.limit=false; return d; }
static bool feasibleGuard(Nd g,std::vector<Lit>*out=nullptr,bool openOnly=false,bool*lim=nullptr){ if(g==M->F) return false; Diff d=findDiff(M->T,M->F,g,1,60000,openOnly); if(out) *out=d.path; if(lim) *lim=d.limit; return d.found; }
bool Engine::prune(Nd g){ if(g==M->T||g==M->F) return g==M->F; Diff d=findDiff(M->T,M->F,g,1,400); return !d.found&&!d.limit; }
static std::string pathStr(const std::vector<Lit>&p,int maxn=8){ std::string s; int n=0; for(auto&l:p){ Atom&a=M->at[l.atom]; if(n++>=maxn){s+=" ...";break;} const char*k=a.k==FZ?"equality":a.k==FP_?"order":a.k==GEI?"integer bound":"condition"; if(!s.empty()) s+=", "; std::string t; if(a.k==GEI){ Lin x=M->lins[a.lin]; for(auto&q:x.t){ t+=(q.second>=0?"+":"")+std::to_string(q.second)+"*"+M->syms[q.first].first; } t+=(x.c>=0?"+":"")+std::to_string(x.c)+">=0"; } s+=std::string(k)+(t.empty()?"":" "+t)+(a.loc.empty()?"":" at "+a.loc)+(l.v?" true":" false"); } return s.empty()?"always":s; }

//---------------------------------------------------------------- driver
struct Finding{std::string kind,loc,detail,path;};
struct Outcome{std::string name,kind,status,why; std::vector<Finding> f; long outputs=0,steps=0,atoms=0,accesses=0,stores=0,calls=0,allocs=0,asserts=0,pure=0,lapack=0; int seeds=0; std::set<std::string> fns;};
static std::vector<Val> makeArgs(Engine&E,Function*F){ std::vector<Val> a; int k=0; for(auto&p:F->args()){ Type*t=p.getType(); std::string n="arg"+std::to_string(k); if(t->isPointerTy()){ i64 sz=p.getDereferenceableBytes()?(i64)p.getDereferenceableBytes():-1; if(p.hasByValAttr()) fail("by-value aggregate parameter of a witness"); int r=E.regNamed(R_ARG,n,sz); a.push_back(Val(E.ptr(r,0))); } else if(t->isIntegerTy(1)) a.push_back(Val(M->varN(M->atom(BOOLA,Hs(n).f())))); else if(t->isIntegerTy()) a.push_back(Val(M->mkSym(n))); else if(t->isFloatingPointTy()) a.push_back(Val(M->mkNum(Hs("init")(Hs(n).s).f(),t->isDoubleTy()?1:0))); else fail("witness parameter type"); k++; } return a; }
struct RunR{bool ok=false; Mem m; Nd g; Nd ab; Val rv; std::vector<Event> ev; std::vector<std::pair<Nd,u64>> divs; std::map<int,Nd> abAt;};
static RunR runOne(Engine&E,Function*F,bool ref){ RunR r; E.events.clear(); E.fed.clear(); E.abortG=M->F; E.abortAt.clear(); E.divs.clear(); E.inRef=ref; Mem m; m.trace=M->mkNum(Hs("trace0").f(),0); Nd g=M->T; auto a=makeArgs(E,F); E.runFunction(F,a,m,g,r.rv); r.m=m; r.g=g; r.ab=E.abortG; r.ev=E.events; r.divs=E.divs; r.abAt=E.abortAt; r.ok=true; return r; }
static void leakCheck(Engine&E,RunR&r,std::vector<Event>&out){ std::set<int> esc; std::vector<int> wl; auto addv=[&](Nd v){ std::set<Nd> seen; std::function<void(Nd)> rec=[&](Nd n){ if(!seen.insert(n).second) return; if(M->isLeaf(n)){Leaf l=M->L(n); if((l.k==PTR||l.k==PTS)&&esc.insert(l.a).second) wl.push_back(l.a); return;} rec(M->nd[n].lo);rec(M->nd[n].hi);}; rec(v); };
  for(Nd v:r.rv.e) addv(v); for(auto&q:r.m.r){ auto k=E.reg[q.first].k; if(k==R_ARG||k==R_DERIVED||k==R_GLOBAL) for(auto&c:q.second->c) addv(c.second.v); } while(!wl.empty()){int x=wl.back();wl.pop_back();auto it=r.m.r.find(x); if(it!=r.m.r.end()) for(auto&c:it->second->c) addv(c.second.v);}
  for(auto&q:r.m.r) if(E.reg[q.first].k==R_HEAP&&!esc.count(q.first)){ Nd l=M->And(r.g,M->Not(q.second->freed)); l=M->And(l,E.heapGuard.count(q.first)?E.heapGuard[q.first]:M->T); if(l!=M->F) out.push_back({"never-released",l,E.reg[q.first].loc,""}); } }
static void addEvents(Engine&E,std::vector<Event>&ev,Outcome&o,const std::set<std::string>*only=nullptr){ for(auto&e:ev){ if(only&&!only->count(e.kind)) continue; std::vector<Lit> p; bool lim=false; if(!feasibleGuard(e.guard,&p,e.kind=="division-by-zero",&lim)) { if(lim) o.why="guard too complex to decide"; continue; } o.f.push_back({e.kind,e.loc>=0?E.locs[e.loc]:"",e.detail,pathStr(p)}); } }
static void compareCells(Engine&E,RunR&L,RunR&R,Nd care,Outcome&o){ std::set<int> rs; for(auto&q:L.m.r) rs.insert(q.first); for(auto&q:R.m.r) rs.insert(q.first); for(int id:rs){ auto k=E.reg[id].k; if(k==R_GLOBAL&&E.reg[id].name.find("vfstub_")!=std::string::npos) continue; if(k!=R_ARG&&k!=R_DERIVED&&k!=R_GLOBAL) continue; RegSt x,y; x.freed=y.freed=M->F; if(L.m.r.count(id)) x=*L.m.r[id]; if(R.m.r.count(id)) y=*R.m.r[id];
    for(int rep=0;rep<2;rep++){ std::vector<i64> cu; for(auto&q:y.c){cu.push_back(q.first);cu.push_back(q.first+q.second.size);} for(auto&q:x.c){cu.push_back(q.first);cu.push_back(q.first+q.second.size);} for(i64 c:cu){E.cut(x,c);E.cut(y,c);} }
    std::map<i64,int> offs; for(auto&q:x.c) if(q.second.written) offs[q.first]=q.second.size; for(auto&q:y.c) if(q.second.written) offs[q.first]=q.second.size;
    for(auto&q:offs){ i64 off=q.first; int sz=q.second; auto val=[&](RegSt&s,RegSt&other)->Nd{ auto it=s.c.find(off); if(it!=s.c.end()) return it->second.v; Nd v=other.c[off].v; while(!M->isLeaf(v)) v=M->nd[v].lo; auto kk=M->L(v).k; LLVMContext&cx=E.mod.getContext(); Type*ty=kk==PTR||kk==PTS?(Type*)PointerType::get(cx,0):kk==LIN||(kk==INT&&sz!=8)?(Type*)Type::getIntNTy(cx,sz*8):sz==8?Type::getDoubleTy(cx):sz==4?Type::getFloatTy(cx):(Type*)Type::getIntNTy(cx,sz*8); return E.initVal(id,off,sz,ty); };
      Nd a=val(x,y),b=val(y,x); o.outputs++; if(a==b) { std::set<Nd> seen; continue; } Diff d=findDiff(M->constrain(a,care),M->constrain(b,care),care,sz); if(d.limit){ o.why="difference too complex to decide"; continue; } if(d.found){ auto it=x.c.find(off); std::string lc=it!=x.c.end()&&it->second.loc>=0?E.locs[it->second.loc]:""; bool un=M->L(d.a).k==UND; bool refun=M->L(d.b).k==UND; o.f.push_back({un?"uninitialised-result":refun?"reference-undefined":"wrong-value",lc,E.reg[id].name+" byte "+std::to_string(off),pathStr(d.path)}); } } } }
static void checkUnd(Engine&E,RunR&L,Outcome&o){ auto chk=[&](Nd v,const std::string&d,int lc){ o.outputs++; Nd u=M->app1(0,v,[&](Nd x){return M->L(x).k==UND?M->T:M->F;}); u=M->And(u,L.g); std::vector<Lit> p; if(u!=M->F&&feasibleGuard(u,&p)) o.f.push_back({"uninitialised-result",lc>=0?E.locs[lc]:"",d,pathStr(p)}); }; for(auto&q:L.m.r){ auto k=E.reg[q.first].k; if(k==R_ARG||k==R_DERIVED||k==R_GLOBAL) for(auto&c:q.second->c) if(c.second.written) chk(c.second.v,E.reg[q.first].name+" byte "+std::to_string(c.first),c.second.loc);} for(Nd v:L.rv.e) chk(v,"return value",-1); }
static Outcome analyse(Module&mod,const std::string&root,Function*F,Function*R,const std::string&kind,double tlimit){ Outcome best; auto t0=std::chrono::steady_clock::now(); std::string base=F->getName().substr(4).str(); static Engine*E=nullptr; if(!E) E=new Engine(mod,root); 
  u64 seed0=G_seed; int badBest=1<<30; for(int s=0;s<(kind=="lib"?base.find("roots_")!=std::string::npos?4000:300:1);s++){ G_seed=seed0+s*7919; Mgr mg; M=&mg; mg.nanOn=base.find("_nan_")!=std::string::npos||base.compare(0,4,"nan_")==0; mg.generic=base.compare(0,8,"generic_")==0; E->reset(); E->covered.clear(); E->heapGuard.clear(); E->guardMode=kind=="grd"; E->wideMode=base.compare(0,5,"wide_")==0; E->limitMode=kind=="lim"; E->deadline=t0+std::chrono::milliseconds((long)(tlimit*1000)); E->allocs=E->asserts=E->pureCalls=E->lapackCalls=0; 
    Outcome o; o.name=base; o.kind=kind; o.seeds=s+1; o.status="ok";
    try{ RunR L=runOne(*E,F,false); o.accesses=E->accesses;o.stores=E->stores;o.calls=E->calls;o.allocs=E->allocs;o.asserts=E->asserts;o.pure=E->pureCalls;o.lapack=E->lapackCalls; o.fns=E->covered;
      if(kind=="grd"){ std::vector<Lit> p; Nd req=E->require; o.outputs++; std::set<std::string> only={"unguarded-access","integer-overflow"}; if(base.compare(0,6,"steps_")!=0) addEvents(*E,L.ev,o,&only); if(feasibleGuard(M->And(L.g,M->Not(req)),&p)) o.f.push_back({"accepts-invalid","","returns although the requirement does not hold",pathStr(p)}); for(auto&q:L.abAt) if(feasibleGuard(M->And(q.second,req),&p)) o.f.push_back({"refuses-valid",E->locs[q.first],"aborts although the requirement holds",pathStr(p)}); if(!feasibleGuard(M->And(L.g,req),&p)) o.f.push_back({"refuses-valid","","never returns when the requirement holds",""}); if(req==M->T) { o.status="unanalysable"; o.why="no requirement reached"; } o.atoms=mg.at.size(); o.steps=E->steps; if(!o.f.empty()) o.status="violation"; G_seed=seed0; return o; }
      leakCheck(*E,L,L.ev); if(base.find("degenerate_")!=std::string::npos) L.ev.erase(std::remove_if(L.ev.begin(),L.ev.end(),[](const Event&e){return e.kind=="division-by-zero";}),L.ev.end()); addEvents(*E,L.ev,o); 
      if(R){ RunR Q=runOne(*E,R,true); std::vector<Finding> rf; for(auto&e:Q.ev) if(e.kind!="division-by-zero"&&feasibleGuard(e.guard)) { o.why="reference raises "+e.kind+" "+(e.loc>=0?E->locs[e.loc]:""); o.status="unanalysable"; }
        std::vector<Lit> p; Nd care=M->And(L.g,Q.g); for(auto&q:L.abAt) if(feasibleGuard(M->And(q.second,Q.g),&p)) o.f.push_back({"unexpected-abort",E->locs[q.first],"",pathStr(p)}); if(feasibleGuard(M->And(L.g,M->And(Q.ab,M->Not(Q.g))),&p)) o.f.push_back({"missing-abort","","returns where the reference refuses",pathStr(p)});
        if(care==M->F&&L.ab==M->F) {o.status="unanalysable";o.why="no common path";}
        compareCells(*E,L,Q,care,o); size_t n=std::max(L.rv.e.size(),Q.rv.e.size()); for(size_t k=0;k<n;k++){ o.outputs++; Nd a=k<L.rv.e.size()?L.rv.e[k]:M->U,b=k<Q.rv.e.size()?Q.rv.e[k]:M->U; if(a==b) continue; Diff d=findDiff(a,b,care,F->getReturnType()->isFloatTy()?4:8); if(d.limit) o.why="difference too complex to decide"; if(d.found) o.f.push_back({M->L(d.a).k==UND?"uninitialised-result":"wrong-value","","return value",pathStr(d.path)}); }
        if(L.m.trace!=Q.m.trace){ o.outputs++; Diff d=findDiff(L.m.trace,Q.m.trace,care,8); if(d.found) o.f.push_back({"wrong-sequence","","observable call sequence differs",pathStr(d.path)}); if(d.limit) o.why="difference too complex to decide"; }
        if(base.find("pivot_")!=std::string::npos){ for(auto&q:L.divs){ Nd ok=M->F; for(auto&z:Q.divs) if(z.second==q.second) ok=M->Or(ok,z.first); std::vector<Lit> p2; o.outputs++; if(feasibleGuard(M->And(q.first,M->Not(ok)),&p2,true)) o.f.push_back({"wrong-pivot","","divides by an element the pivoting rule does not select",pathStr(p2)}); } }
      } else { checkUnd(*E,L,o); std::vector<Lit> p; if(base.find("refuse_")==std::string::npos) for(auto&q:L.abAt) if(feasibleGuard(q.second,&p)) o.f.push_back({"unexpected-abort",E->locs[q.first],"",pathStr(p)}); if(o.f.empty()&&!feasibleGuard(L.g)) { o.status="unanalysable"; o.why="no path returns"; } }
      o.atoms=mg.at.size(); o.steps=E->steps; if(!o.f.empty()) o.status="violation"; else if(o.status=="ok"&&!o.why.empty()) o.status="unanalysable";
    }catch(Fail&x){ o.status="unanalysable"; std::string at=E->stack.empty()||!E->stack.back().second?"":" ["+E->locs[E->loc(E->stack.back().second)]+"]"; o.why=x.why+at; o.f.clear(); if(!E->guardMode&&!E->limitMode&&!E->inRef) try{ auto ev=E->events; addEvents(*E,ev,o); if(!o.f.empty()) o.status="violation"; }catch(Fail&){ o.f.clear(); } }
    int bad=mg.badRes+(mg.sqrts?mg.posBad:0); bool value=false; for(auto&f:o.f) if(f.kind=="wrong-value"||f.kind=="wrong-sequence"||f.kind=="wrong-pivot"||f.kind=="assertion") value=true; 
    if(s==0||bad<badBest||o.status!="violation"){ badBest=bad; best=o; best.seeds=s+1; }
    bool done=(o.status!="violation"&&o.why!="no common path")||bad==0||(!value&&o.status=="violation"); if(std::chrono::steady_clock::now()>E->deadline) done=true; if(done) break; }
  if(best.status=="violation"&&badBest>0){ bool value=true; for(auto&f:best.f) if(!(f.kind=="wrong-value"||f.kind=="wrong-sequence"||f.kind=="wrong-pivot"||f.kind=="assertion")) value=false; if(value){ best.why="square roots left unresolved ("+std::to_string(badBest)+")"; } }
  G_seed=seed0; return best; }

int main(int argc,char**argv){ std::string only,root="/repo",file; double tl=60; bool list=false; int part=0,parts=1; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--only") only=argv[++i]; else if(a=="--root") root=argv[++i]; else if(a=="--seed") G_seed=strtoull(argv[++i],0,10)*1000003+1; else if(a=="--time") tl=atof(argv[++i]); else if(a=="--list") list=true; else if(a=="--part") sscanf(argv[++i],"%d/%d",&part,&parts); else file=a; }
  LLVMContext cx; SMDiagnostic err; auto mod=parseIRFile(file,err,cx); if(!mod){ err.print("vf",errs()); return 2; }
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM); FunctionPassManager FPM; FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass()); ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.run(*mod,MAM); }
  std::string sink; raw_string_ostream nul(sink); json::OStream J(list?(raw_ostream&)nul:(raw_ostream&)outs(),1); J.arrayBegin(); int n=0,seen=0; for(auto&F:*mod){ if(F.isDeclaration()) continue; StringRef nm=F.getName(); std::string k; for(const char*p:{"lib_","grd_","lim_","chk_"}) if(nm.starts_with(p)) k=std::string(p,3); if(k.empty()) continue; std::string base=nm.substr(4).str(); if(!only.empty()&&base!=only) continue; if(list){ outs()<<nm<<"\n"; continue; } if(seen++%parts!=part) continue; Function*R=nullptr; if(k=="lib"){ R=mod->getFunction("ref_"+base); if(!R||R->isDeclaration()){ errs()<<"no reference for "<<nm<<"\n"; return 2; } }
    auto t0=std::chrono::steady_clock::now(); Outcome o=analyse(*mod,root,&F,R,k,tl); double sec=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); n++;
    J.object([&]{ J.attribute("name",o.name); J.attribute("kind",o.kind); J.attribute("status",o.status); if(!o.why.empty()) J.attribute("why",o.why); J.attribute("seconds",sec); J.attribute("outputs",(i64)o.outputs); J.attribute("steps",(i64)o.steps); J.attribute("atoms",(i64)o.atoms); J.attribute("accesses",(i64)o.accesses); J.attribute("stores",(i64)o.stores); J.attribute("calls",(i64)o.calls); J.attribute("allocations",(i64)o.allocs); J.attribute("asserts",(i64)o.asserts); J.attribute("opaque_calls",(i64)(o.pure+o.lapack)); J.attribute("numberings",(i64)o.seeds); if(auto*sp=F.getSubprogram()) J.attribute("witness",sp->getFilename().str()+":"+std::to_string(sp->getLine()));
      J.attributeArray("functions",[&]{for(auto&f:o.fns)J.value(f);}); J.attributeArray("findings",[&]{for(auto&f:o.f)J.object([&]{J.attribute("kind",f.kind);J.attribute("where",f.loc);J.attribute("detail",f.detail);J.attribute("path",f.path);});}); }); }
  J.arrayEnd(); if(!list) outs()<<"\n"; return 0; }
