// ve: effect queries over LLVM IR.
//
//   ve --root DIR FILE.bc
//
// Lists every variable with static storage duration that is defined by the library (its declaration
// lies under DIR) and can change after start-up, together with each instruction in a reachable
// function that may write it, and every call to an external function that keeps hidden state.
// A use of the variable's address is followed through address arithmetic, selections, local
// variables and calls (by parameter, to a fixed point); an address that leaves this analysis is
// reported as a possible write.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static std::string Root;
static std::string under(StringRef dir, StringRef file) {
  std::string f = file.startswith("/") ? file.str() : (dir + "/" + file).str();
  size_t p; while ((p = f.find("/./")) != std::string::npos) f.erase(p, 2);
  if (StringRef(f).startswith(Root + "/")) return f.substr(Root.size() + 1);
  return "";
}
static std::string where(const Instruction *I) {
  const DILocation *L = I->getDebugLoc().get();
  std::string best;
  for (const DILocation *l = L; l; l = l->getInlinedAt()) {
    std::string u = under(l->getDirectory(), l->getFilename());
    if (!u.empty()) { best = u + ":" + std::to_string(l->getLine()); break; }
  }
  if (best.empty() && L) best = (L->getFilename() + ":" + std::to_string(L->getLine())).str();
  return best;
}
struct Site { std::string fn, at, how; };

// Which parameters a function may write through, and which may flow into its result.
struct Summary { std::set<unsigned> writes, escapes, returned; };
static std::map<const Function *, Summary> Sum;

// Follow the value `root`; report writes, escapes and whether it is returned.
template <class W> static void follow(const Value *root, W report, bool &returned, const Function *only) {
  std::set<const Value *> seen; std::vector<const Value *> work{root};
  while (!work.empty()) {
    const Value *v = work.back(); work.pop_back();
    if (!seen.insert(v).second) continue;
    for (const User *u : v->users()) {
      if (isa<ConstantExpr>(u) || isa<ConstantAggregate>(u)) { work.push_back(u); continue; }
      auto *I = dyn_cast<Instruction>(u);
      if (!I) { if (isa<GlobalVariable>(u)) report(nullptr, "stored in another static object"); continue; }
      if (only && I->getFunction() != only) continue;
      if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I) || isa<InsertValueInst>(I) || isa<ExtractValueInst>(I)) { work.push_back(I); continue; }
      if (isa<LoadInst>(I) || isa<CmpInst>(I)) continue;
      if (auto *S = dyn_cast<StoreInst>(I)) {
        if (S->getPointerOperand() == v) report(I, "written");
        if (S->getValueOperand() == v) {
          const Value *d = S->getPointerOperand()->stripInBoundsOffsets();
          if (isa<AllocaInst>(d)) { // a local that SROA could not split: follow every pointer loaded from it
            std::vector<const Value *> w2{d}; std::set<const Value *> s2;
            while (!w2.empty()) {
              const Value *x = w2.back(); w2.pop_back(); if (!s2.insert(x).second) continue;
              for (const User *q : x->users()) {
                if (auto *L = dyn_cast<LoadInst>(q)) { if (L->getType()->isPointerTy()) work.push_back(L); }
                else if (isa<GetElementPtrInst>(q)) w2.push_back(q);
                // a by-reference expression object: the callee may only reach the address through it
                else if (auto *C = dyn_cast<CallBase>(q)) { if (auto *f = C->getCalledFunction()) if (f->isIntrinsic()) continue; report(C, "address kept in an object that is passed on"); }
              }
            }
          } else report(I, "address stored");
        }
        continue;
      }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { report(I, "written"); continue; }
      if (isa<ReturnInst>(I)) { returned = true; continue; }
      if (auto *C = dyn_cast<CallBase>(I)) {
        if (auto *MI = dyn_cast<MemIntrinsic>(C)) { if (MI->getRawDest()->stripInBoundsOffsets() == root || MI->getRawDest() == v) report(I, "written"); continue; }
        if (isa<IntrinsicInst>(C)) continue;
        const Function *f = C->getCalledFunction();
        for (unsigned k = 0; k < C->arg_size(); k++) if (C->getArgOperand(k) == v) {
          if (!f) { report(I, "passed to an unknown function"); continue; }
          if (f->isDeclaration()) { if (!f->hasParamAttribute(k, Attribute::ReadOnly) && !f->hasParamAttribute(k, Attribute::ReadNone) && !f->onlyReadsMemory()) report(I, "passed to an external function"); continue; }
          auto &s = Sum[f];
          if (s.writes.count(k)) report(I, "written by the callee");
          if (s.escapes.count(k)) report(I, "address kept by the callee");
          if (s.returned.count(k)) work.push_back(I);
        }
        continue;
      }
      report(I, "used in an unrecognised way");
    }
  }
}

// The blocks that run the one-time initialisation of the function-local object `G`, and whether the
// initial value can depend on the arguments of the call that happens to run it.
static std::set<const BasicBlock *> initBlocks(Module &M, const GlobalVariable &G, bool &dependent) {
  std::set<const BasicBlock *> in; dependent = false;
  if (!G.getName().startswith("_Z")) return in;
  auto *guard = M.getNamedGlobal(("_ZGV" + G.getName().substr(2)).str());
  if (!guard) return in;
  for (const User *u : guard->users()) {
    auto *C = dyn_cast<CallBase>(u);
    if (!C || !C->getCalledFunction() || C->getCalledFunction()->getName() != "__cxa_guard_acquire") continue;
    std::vector<const BasicBlock *> work; std::set<const BasicBlock *> here;
    auto *br = dyn_cast<BranchInst>(C->getParent()->getTerminator());
    if (!br || !br->isConditional()) { dependent = true; continue; }
    work.push_back(br->getSuccessor(0));
    while (!work.empty()) {
      auto *B = work.back(); work.pop_back(); if (!here.insert(B).second) continue;
      bool last = false;
      for (auto &I : *B) if (auto *R = dyn_cast<CallBase>(&I)) if (auto *f = R->getCalledFunction()) if (f->getName() == "__cxa_guard_release") last = true;
      if (!last) for (auto *n : successors(B)) work.push_back(n);
    }
    for (auto *B : here) for (auto &I : *B) for (auto &op : I.operands()) {
      if (isa<Argument>(op)) dependent = true;
      if (auto *J = dyn_cast<Instruction>(op)) if (!here.count(J->getParent())) {
        bool local = isa<AllocaInst>(J);
        if (local) for (auto *q : J->users()) if (auto *K = dyn_cast<Instruction>(q)) if (!here.count(K->getParent()) && !isa<IntrinsicInst>(K)) local = false;
        if (!local) dependent = true;
      }
    }
    in.insert(here.begin(), here.end());
  }
  return in;
}

int main(int argc, char **argv) {
  std::string file; Root = "/repo";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--root") Root = argv[++i]; else file = a; }
  LLVMContext cx; SMDiagnostic err; auto mod = parseIRFile(file, err, cx);
  if (!mod) { err.print("ve", errs()); return 2; }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(PromotePass());
  for (auto &F : *mod) if (!F.isDeclaration()) FPM.run(F, FAM);
  // parameter summaries to a fixed point
  for (bool changed = true; changed;) {
    changed = false;
    for (auto &F : *mod) {
      if (F.isDeclaration()) continue;
      for (auto &A : F.args()) {
        if (!A.getType()->isPointerTy()) continue;
        Summary &s = Sum[&F]; unsigned k = A.getArgNo(); bool ret = false;
        follow(&A, [&](const Instruction *, const char *how) { auto &t = StringRef(how).startswith("written") ? s.writes : s.escapes; if (t.insert(k).second) changed = true; }, ret, &F);
        if (ret && s.returned.insert(k).second) changed = true;
      }
    }
  }
  auto startup = [](const Function *F) { return F->getName().startswith("__cxx_global_var_init") || F->getName().startswith("_GLOBAL__"); };
  json::OStream J(outs(), 1); long fns = 0, calls = 0, globals = 0;
  std::vector<std::pair<std::string, Site>> bad; std::set<std::string> libfns; std::vector<std::string> vars;
  static const std::set<std::string> hidden = {"rand", "srand", "random", "srandom", "drand48", "srand48", "lrand48", "mrand48", "strtok", "setlocale", "asctime", "ctime", "gmtime", "localtime", "time", "clock", "getenv", "setenv", "putenv", "lgamma", "lgammaf", "fesetround", "fesetexceptflag", "signal"};
  for (auto &F : *mod) {
    if (F.isDeclaration()) continue;
    fns++; bool mine = false;
    if (auto *sp = F.getSubprogram()) mine = !under(sp->getFile() ? sp->getFile()->getDirectory() : "", sp->getFilename()).empty();
    if (mine) libfns.insert(demangle(F.getName().str()));
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
      calls++; if (!mine) continue;
      if (auto *f = C->getCalledFunction()) if (f->isDeclaration() && hidden.count(f->getName().str())) bad.push_back({f->getName().str(), {demangle(F.getName().str()), where(&I), "calls a function with hidden state"}});
    }
  }
  for (auto &G : mod->globals()) {
    if (G.isDeclaration()) continue;
    if (G.getName().startswith("llvm.")) continue;
    SmallVector<DIGlobalVariableExpression *, 1> di; G.getDebugInfo(di);
    std::string at;
    for (auto *d : di) { auto *v = d->getVariable(); at = under(v->getFile() ? v->getFile()->getDirectory() : "", v->getFilename()); if (!at.empty()) { at += ":" + std::to_string(v->getLine()); break; } }
    if (at.empty()) continue;
    globals++;
    std::string nm = demangle(G.getName().str());
    vars.push_back(nm + " (" + at + ")" + (G.isConstant() ? " constant" : ""));
    if (G.isConstant()) continue;
    // an object without data members has no state
    std::function<bool(Type *)> empty = [&](Type *t) -> bool { if (auto *s = dyn_cast<StructType>(t)) { if (s->getNumElements() == 0) return true; if (s->getNumElements() == 1 && s->getElementType(0)->isIntegerTy(8) && s->hasName() && !StringRef(s->getName()).startswith("union")) { for (auto *d : di) { const DIType *ty = d->getVariable()->getType(); while (auto *q = dyn_cast_or_null<DIDerivedType>(ty)) ty = q->getBaseType(); if (auto *c = dyn_cast_or_null<DICompositeType>(ty)) { bool data = false; for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if ((m->getTag() == llvm::dwarf::DW_TAG_member && !m->isStaticMember())) data = true; return !data; } } return false; } for (auto *e : s->elements()) if (!empty(e)) return false; return true; } return false; };
    if (empty(G.getValueType())) continue;
    bool ret = false, dependent = false;
    auto once = initBlocks(*mod, G, dependent);
    follow(&G, [&](const Instruction *I, const char *how) {
      if (I && startup(I->getFunction())) return;
      if (I && once.count(I->getParent())) { if (!dependent) return; how = "keeps a value computed from the arguments of the first call"; }
      bad.push_back({nm + " (" + at + ")", {I ? demangle(I->getFunction()->getName().str()) : "", I ? where(I) : at, how}});
    }, ret, nullptr);
    if (G.isThreadLocal()) bad.push_back({nm + " (" + at + ")", {"", at, "state kept per thread"}});
  }
  J.object([&] {
    J.attribute("functions", (int64_t)fns); J.attribute("calls", (int64_t)calls); J.attribute("globals", (int64_t)globals);
    J.attributeArray("library_functions", [&] { for (auto &f : libfns) J.value(f); });
    J.attributeArray("variables", [&] { for (auto &v : vars) J.value(v); });
    J.attributeArray("findings", [&] { for (auto &b : bad) J.object([&] { J.attribute("object", b.first); J.attribute("function", b.second.fn); J.attribute("where", b.second.at); J.attribute("how", b.second.how); }); });
  });
  outs() << "\n"; return 0;
}
