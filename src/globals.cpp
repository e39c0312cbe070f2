// A05: the library keeps no mutable state outside the objects behind its handles.
#include "core.h"
#include "exc.h"
std::set<const Function*> reachable(Module& M, const CHA& cha, const std::vector<const Function*>& roots);
std::vector<const Function*> apiRoots(Module& M);

namespace {
// functions executed only during one-time initialisation: global constructors
void initFunctions(Module& M, std::set<const Function*>& S) {
  if (auto* G = M.getNamedGlobal("llvm.global_ctors"))
    if (G->hasInitializer())
      if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
        for (auto& op : A->operands())
          if (auto* St = dyn_cast<ConstantStruct>(op))
            if (auto* F = dyn_cast<Function>(St->getOperand(1)->stripPointerCasts())) S.insert(F);
  bool ch = true;
  while (ch) {   // callees used only from initialisation functions
    ch = false;
    for (auto& F : M) {
      if (F.isDeclaration() || S.count(&F) || !F.hasLocalLinkage() || F.use_empty()) continue;
      bool all = true;
      for (auto* U : F.users()) { auto* CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != &F || !S.count(CB->getFunction())) all = false; }
      if (all && S.insert(&F).second) ch = true;
    }
  }
}
bool guarded(const Instruction* I, std::map<const Function*, std::unique_ptr<DominatorTree>>& dts) {
  auto* F = I->getFunction();
  auto& D = dts[F];
  if (!D) D.reset(new DominatorTree(*const_cast<Function*>(F)));
  for (auto& [c, t] : domConds(I->getParent(), *D)) {
    auto* C = dyn_cast<ICmpInst>(c); if (!C) continue;
    auto* L = dyn_cast<CallBase>(C->getOperand(0)); if (!L || !L->getCalledFunction()) continue;
    if (L->getCalledFunction()->getName() == "__cxa_guard_acquire" && ((C->getPredicate() == ICmpInst::ICMP_NE) == t)) return true;
  }
  return false;
}
}

static int a05(const std::map<string, string>& a) {
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  CHA cha(*M);
  auto roots = apiRoots(*M);
  if (roots.size() < 10) R.error("too few lg_ functions");
  std::set<const Function*> init; initFunctions(*M, init);
  std::map<const Function*, std::unique_ptr<DominatorTree>> dts;
  auto reach = reachable(*M, cha, roots);
  R.count("functions_reachable_from_api", reach.size());
  int nconst = 0;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.") || G.getName().starts_with("_ZGV")) continue;
    if (G.isConstant()) { ++nconst; continue; }
    if (!G.hasInitializer()) {
      // library objects: must be ones known to be immutable for our purposes
      string n = G.getName().str();
      bool used = false; for (auto* U : G.users()) if (auto* I = dyn_cast<Instruction>(U)) if (reach.count(I->getFunction())) used = true;
      if (!used) continue;
      static const std::set<string> fine = {"_ZSt7nothrow", "__libc_single_threaded", "__dso_handle", "_ZSt4cerr", "_ZSt4cout", "_ZSt4clog"};
      bool ok = fine.count(n) || G.getName().starts_with("_ZT") || G.getName().starts_with("_ZNSt") || G.getName().starts_with("_ZSt");
      R.ob(ok, "external-object-immutable", n, n, ok ? "standard library object" : "library code uses the external variable " + n);
      continue;
    }
    // value flow of the global's address and of pointers held in it
    std::set<const Value*> seen; std::vector<std::pair<const Value*, int>> wl{{&G, 0}};  // level: 0 address, 1 loaded content
    string bad; string badWhere;
    int uses = 0;
    auto flag = [&](const Instruction* I, const string& m) { if (bad.empty()) { bad = m; badWhere = where(I); } };
    while (!wl.empty() && bad.empty()) {
      auto [V, lev] = wl.back(); wl.pop_back();
      if (!seen.insert(V).second) continue;
      for (auto* U : V->users()) {
        if (bad.size()) break;
        if (isa<GEPOperator>(U) || isa<CastInst>(U) || isa<ConstantExpr>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) { wl.push_back({U, lev}); continue; }
        auto* I = dyn_cast<Instruction>(U);
        if (!I) { if (isa<Constant>(U)) { for (auto* UU : U->users()) (void)UU; wl.push_back({U, lev}); } continue; }
        if (init.count(I->getFunction())) continue;
        ++uses;
        if (auto* L = dyn_cast<LoadInst>(I)) { if (L->getType()->isPointerTy()) wl.push_back({L, 1}); continue; }
        if (auto* S = dyn_cast<StoreInst>(I)) {
          if (S->getPointerOperand() == V) { if (!guarded(I, dts)) flag(I, "written at " + where(I) + " outside one-time initialisation"); }
          else if (auto* A = dyn_cast<AllocaInst>(S->getPointerOperand())) {   // spilled to a local
            for (auto* AU : A->users()) if (auto* AL = dyn_cast<LoadInst>(AU)) wl.push_back({AL, lev});
          } else if (lev == 0) {
            auto* AF = dyn_cast<Argument>(S->getPointerOperand()); (void)AF;
            flag(I, "its address is stored at " + where(I));
          }
          continue;
        }
        if (isa<ICmpInst>(I) || isa<BranchInst>(I) || isa<SwitchInst>(I)) continue;
        if (auto* Ret = dyn_cast<ReturnInst>(I)) {
          auto* F = Ret->getFunction();
          for (auto* FU : F->users()) if (auto* CB = dyn_cast<CallBase>(FU)) if (CB->getCalledOperand() == F && reach.count(CB->getFunction())) wl.push_back({CB, lev});
          continue;
        }
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { flag(I, "atomically modified at " + where(I)); continue; }
        if (auto* CB = dyn_cast<CallBase>(I)) {
          if (isa<DbgInfoIntrinsic>(CB) || CB->isLifetimeStartOrEnd()) continue;
          if (auto* MT = dyn_cast<MemTransferInst>(CB)) {
            if (MT->getRawDest() == V && !guarded(I, dts)) flag(I, "overwritten at " + where(I));
            continue;
          }
          if (isa<MemSetInst>(CB)) { if (!guarded(I, dts)) flag(I, "overwritten at " + where(I)); continue; }
          if (guarded(I, dts)) continue;
          bool res; auto ts = cha.targets(CB, &res);
          for (auto* T : ts) {
            if (T->isDeclaration()) {
              string n = T->getName().str();
              static const std::set<string> ro = {"strlen", "memcmp", "strcmp", "__cxa_begin_catch", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "_ZdlPv", "_ZdlPvm", "__cxa_throw", "__cxa_atexit"};
              if (n.rfind("llvm.", 0) == 0 || ro.count(n)) continue;
              for (unsigned k = 0; k < CB->arg_size(); ++k)
                if (CB->getArgOperand(k) == V && !CB->onlyReadsMemory(k)) flag(I, "passed to " + n + " at " + where(I));
            } else for (unsigned k = 0; k < CB->arg_size() && k < T->arg_size(); ++k)
              if (CB->getArgOperand(k) == V) wl.push_back({T->getArg(k), lev});
          }
        }
      }
    }
    R.count("mutable_global_uses", uses);
    R.ob(bad.empty(), G.isThreadLocal() ? "no-thread-state" : "no-mutable-global", dem(G.getName()), bad.empty() ? G.getName().str() : badWhere,
         bad.empty() ? "never written after initialisation (" + std::to_string(uses) + " uses followed)" : "the variable " + dem(G.getName()) + " lives across calls and is " + bad);
  }
  R.count("constant_globals", nconst);
  R.ob(true, "constants", "constant-globals", "", std::to_string(nconst) + " globals are in read-only memory");
  // writes through constants would trap; calls into process-wide state of the C library
  static const std::set<string> deny = {"strtok", "rand", "srand", "random", "srandom", "setlocale", "putenv", "setenv", "unsetenv", "localtime", "gmtime",
    "asctime", "ctime", "strerror", "tmpnam", "signal", "chdir", "umask", "uloc_setDefault", "ucnv_setDefaultName", "u_cleanup", "u_setDataDirectory", "atexit", "drand48", "lrand48", "srand48"};
  int ext = 0;
  for (auto* F : reach) for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* T = CB->getCalledFunction()) if (T->isDeclaration()) {
    ++ext; string n = T->getName().str(); auto k = n.find("_74"); string base = k != string::npos ? n.substr(0, k) : n;
    if (base.size() > 3 && isdigit(base.back())) { auto u = base.rfind('_'); if (u != string::npos) base = base.substr(0, u); }
    bool b = deny.count(n) || deny.count(base) || n == "_ZNSt6locale6globalERKS_";
    if (b) R.ob(false, "no-process-state-call", fnName(F) + " calls " + n, where(CB), n + " changes state shared by the whole process");
  }
  R.count("external_call_sites", ext);
  R.ob(true, "no-process-state-call", "library-calls", "", std::to_string(ext) + " external call sites reachable from the API were looked at");
  for (auto* F : roots) R.ob(true, "root", F->getName().str(), whereF(F), "everything it reaches was looked at");
  return 0;
}
static Reg r("A05", a05);
