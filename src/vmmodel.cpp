#include "vmmodel.h"
#include "llvm/Transforms/Utils/Cloning.h"
std::vector<const Function*> apiRoots(Module& M);
void unrollFixed(Function& F);

static bool ptrTo(const Types& T, const DIType* ty, uint64_t off, const DIType* target, int64_t& out, int depth = 0) {
  ty = T.canon(ty);
  if (auto* p = Types::pointee(ty)) { if (T.concrete(p) == target) { out = off; return true; } return false; }
  auto* C = dyn_cast_or_null<DICompositeType>(ty);
  if (!C || depth > 8) return false;
  for (auto* E : C->getElements()) {
    auto* D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember()) continue;
    if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
    if (ptrTo(T, D->getBaseType(), off + D->getOffsetInBits() / 8, target, out, depth + 1)) return true;
  }
  return false;
}
VmModel::VmModel(Module& M) : M(M), T(M) {
  Function* srch = M.getFunction("lg_search"); reset = M.getFunction("lg_reset_context"); create = M.getFunction("lg_create_context");
  if (!srch || !reset || !create || srch->isDeclaration()) R.error("search entry points not found");
  auto* HT = T.argType(*srch, 0);
  auto* pt = Types::pointee(HT);
  ctxHandle = dyn_cast_or_null<DICompositeType>(T.canon(pt));
  if (!ctxHandle) R.error("type of the context handle not found");
  // the engine: the unique concrete class behind a pointer in the handle that has virtual functions
  for (auto& [n, C] : T.byName) {
    auto it = T.derived.find(C); if (it == T.derived.end()) continue;
    auto* K = dyn_cast_or_null<DICompositeType>(T.concrete(C)); int64_t o;
    if (K && K != C && ptrTo(T, ctxHandle, 0, K, o)) { vm = K; implOff = o; }
  }
  if (!vm) {   // not polymorphic: a class with a member of vectors directly behind the handle
    for (auto n : {"Vm"}) { auto it = T.byName.find(n); int64_t o; if (it != T.byName.end() && ptrTo(T, ctxHandle, 0, it->second, o)) { vm = it->second; implOff = o; } }
  }
  if (!vm) R.error("engine class behind the context handle not found");
  for (auto* F : apiRoots(M)) {
    auto* a0 = T.argType(*F, 0);
    if (!a0 || T.canon(Types::pointee(a0)) != ctxHandle) continue;
    if (F == reset || F->getName().contains("destroy")) continue;
    searchRoots.push_back(const_cast<Function*>(F));
  }
  if (searchRoots.size() < 4) R.error("fewer than four search entry points");
}
Path VmModel::basePath(Function* F) {
  Path p; p.root = F->getArg(0);
  if (implOff) p.steps.push_back(implOff);
  p.steps.push_back(Path::DEREF);
  return p;
}
Function* VmModel::prep(Function* F) {
  if (!prepared.insert(F).second) return F;
  InlineOpts O; O.stripEH = true; O.maxInsts = 60000;
  O.devirt = [this](const CallBase& CB, int64_t slot, const CHA& cha) { return T.devirt(CB, slot, cha); };
  inlineAll(*F, O); unrollFixed(*F);
  tagAndSimplify(*F, T);
  return F;
}
Function* VmModel::ctor() {
  // the constructor whose `this` is the engine class; the complete-object one
  for (auto& F : M) {
    if (F.isDeclaration()) continue;
    auto* S = F.getSubprogram(); if (!S) continue;
    auto* D = S->getDeclaration() ? S->getDeclaration() : S;
    if (D->getName() != vm->getName()) continue;
    if (T.canon(dyn_cast_or_null<DIType>(D->getScope())) != vm) continue;
    string n = F.getName().str();
    if (n.find("C1") == string::npos && n.find("C2") == string::npos) continue;
    // skip copy/move constructors
    if (F.arg_size() == 2 && T.argType(F, 1) && Types::pointee(T.argType(F, 1)) && T.canon(Types::pointee(T.argType(F, 1))) == vm) continue;
    if (n.find("C2") != string::npos) return &F;
  }
  return nullptr;
}
const Summary& VmModel::summary(Function* G, unsigned arg) {
  auto& mp = sums[G];
  auto it = mp.find(arg);
  if (it != mp.end()) return it->second;
  Summary& S = mp[arg];      // empty while being computed
  auto& cl = cloneOf[G];
  if (!cl) { ValueToValueMapTy VM; cl = CloneFunction(G, VM); cl->setName(G->getName() + ".summary"); }
  prep(cl);
  for (int i = 0; i < 4; ++i) {
    Path b; b.root = cl->getArg(arg);
    auto c = flow(cl, b); c->run();
    Summary n = S;
    for (auto& [o, w] : c->writes) n.mods.insert(o);
    for (auto& [o, w] : c->readsIncoming) n.reads.insert(o);
    for (auto& [o, w] : c->heapWrites) n.heap.insert(o);
    bool same = n.mods == S.mods && n.reads == S.reads && n.heap == S.heap;
    mp[arg] = n;
    if (same) break;
  }
  return mp[arg];
}
std::unique_ptr<CellFlow> VmModel::flow(Function* F, const Path& base) {
  auto C = std::make_unique<CellFlow>(*F, T, base, vm);
  auto* cp = C.get();
  C->modOf = [this, cp](const CallBase* CB, std::set<int64_t>& mods) {
    auto* G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    if (!G || G->isDeclaration() || G->isIntrinsic()) return false;
    bool all = true;
    for (unsigned k = 0; k < CB->arg_size(); ++k) {
      if (!CB->getArgOperand(k)->getType()->isPointerTy()) continue;
      int64_t o; bool may;
      if (cp->cellOf(CB->getArgOperand(k), o, may)) {
        auto& S = summary(G, k);
        for (auto m : S.mods) mods.insert(m + o);
        for (auto r : S.reads) {
          // value at the call: if still the incoming one, it is read
          cp->cells.insert(r + o);
          cp->callReads[CB].insert(r + o);
        }
        for (auto h : S.heap) if (!cp->heapWrites.count(h + o)) cp->heapWrites[h + o] = CB;
      } else if (may) all = false;
    }
    return all;
  };
  return C;
}

std::vector<Fill> findFills(CellFlow& C, int64_t vec, uint64_t elem) {
  std::vector<Fill> out;
  LoopInfo LI(C.DT);
  auto stateAt = [&](const BasicBlock* B) { return C.in.count(B) ? C.in[B] : CellFlow::State(); };
  auto val = [&](CellFlow::State& s, int64_t o) { auto it = s.find(o); if (it != s.end()) return it->second; Lin l; l.t[C.sym(o)] = 1; return l; };
  auto isZero = [&](const Lin& d) { return C.L.proveEq(C.L.extra, d, Lin()); };
  for (auto& B : C.F) {
    if (C.dead.count(&B)) continue;
    for (auto& I : B) {
      if (auto* MS = dyn_cast<MemSetInst>(&I)) {
        auto* K = dyn_cast<ConstantInt>(MS->getValue()); if (!K || !K->isZero()) continue;
        auto s = stateAt(&B);
        Lin b = C.lin(MS->getRawDest()), n = C.lin(MS->getLength());
        if (isZero(b - val(s, vec)) && isZero(b + n - val(s, vec + 8))) out.push_back({vec, &B, &I, Lin()});
        continue;
      }
      auto* S = dyn_cast<StoreInst>(&I); if (!S) continue;
      auto* K = dyn_cast<Constant>(S->getValueOperand()); if (!K || !K->isNullValue()) continue;
      if (C.F.getParent()->getDataLayout().getTypeStoreSize(K->getType()) != elem) continue;
      Loop* Lp = LI.getLoopFor(&B); if (!Lp) continue;
      auto* H = Lp->getHeader();
      auto* latch = Lp->getLoopLatch(); if (!latch || !C.DT.dominates(&B, latch)) continue;
      auto* ph = Lp->getLoopPredecessor(); if (!ph) continue;
      auto* ex = Lp->getExitingBlock(); if (!ex) continue;
      auto* Br = dyn_cast<BranchInst>(ex->getTerminator()); if (!Br || !Br->isConditional()) continue;
      Lin addr = C.lin(S->getPointerOperand());
      // induction variables of this loop in the address
      Lin first = addr, step;
      bool ok = true;
      for (auto& [v, k] : addr.t) {
        auto* P = dyn_cast<PHINode>(v);
        if (!P || P->getParent() != H) { if (auto* VI = dyn_cast<Instruction>(v)) if (Lp->contains(VI)) ok = false; continue; }
        Lin self; self.t[P] = 1;
        Lin init = C.lin(P->getIncomingValueForBlock(ph)), inc = C.lin(P->getIncomingValueForBlock(latch)) - self;
        if (!inc.t.empty()) ok = false;
        first = first - self.mul(k) + init.mul(k);
        step = step + inc.mul(k);
      }
      if (!ok || !step.t.empty() || step.c != (int64_t)elem) continue;
      auto s = stateAt(H);
      if (!isZero(first - val(s, vec))) continue;
      // leaving the loop implies that the address to be written next is the end
      auto facts = C.L.extra;
      bool exitTrue = !Lp->contains(Br->getSuccessor(0));
      auto* IC = dyn_cast<ICmpInst>(Br->getCondition()); if (!IC) continue;
      Lin a = C.lin(IC->getOperand(0)), b = C.lin(IC->getOperand(1));
      auto pr = exitTrue ? IC->getPredicate() : IC->getInversePredicate();
      // position at the test: number of stores already made
      bool testFirst = !C.DT.dominates(&B, ex) || ex == H;     // header test before the store
      Lin next = addr; if (!testFirst || (ex != H && C.DT.dominates(&B, ex))) next.c += elem;
      Lin end = val(s, vec + 8);
      bool done = false;
      Lin d = next - end;                       // zero when the loop leaves?
      Lin ab = a - b;
      for (int sg : {1, -1}) for (int64_t sc : {(int64_t)1, (int64_t)elem}) {
        // d == sg*sc*(a-b)  (as linear forms, using definitions of scaled atoms)
        if (C.L.proveEq(C.L.extra, d, ab.mul(sg * sc))) {
          if (pr == ICmpInst::ICMP_EQ) done = true;
          if (sg == 1 && (pr == ICmpInst::ICMP_UGE || pr == ICmpInst::ICMP_SGE)) done = true;
          if (sg == -1 && (pr == ICmpInst::ICMP_ULE || pr == ICmpInst::ICMP_SLE)) done = true;
        }
      }
      if (done) out.push_back({vec, H, S, Lin()});
    }
  }
  return out;
}
bool coveredByFill(CellFlow& C, int64_t vec, const std::vector<Fill>& fills, const Instruction* after, const BasicBlock* stopAt) {
  std::set<const BasicBlock*> F; for (auto& f : fills) F.insert(f.header);
  std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl;
  auto emptyEdge = [&](const BasicBlock* A, const BasicBlock* B) {     // the branch shows the vector is empty
    auto* Br = dyn_cast<BranchInst>(A->getTerminator());
    if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return false;
    std::vector<Lin> f = C.L.extra; C.L.condFacts(Br->getCondition(), Br->getSuccessor(0) == B, f);
    auto it = C.in.find(A); if (it == C.in.end()) return false;
    auto g = [&](int64_t o) { auto k = it->second.find(o); Lin l; if (k != it->second.end()) return k->second; l.t[C.sym(o)] = 1; return l; };
    return C.L.prove(f, g(vec) - g(vec + 8));
  };
  if (after) {
    auto* B = after->getParent();
    for (auto& f : fills) if (f.header == B && isa<MemSetInst>(f.site) && after->comesBefore(f.site)) return true;
    if (isa<ReturnInst>(B->getTerminator())) return false;
    for (auto* S : successors(B)) if (!C.deadEdges.count({B, S}) && !emptyEdge(B, S)) wl.push_back(S);
  } else wl.push_back(&C.F.getEntryBlock());
  while (!wl.empty()) {
    auto* B = wl.back(); wl.pop_back();
    if (F.count(B) || !seen.insert(B).second) continue;
    if (B == stopAt || isa<ReturnInst>(B->getTerminator())) return false;
    for (auto* S : successors(B)) if (!C.deadEdges.count({B, S}) && !emptyEdge(B, S)) wl.push_back(S);
  }
  return true;
}
