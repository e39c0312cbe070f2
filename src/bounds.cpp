#include "bounds.h"
static Lin one(const Value* v) { Lin l; l.t[v] = 1; return l; }
static Lin cst(int64_t c) { Lin l; l.c = c; return l; }
// std::find(first, last, value) on plain pointers, used by its contract
static bool isFind(const Function& G) { return G.arg_size() == 3 && G.getReturnType()->isPointerTy() && G.getArg(0)->getType()->isPointerTy() && G.getArg(1)->getType()->isPointerTy() && G.getName().starts_with("_ZSt4findIP"); }
Function* inlined(Function* F, Types& T, bool strip) {
  static std::set<Function*> done; if (!done.insert(F).second) return F;
  InlineOpts O; O.stripEH = strip; O.maxInsts = 60000;
  O.keep = [](const Function& G) { return isFind(G); };
  O.devirt = [&T](const CallBase& CB, int64_t slot, const CHA& cha) { return T.devirt(CB, slot, cha); };
  inlineAll(*F, O); tagAndSimplify(*F, T);
  return F;
}
bool Bounds::rooted(const Value* P) {
  if (derived.empty()) {
    std::vector<const Value*> wl(roots.begin(), roots.end()); derived.insert(roots.begin(), roots.end());
    auto add = [&](const Value* v) { if (derived.insert(v).second) wl.push_back(v); };
    while (!wl.empty()) { auto* v = wl.back(); wl.pop_back();
      for (auto* U : v->users()) {
        if (auto* G = dyn_cast<GetElementPtrInst>(U)) { if (G->getPointerOperand() == v) add(G); }
        else if (isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U) || isa<BitCastInst>(U)) { if (U->getType() == v->getType()) add(U); }
        else if (isa<PtrToIntInst>(U)) { for (auto* W : U->users()) if (auto* B = dyn_cast<BinaryOperator>(W)) if (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or) for (auto* Y : B->users()) if (isa<IntToPtrInst>(Y)) add(Y); }
        else if (auto* CB = dyn_cast<CallBase>(U)) {
          auto* K = CB->getCalledFunction();
          if (K && !isa<IntrinsicInst>(CB) && CB->getType()->isPointerTy() && CB->arg_size() && CB->getArgOperand(0) == v) for (auto n : {"memchr", "memrchr", "strchr", "strrchr", "rawmemchr", "strchrnul"}) if (K->getName() == n) add(CB);
          if (K && isFind(*K) && CB->getArgOperand(0) == v) add(CB);
        }
        else if (auto* S = dyn_cast<StoreInst>(U)) {     // kept in a local variable
          if (S->getValueOperand() == v) if (auto* A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) for (auto* W : A->users()) if (auto* L = dyn_cast<LoadInst>(W)) if (L->getType()->isPointerTy()) add(L);
        }
      } }
  }
  if (derived.count(P)) return true;
  for (auto& p : PF.paths(P)) if (std::find(roots.begin(), roots.end(), p.root) != roots.end() && std::find(p.steps.begin(), p.steps.end(), (int64_t)Path::DEREF) == p.steps.end()) return true;
  return false;
}
bool Bounds::big(const Value* v) {
  if (isa<ConstantData>(v)) return false;
  if (auto* I = dyn_cast<Instruction>(v)) if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() < 64) return false;
  if (isa<LoadInst>(v) && v->getType()->isIntegerTy()) return true;
  return false;
}
// no negative and no overflowing intermediate value
bool Bounds::sane(const Lin& g, const Instruction* at) {
  bool neg = g.c < 0, over = false; unsigned terms = g.t.size() + (g.c != 0);
  for (auto& [v, c] : g.t) {
    if (c < 0 || sgn.count(v) || isa<SelectInst>(v)) neg = true;
    if (auto* P = dyn_cast<PHINode>(v)) for (auto& x : P->incoming_values()) if (rooted(x)) neg = true;
    if (big(v) && (terms > 1 || c != 1)) over = true;
  }
  if (!neg && !over) return true;
  auto f = facts(at);
  // relative to the buffer if it is an address
  int64_t net = 0; for (auto& [v, c] : g.t) if (v->getType()->isPointerTy()) net += c;
  Lin r = g; if (net == 1) r = g - lo;
  if (neg && !L.proveSplit(f, r, at->getParent())) return false;
  if (over && !L.proveSplit(f, hi - lo - r, at->getParent())) return false;
  return true;
}
bool Bounds::trust(const ICmpInst* I) {
  auto it = trusted.find(I); if (it != trusted.end()) return it->second == 1;
  trusted[I] = 0;
  bool ok = true;
  if (I->isUnsigned() || I->isEquality()) {
    if (I->isUnsigned()) for (int k = 0; k < 2; ++k) if (!sane(L.lin(I->getOperand(k)), I)) ok = false;
  } else for (int k = 0; k < 2; ++k) {       // signed: a big value may be read as a negative one
    Lin g = L.lin(I->getOperand(k)); for (auto& [v, c] : g.t) if (big(v)) ok = false;
  }
  trusted[I] = ok ? 1 : 2;
  return ok;
}
void Bounds::strengthen(const Value* c, bool t, std::vector<Lin>& f) {
  if (auto* B = dyn_cast<BinaryOperator>(c)) {
    if ((B->getOpcode() == Instruction::And && t) || (B->getOpcode() == Instruction::Or && !t)) { strengthen(B->getOperand(0), t, f); strengthen(B->getOperand(1), t, f); }
    return;
  }
  if (auto* S = dyn_cast<SelectInst>(c)) {
    auto* T = dyn_cast<ConstantInt>(S->getTrueValue()); auto* E = dyn_cast<ConstantInt>(S->getFalseValue());
    if (E && E->isZero() && t) { strengthen(S->getCondition(), true, f); strengthen(S->getTrueValue(), true, f); }
    if (T && T->isOne() && !t) { strengthen(S->getCondition(), false, f); strengthen(S->getFalseValue(), false, f); }
    return;
  }
  if (auto* I = dyn_cast<ICmpInst>(c)) if (I->isEquality() && (I->getPredicate() == ICmpInst::ICMP_NE) == t) {
    // a pointer found in the buffer
    for (int k = 0; k < 2; ++k) if (isa<ConstantPointerNull>(I->getOperand(k))) if (auto* CB = dyn_cast<CallBase>(I->getOperand(1 - k))) {
      auto* G = CB->getCalledFunction(); if (!G || (G->getName() != "memchr" && G->getName() != "memrchr")) continue;
      Lin p = L.lin(CB->getArgOperand(0)); f.push_back(one(CB) - p); f.push_back(p + L.lin(CB->getArgOperand(2)) - one(CB) - cst(1));
    }
    Lin d = L.lin(I->getOperand(0)) - L.lin(I->getOperand(1));
    if (L.prove(f, d)) f.push_back(d - cst(1)); else if (L.prove(f, d.mul(-1))) f.push_back(d.mul(-1) - cst(1));
  }
}
std::vector<Lin> Bounds::facts(const Instruction* I) {
  auto f = L.factsAt(I);
  for (auto& [c, t] : domConds(I->getParent(), DT)) strengthen(c, t, f);
  return f;
}
std::vector<Lin> Bounds::edgeFacts(const BasicBlock* A, const BasicBlock* B) {
  auto f = L.factsOnEdge(A, B);
  for (auto& [c, t] : domConds(A, DT)) strengthen(c, t, f);
  if (auto* Br = dyn_cast<BranchInst>(A->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) strengthen(Br->getCondition(), Br->getSuccessor(0) == B, f);
  return f;
}
void Bounds::boundInvariants() {
  for (auto& B : F) for (auto& P : B.phis()) {
    if (!P.getType()->isPointerTy() && !P.getType()->isIntegerTy(64)) continue;
    auto* Lp = LI.getLoopFor(&B); if (!Lp || Lp->getHeader() != &B) continue;
    bool buf = rooted(&P);
    std::vector<std::pair<Lin, bool>> cands; if (buf) { cands.push_back({hi, true}); cands.push_back({lo, false}); }
    for (auto* X : Lp->blocks()) if (auto* Br = dyn_cast<BranchInst>(X->getTerminator())) if (Br->isConditional())
      if (auto* I = dyn_cast<ICmpInst>(Br->getCondition())) for (int k = 0; k < 2; ++k) {
        Lin o = L.lin(I->getOperand(k)); bool inv = true;
        for (auto& [v, c] : o.t) if (auto* VI = dyn_cast<Instruction>(v)) if (Lp->contains(VI)) inv = false;
        if (inv && L.lin(I->getOperand(1 - k)).t.count(&P)) cands.push_back({o, true});
      }
    for (auto& [b, upper] : cands) {
      Lin inv = upper ? b - one(&P) : one(&P) - b; bool ok = true;
      for (unsigned i = 0; i < P.getNumIncomingValues() && ok; ++i) {
        auto* E = P.getIncomingBlock(i);
        auto f = edgeFacts(E, &B); if (Lp->contains(E)) f.push_back(inv);
        if (auto* Br = dyn_cast<BranchInst>(E->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) strengthen(Br->getCondition(), Br->getSuccessor(0) == &B, f);
        Lin in = L.lin(P.getIncomingValue(i));
        if (!L.proveSplit(f, upper ? b - in : in - b, E)) ok = false;
      }
      if (ok) { L.extraAt.push_back({inv, &B}); trusted.clear(); }
    }
  }
}
void Bounds::calls() {
  for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) {
    auto* G = CB->getCalledFunction(); if (!G) continue;
    if (isFind(*G)) { L.extraAt.push_back({one(CB) - L.lin(CB->getArgOperand(0)), I.getParent()}); L.extraAt.push_back({L.lin(CB->getArgOperand(1)) - one(CB), I.getParent()}); }
    if (G->getName() == "strnlen") L.extraAt.push_back({L.lin(CB->getArgOperand(1)) - one(CB), I.getParent()});
  }
}
void Bounds::start() {
  L.unsignedAtoms = true; L.signedAtoms = sgn;
  for (auto* b : roots) L.extra.push_back(one(b));
  L.trust = [this](const ICmpInst* I) { return trust(I); };
  calls();
  for (auto& f : L.loopFacts()) L.extraAt.push_back(f);
  for (auto& f : L.ivFacts()) L.extraAt.push_back(f);
  trusted.clear();
  boundInvariants(); boundInvariants();
  trusted.clear();
}

// ------------------------------------------------------------------ E02
typedef std::map<string, string> Args;
// every access through the buffer pointer of a function lies inside
static int accesses(Bounds& B, Function* F, bool readOnly) {
  int n = 0; auto& DL = F->getParent()->getDataLayout();
  for (auto& I : instructions(*F)) {
    const Value* P = nullptr; Lin size; string bad;
    if (auto* L = dyn_cast<LoadInst>(&I)) { P = L->getPointerOperand(); size = cst(DL.getTypeStoreSize(L->getType())); }
    else if (auto* S = dyn_cast<StoreInst>(&I)) { P = S->getPointerOperand(); size = cst(DL.getTypeStoreSize(S->getValueOperand()->getType())); if (B.rooted(P) && readOnly) bad = "the buffer is written"; }
    else if (auto* MT = dyn_cast<MemIntrinsic>(&I)) {
      size = B.L.lin(MT->getLength());
      if (B.rooted(MT->getRawDest())) { P = MT->getRawDest(); if (readOnly) bad = "the buffer is written"; } else if (auto* T = dyn_cast<MemTransferInst>(MT)) P = T->getRawSource();
    }
    else if (auto* CB = dyn_cast<CallBase>(&I)) {
      if (isa<IntrinsicInst>(CB)) continue;
      auto* G = CB->getCalledFunction(); string gn = G ? G->getName().str() : "";
      for (auto& x : CB->args()) if (x->getType()->isPointerTy() && B.rooted(x)) {
        P = x;
        if (gn == "memchr" || gn == "memrchr" || gn == "memcmp" || gn == "memcpy" || gn == "memmove") size = B.L.lin(CB->getArgOperand(2));
        else if (G && isFind(*G)) { if (!B.rooted(CB->getArgOperand(1))) bad = "searched to an end outside the buffer"; size = B.L.lin(CB->getArgOperand(1)) - B.L.lin(CB->getArgOperand(0)); }
        else if (gn == "strnlen") size = B.L.lin(CB->getArgOperand(1));
        else if (gn == "strlen" || gn == "strdup" || gn == "strcpy" || gn == "strcmp") {
          // fine only where a terminator is known to be inside
          bad = gn + " runs to a terminator that may not be in the buffer"; Lin p = B.L.lin(x);
          for (auto& J : instructions(*F)) if (auto* MC = dyn_cast<CallBase>(&J)) if (auto* H = MC->getCalledFunction()) if (H->getName() == "memchr") {
            auto* K = dyn_cast<ConstantInt>(MC->getArgOperand(1)); if (!K || !K->isZero()) continue;
            Lin d = B.L.lin(MC->getArgOperand(0)) - p; if (!d.ok || !d.t.empty() || d.c) continue;
            for (auto& [c, t] : domConds(I.getParent(), B.DT)) if (auto* IC = dyn_cast<ICmpInst>(c)) if (IC->isEquality() && (IC->getPredicate() == ICmpInst::ICMP_NE) == t)
              if ((IC->getOperand(0) == MC && isa<ConstantPointerNull>(IC->getOperand(1)))) bad = "";
          }
          size = cst(1);
        } else bad = "the buffer pointer is handed to " + (gn.empty() ? "an unknown function" : dem(gn)) + ", which was not analysed";
        break;
      }
    }
    if (!P || !B.rooted(P)) continue;
    ++n;
    string key = F->getName().str() + ": " + where(&I).substr(where(&I).find('('));
    if (!bad.empty()) { R.ob(false, "access-understood", key, where(&I), bad); continue; }
    Lin ad = B.L.lin(P);
    bool okSize = true; for (auto& [v, c] : size.t) if (c < 0 || B.sgn.count(v)) okSize = B.prove(&I, size);
    bool lo = B.prove(&I, ad - B.lo), hi = okSize && B.prove(&I, B.hi - ad - size);
    R.ob(lo && hi, "access-in-bounds", key, where(&I), lo && hi ? "within the buffer" : string("cannot show that the access stays ") + (!hi ? "before the buffer's end" : "after the buffer's start") + " (address " + (ad - B.lo).str() + " from the start, size " + size.str() + ")");
  }
  return n;
}
void threadJumps(Function& F);
static int e02(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); Types T(*M);
  Function* F = M->getFunction("lg_read_program"); if (!F || F->isDeclaration()) R.error("lg_read_program not found");
  auto* st = T.argType(*F, 1); auto* bt = dyn_cast_or_null<DIBasicType>(stripDI(st));
  bool isSigned = bt && bt->getEncoding() == dwarf::DW_ATE_signed;
  inlined(F, T); threadJumps(*F);
  Bounds B(*F); B.roots = {F->getArg(0)}; B.lo = one(F->getArg(0)); B.hi = B.lo + one(F->getArg(1));
  if (isSigned) B.sgn.insert(F->getArg(1));
  B.start();
  int n = accesses(B, F, true);
  R.count("buffer_accesses", n);
  if (n < 4) R.error("lg_read_program does not read its buffer");
  return 0;
}
static Reg re02("E02", e02);
