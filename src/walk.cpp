#include "walk.h"
#include <climits>
#include "llvm/Transforms/Utils/BasicBlockUtils.h"

bool Walker::strip(const DataLayout& DL, const Value* V, const Value*& base, int64_t& off) {
  off = 0;
  for (int n = 0; n < 40; ++n) {
    V = V->stripPointerCasts();
    if (auto* G = dyn_cast<GEPOperator>(V)) {
      APInt o(64, 0);
      if (!G->accumulateConstantOffset(DL, o)) return false;
      off += o.getSExtValue(); V = G->getPointerOperand();
      continue;
    }
    base = V; return true;
  }
  return false;
}
Sym Walker::eval(const WState& S, const Value* V) const {
  for (int n = 0; n < 40; ++n) {
    V = V->stripPointerCasts();
    if (isa<ConstantPointerNull>(V)) return Sym::null();
    if (auto* CI = dyn_cast<ConstantInt>(V)) {
      if (CI->isZero()) return Sym::null();
      if (!ints || CI->getBitWidth() > 64) return Sym();
      int64_t v = CI->getBitWidth() == 1 ? 1 : CI->getSExtValue();
      return v >= INT_MIN && v <= INT_MAX ? Sym::num((int)v) : Sym();
    }
    if (auto* f = dyn_cast<Function>(V)) return Sym::fn(f);
    auto it = S.env.find(V);
    if (it != S.env.end()) return it->second;
    if (auto* G = dyn_cast<GEPOperator>(V)) { V = G->getPointerOperand(); continue; }
    if (isa<PtrToIntOperator>(V)) { V = cast<Operator>(V)->getOperand(0); continue; }
    if (auto* I = dyn_cast<IntToPtrInst>(V)) { V = I->getOperand(0); continue; }
    if (auto* I = dyn_cast<FreezeInst>(V)) { V = I->getOperand(0); continue; }
    if (ints) if (auto* I = dyn_cast<CastInst>(V)) if (isa<ZExtInst, SExtInst, TruncInst>(I)) {
      Sym s = eval(S, I->getOperand(0));
      if (s.k == Sym::Val) return s;
      if (s.k == Sym::Unknown && I->getOperand(0)->getType()->isIntegerTy(1)) { int d = decide(S, I->getOperand(0)); if (d >= 0) s = Sym::num(d); }
      if (isa<SExtInst>(I) && s.k == Sym::Int && I->getOperand(0)->getType()->isIntegerTy(1)) return Sym::num(-1);
      if (s.k == Sym::Int || s.k == Sym::Null) { if (isa<ZExtInst>(I) && s.k == Sym::Int && s.id < 0) return Sym(); return s; }
    }
    if (ints) if (auto* B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::And) {
      Sym a = eval(S, B->getOperand(0)), b = eval(S, B->getOperand(1));
      if (a.k == Sym::Null || b.k == Sym::Null) return Sym::null();
      if (a.k == Sym::Int && b.k == Sym::Int) return Sym::num(a.id & b.id);
    }
    break;
  }
  return Sym();
}
int Walker::decide(const WState& S, const Value* C) const {
  if (auto* K = dyn_cast<ConstantInt>(C)) return !K->isZero();
  auto it = S.cond.find(C);
  if (it != S.cond.end()) return it->second;
  if (ints && C->getType()->isIntegerTy(1)) { auto e = S.env.find(C); if (e != S.env.end()) { if (e->second.k == Sym::Null) return 0; if (e->second.k == Sym::Int) return 1; } }
  if (auto* I = dyn_cast<ICmpInst>(C)) {
    Sym a = eval(S, I->getOperand(0)), b = eval(S, I->getOperand(1));
    if (ints && (a.k == Sym::Int || a.k == Sym::Null) && (b.k == Sym::Int || b.k == Sym::Null)) {
      APInt x(64, a.k == Sym::Int ? (int64_t)a.id : 0, true), y(64, b.k == Sym::Int ? (int64_t)b.id : 0, true);
      return ICmpInst::compare(x, y, I->getPredicate());
    }
    if (!I->isEquality() || a.k == Sym::Int || b.k == Sym::Int) return -1;
    if (a.k == Sym::Unknown || b.k == Sym::Unknown || a.k == Sym::Val || b.k == Sym::Val) return -1;
    bool an = a.k == Sym::Null, bn = b.k == Sym::Null;
    if (an || bn) { bool eq = an == bn; return (I->getPredicate() == ICmpInst::ICMP_EQ) == eq; }
    return -1;
  }
  if (auto* B = dyn_cast<BinaryOperator>(C)) {
    if (!C->getType()->isIntegerTy(1)) return -1;
    int a = decide(S, B->getOperand(0)), b = decide(S, B->getOperand(1));
    switch (B->getOpcode()) {
      case Instruction::Xor: return a < 0 || b < 0 ? -1 : a ^ b;
      case Instruction::And: return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1;
      case Instruction::Or: return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0;
      default: return -1;
    }
  }
  if (auto* Z = dyn_cast<CastInst>(C)) { if (Z->getSrcTy()->isIntegerTy(1)) return decide(S, Z->getOperand(0)); }
  if (auto* P = dyn_cast<SelectInst>(C)) {
    int c = decide(S, P->getCondition());
    if (c >= 0) return decide(S, c ? P->getTrueValue() : P->getFalseValue());
  }
  return -1;
}
void Walker::effects(WState& S, Instruction* I) {
  if (liveOnly) if (auto* II = dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID() == Intrinsic::lifetime_end || II->getIntrinsicID() == Intrinsic::lifetime_start) {
    const Value* b = II->getArgOperand(1)->stripPointerCasts();
    for (auto it = S.mem.lower_bound({b, INT64_MIN}); it != S.mem.end() && it->first.first == b;) it = S.mem.erase(it);
    return;
  }
  if (auto* L = dyn_cast<LoadInst>(I)) {
    const Value* b; int64_t o;
    S.env.erase(I);
    if (strip(DL, L->getPointerOperand(), b, o)) { auto it = S.mem.find({b, o}); if (it != S.mem.end()) S.env[I] = it->second; }
    return;
  }
  if (auto* St = dyn_cast<StoreInst>(I)) {
    const Value* b; int64_t o;
    if (!strip(DL, St->getPointerOperand(), b, o)) return;
    Sym v = eval(S, St->getValueOperand());
    uint64_t n = DL.getTypeStoreSize(St->getValueOperand()->getType());
    for (auto it = S.mem.lower_bound({b, o - 7}); it != S.mem.end() && it->first.first == b && it->first.second < o + (int64_t)n;)
      it = S.mem.erase(it);
    if (v.k != Sym::Unknown) S.mem[{b, o}] = v;
    return;
  }
  if (auto* MI = dyn_cast<MemTransferInst>(I)) {
    const Value *db, *sb; int64_t d, s; auto* n = dyn_cast<ConstantInt>(MI->getLength());
    if (!n || !strip(DL, MI->getRawDest(), db, d)) return;
    std::map<int64_t, Sym> copy;
    if (strip(DL, MI->getRawSource(), sb, s))
      for (auto& [k, v] : S.mem) if (k.first == sb && k.second >= s && k.second < s + (int64_t)n->getZExtValue()) copy[k.second - s] = v;
    for (auto it = S.mem.lower_bound({db, d}); it != S.mem.end() && it->first.first == db && it->first.second < d + (int64_t)n->getZExtValue();) it = S.mem.erase(it);
    for (auto& [k, v] : copy) S.mem[{db, d + k}] = v;
    return;
  }
  if (auto* MS = dyn_cast<MemSetInst>(I)) {
    const Value* db; int64_t d; auto* n = dyn_cast<ConstantInt>(MS->getLength()); auto* z = dyn_cast<ConstantInt>(MS->getValue());
    if (!n || !strip(DL, MS->getRawDest(), db, d)) return;
    for (auto it = S.mem.lower_bound({db, d}); it != S.mem.end() && it->first.first == db && it->first.second < d + (int64_t)n->getZExtValue();) it = S.mem.erase(it);
    if (z && z->isZero() && n->getZExtValue() <= 256) for (uint64_t k = 0; k < n->getZExtValue(); k += 8) S.mem[{db, d + (int64_t)k}] = Sym::null();
    return;
  }
  if (auto* Se = dyn_cast<SelectInst>(I)) {
    int c = decide(S, Se->getCondition());
    Sym a = eval(S, Se->getTrueValue()), b = eval(S, Se->getFalseValue()), r;
    if (c >= 0) r = c ? a : b; else if (a == b) r = a; else if (a.k == Sym::Obj) r = a; else if (b.k == Sym::Obj) r = b;
    if (r.k != Sym::Unknown) S.env[I] = r; else S.env.erase(I);
  }
}
bool Walker::run(Instruction* from, WState S0) {
  seen.clear(); states = 0;
  if (condUses.empty())
    for (auto& B : F) {
      if (auto* T = dyn_cast<BranchInst>(B.getTerminator())) if (T->isConditional()) ++condUses[T->getCondition()];
    }
  if (liveOnly && liveIn.empty()) {
    std::function<void(const BasicBlock*, const Value*)> up = [&](const BasicBlock* B, const Value* V) {
      std::vector<const BasicBlock*> st{B};
      while (!st.empty()) {
        auto* X = st.back(); st.pop_back();
        if (!liveIn[X].insert(V).second) continue;
        if (X == B) if (auto* D = dyn_cast<Instruction>(V)) if (isa<GetElementPtrInst, CastInst, FreezeInst, ICmpInst, BinaryOperator, SelectInst>(D)) for (auto& o : D->operands()) if (isa<Instruction>(o) || isa<Argument>(o)) up(X, o);
        if (auto* D = dyn_cast<Instruction>(V)) if (D->getParent() == X && isa<PHINode>(D)) continue;
        for (auto* P : predecessors(X)) { auto* D = dyn_cast<Instruction>(V); if (D && D->getParent() == P && !isa<PHINode>(D)) continue; st.push_back(P); }
      }
    };
    for (auto& B : F) for (auto& I : B) for (unsigned k = 0; k < I.getNumOperands(); ++k) {
      const Value* V = I.getOperand(k); if (!isa<Instruction>(V) && !isa<Argument>(V)) continue;
      auto* D = dyn_cast<Instruction>(V);
      if (auto* P = dyn_cast<PHINode>(&I)) { auto* E = P->getIncomingBlock(k); if (!(D && D->getParent() == E && !isa<PHINode>(D))) up(E, V); continue; }
      if (D && D->getParent() == &B && !isa<PHINode>(D)) continue;
      up(&B, V);
    }
  }
  struct Item { Instruction* at; WState S; };
  std::vector<Item> wl;
  auto edge = [&](BasicBlock* A, BasicBlock* B, const WState& S) {
    WState N = S;
    std::vector<std::pair<const Value*, Sym>> upd;
    for (auto& P : B->phis()) {
      Value* in = P.getIncomingValueForBlock(A);
      Sym s = eval(S, in);
      if (ints && s.k == Sym::Unknown && P.getType()->isIntegerTy(1)) { int d = decide(S, in); if (d >= 0) s = Sym::num(d); }
      upd.push_back({&P, s});
    }
    for (auto& [p, s] : upd) if (s.k == Sym::Unknown) N.env.erase(p); else N.env[p] = s;
    // a branch condition that is computed anew is open again
    for (auto it = N.cond.begin(); it != N.cond.end();) { auto* I = dyn_cast<Instruction>(it->first); if (I && I->getParent() == B) it = N.cond.erase(it); else ++it; }
    if (liveOnly) { auto& l = liveIn[B]; for (auto i = N.env.begin(); i != N.env.end();) if (l.count(i->first)) ++i; else i = N.env.erase(i); }
    if (memKeep) for (auto i = N.mem.begin(); i != N.mem.end();) if (memKeep(i->first.first)) ++i; else i = N.mem.erase(i);
    if (relevant) {
      N.cond.clear();
      for (auto i = N.env.begin(); i != N.env.end();) if (relevant(i->second)) ++i; else i = N.env.erase(i);
      for (auto i = N.mem.begin(); i != N.mem.end();) if (relevant(i->second)) ++i; else i = N.mem.erase(i);
    }
    if (seen[B].insert(N).second) { ++states; wl.push_back({&*B->getFirstNonPHIIt(), std::move(N)}); }
  };
  if (from) {
    auto* nx = from->getNextNode();
    if (!nx || isa<InvokeInst>(from)) {
      if (auto* II = dyn_cast<InvokeInst>(from)) edge(II->getParent(), II->getNormalDest(), S0);
    } else wl.push_back({nx, S0});
  } else wl.push_back({&*F.getEntryBlock().getFirstNonPHIIt(), S0});
  while (!wl.empty()) {
    if (states > maxStates) {
      if (getenv("LGSA_WALK")) {      // what makes the states differ
        std::map<const BasicBlock*, size_t> n; const BasicBlock* top = nullptr;
        for (auto& [b, s] : seen) if (!top || s.size() > seen[top].size()) top = b;
        std::map<string, std::map<string, int>> h;
        for (auto& s : seen[top]) {
          for (auto& [k, v] : s.flag) ++h["flag " + std::to_string(k)][std::to_string(v)];
          for (auto& [k, v] : s.env) { string t; raw_string_ostream o(t); k->printAsOperand(o, false); ++h["env " + t][std::to_string(v.k) + ":" + std::to_string(v.id)]; }
          for (auto& [k, v] : s.mem) { string t; raw_string_ostream o(t); k.first->printAsOperand(o, false); ++h["mem " + t + "+" + std::to_string(k.second)][std::to_string(v.k) + ":" + std::to_string(v.id)]; }
        }
        errs() << "blocks " << seen.size() << " top " << seen[top].size() << "\n";
        for (auto& [k, m] : h) { errs() << k << " "; for (auto& [v, c] : m) errs() << v << "x" << c << " "; errs() << "\n"; }
      }
      return false;
    }
    Item it = std::move(wl.back()); wl.pop_back();
    WState& S = it.S; bool go = true;
    BasicBlock* B = it.at->getParent();
    Instruction* I = it.at;
    for (; I && !I->isTerminator(); I = I->getNextNode()) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (visit && !visit(S, I)) { go = false; break; }
      effects(S, I);
    }
    if (!go || !I) continue;
    if (auto* II = dyn_cast<InvokeInst>(I)) {
      WState U = S;
      bool cont = !visit || visit(S, I);
      if (cont) edge(B, II->getNormalDest(), S);
      if (unwindPaths && !(nothrow && nothrow(II))) edge(B, II->getUnwindDest(), U);
      continue;
    }
    if (auto* Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) { edge(B, Br->getSuccessor(0), S); continue; }
      int c = decide(S, Br->getCondition());
      for (int k = 0; k < 2; ++k) {
        if (c >= 0 && c != (k == 0)) continue;
        WState N = S;
        if (c < 0 && condUses[Br->getCondition()] > 1) N.cond[Br->getCondition()] = k == 0;
        if (c < 0 && onEdge) onEdge(N, Br, k == 0);
        edge(B, Br->getSuccessor(k), N);
      }
      continue;
    }
    if (auto* Sw = dyn_cast<SwitchInst>(I)) if (ints) { Sym c = eval(S, Sw->getCondition()); if (c.k == Sym::Null || c.k == Sym::Int) { auto* ct = cast<IntegerType>(Sw->getCondition()->getType()); if (ct->getBitWidth() <= 64) { edge(B, Sw->findCaseValue(ConstantInt::get(ct, c.k == Sym::Null ? 0 : (int64_t)c.id, true))->getCaseSuccessor(), S); continue; } } }
    if (isa<SwitchInst>(I)) { for (auto* X : successors(B)) edge(B, X, S); continue; }
    if (isa<UnreachableInst>(I)) continue;
    if (atEnd) atEnd(S, I);
    for (auto* X : successors(B)) edge(B, X, S);
  }
  return true;
}

// every select becomes control flow, so that paths can be followed through it
void lowerSelects(Function& F) {
  std::vector<SelectInst*> v;
  for (auto& I : instructions(F)) if (auto* S = dyn_cast<SelectInst>(&I)) if (!S->getType()->isVectorTy() && S->getCondition()->getType()->isIntegerTy(1)) v.push_back(S);
  for (auto* S : v) {
    BasicBlock* A = S->getParent();
    Instruction* T = SplitBlockAndInsertIfThen(S->getCondition(), S->getIterator(), false);
    BasicBlock* B = T->getParent();
    auto* P = PHINode::Create(S->getType(), 2, "", &S->getParent()->front());
    P->addIncoming(S->getFalseValue(), A); P->addIncoming(S->getTrueValue(), B);
    S->replaceAllUsesWith(P); S->eraseFromParent();
  }
}
// replaces a tested value everywhere in the state
void replaceSym(WState& S, Sym from, Sym to) {
  for (auto& [k, s] : S.env) if (s == from) s = to;
  for (auto& [k, s] : S.mem) if (s == from) s = to;
}
bool nullTest(const BranchInst* Br, bool taken, const Value*& V, bool& isNull) {
  const Value* C = Br->getCondition();
  bool inv = false;
  while (auto* B = dyn_cast<BinaryOperator>(C)) { if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { inv ^= cast<ConstantInt>(B->getOperand(1))->isOne(); C = B->getOperand(0); } else return false; }
  auto* I = dyn_cast<ICmpInst>(C);
  if (!I || !I->isEquality()) return false;
  if (isa<ConstantPointerNull>(I->getOperand(1)) || (isa<ConstantInt>(I->getOperand(1)) && cast<ConstantInt>(I->getOperand(1))->isZero())) V = I->getOperand(0);
  else if (isa<ConstantPointerNull>(I->getOperand(0))) V = I->getOperand(1);
  else return false;
  isNull = ((I->getPredicate() == ICmpInst::ICMP_EQ) == taken) != inv;
  return true;
}

