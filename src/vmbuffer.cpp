// B05, B06: how the search entry points walk the caller's buffer.
#include "vmmodel.h"
typedef std::map<string, string> Args;
static Lin one(const Value* v) { Lin l; l.t[v] = 1; return l; }
static Lin cst(int64_t c) { Lin l; l.c = c; return l; }
struct Buf {
  VmModel& V; Function* F; std::unique_ptr<CellFlow> C; LoopInfo LI;
  const Value *beg = nullptr, *end = nullptr, *off = nullptr;
  std::map<const ICmpInst*, int> trusted;     // 0 in progress
  explicit Buf(VmModel& V, Function* F) : V(V), F(F) {
    C = V.flowRoot(F); LI.analyze(C->DT);
    for (unsigned i = 0; i < F->arg_size(); ++i) {
      auto* D = dyn_cast_or_null<DIDerivedType>(stripDI(V.T.argType(*F, i)));
      auto* B = dyn_cast_or_null<DIBasicType>(D && D->getTag() == dwarf::DW_TAG_pointer_type ? stripDI(D->getBaseType()) : nullptr);
      if (B && B->getSizeInBits() == 8) { if (!beg) beg = F->getArg(i); else if (!end) end = F->getArg(i); }
      else if (auto* I = dyn_cast_or_null<DIBasicType>(stripDI(V.T.argType(*F, i)))) if (I->getSizeInBits() == 64) off = F->getArg(i);
    }
    if (!beg || !end) return;
    auto& L = C->L; L.unsignedAtoms = true;
    C->L.extra.push_back(one(end) - one(beg)); C->L.extra.push_back(one(beg));
    L.trust = [this](const ICmpInst* I) { return trust(I); };
    for (auto& f : L.loopFacts()) L.extraAt.push_back(f);
    for (auto& f : L.ivFacts()) L.extraAt.push_back(f);
    constantFields();
    boundInvariants();
  }
  // loads of one location that nothing reachable from here writes (by field) have one value
  void constantFields() {
    std::set<string> written; std::set<const Function*> seen; std::vector<const Function*> wl{F}; bool unknown = false;
    while (!wl.empty()) {
      auto* G = wl.back(); wl.pop_back(); if (!seen.insert(G).second || G->isDeclaration()) continue;
      PathFinder PG(V.M);
      for (auto& I : instructions(*G)) {
        const Value* P = nullptr;
        if (auto* S = dyn_cast<StoreInst>(&I)) P = S->getPointerOperand(); else if (auto* MI = dyn_cast<MemIntrinsic>(&I)) P = MI->getRawDest();
        if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* K = CB->getCalledFunction()) wl.push_back(K);
        if (!P || isa<AllocaInst>(getUnderlyingObject(P))) continue;
        string c = V.T.memClass(G == F ? C->PF : PG, P); if (c.empty()) unknown = true; written.insert(c);
      }
    }
    (void)unknown;
    std::vector<std::pair<Lin, const LoadInst*>> reps;
    for (auto* B : ReversePostOrderTraversal<Function*>(F)) for (auto& I : *B) if (auto* L = dyn_cast<LoadInst>(&I)) {
      if (!L->getType()->isIntegerTy()) continue;
      string c = V.T.memClass(C->PF, L->getPointerOperand()); if (c.empty() || written.count(c)) continue;
      Lin a = C->lin(L->getPointerOperand()); bool hit = false;
      for (auto& [r, q] : reps) if (q->getType() == L->getType()) { Lin d = a - r; if (d.t.empty() && !d.c && C->DT.dominates(q, L)) { C->L.canon[L] = q; hit = true; break; } }
      if (!hit) reps.push_back({a, L});
    }
  }
  // an unsigned comparison means what it says about integers if neither side can have wrapped below zero
  bool trust(const ICmpInst* I) {
    if (!I->isUnsigned()) return true;
    auto it = trusted.find(I); if (it != trusted.end()) return it->second == 1;
    trusted[I] = 0;
    bool ok = true;
    for (int k = 0; k < 2; ++k) {
      const Value* o = I->getOperand(k); bool buf = false;
      if (o->getType()->isPointerTy()) for (auto& p : C->PF.paths(o)) if (p.root == beg || p.root == end) buf = true;
      Lin g = C->lin(o); if (buf) g = g - one(beg);
      bool neg = g.c < 0; for (auto& [v, c] : g.t) if (c < 0 || isa<SelectInst>(v) || (isa<PHINode>(v) && buf)) neg = true;
      if (!neg) continue;
      auto f = facts(I);
      if (!C->L.proveSplit(f, g, I->getParent())) ok = false;
    }
    trusted[I] = ok ? 1 : 2;
    return ok;
  }
  // x != y together with x >= y gives x > y
  void strengthen(const Value* c, bool t, std::vector<Lin>& f) {
  if (auto* B = dyn_cast<BinaryOperator>(c)) {
    if ((B->getOpcode() == Instruction::And && t) || (B->getOpcode() == Instruction::Or && !t)) { strengthen(B->getOperand(0), t, f); strengthen(B->getOperand(1), t, f); }
    return;
  }
  if (auto* S = dyn_cast<SelectInst>(c)) {
    auto* T = dyn_cast<ConstantInt>(S->getTrueValue()); auto* E = dyn_cast<ConstantInt>(S->getFalseValue());
    if (E && E->isZero() && t) { strengthen(S->getCondition(), true, f); strengthen(S->getTrueValue(), true, f); }
    if (T && T->isOne() && !t) { strengthen(S->getCondition(), false, f); strengthen(S->getFalseValue(), false, f); }
    return;
  }
    if (auto* I = dyn_cast<ICmpInst>(c)) if (I->isEquality() && (I->getPredicate() == ICmpInst::ICMP_NE) == t) {
      Lin d = C->lin(I->getOperand(0)) - C->lin(I->getOperand(1));
      auto& g = f;
      if (C->L.prove(g, d)) f.push_back(d - cst(1)); else if (C->L.prove(g, d.mul(-1))) f.push_back(d.mul(-1) - cst(1));
    }
  }
  std::vector<Lin> facts(const Instruction* I) {
    auto f = C->L.factsAt(I);
    for (auto& [c, t] : domConds(I->getParent(), C->DT)) strengthen(c, t, f);
    return f;
  }
  std::vector<Lin> edgeFacts(const BasicBlock* A, const BasicBlock* B) {
    auto f = C->L.factsOnEdge(A, B);
    for (auto& [c, t] : domConds(A, C->DT)) strengthen(c, t, f);
    if (auto* Br = dyn_cast<BranchInst>(A->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) strengthen(Br->getCondition(), Br->getSuccessor(0) == B, f);
    return f;
  }
  // P <= bound for counters tested against a loop-invariant bound
  void boundInvariants() {
    for (auto& B : *F) for (auto& P : B.phis()) {
      if (C->dead.count(&B) || (!P.getType()->isPointerTy() && !P.getType()->isIntegerTy(64))) continue;
      auto* Lp = LI.getLoopFor(&B); if (!Lp || Lp->getHeader() != &B) continue;
      std::vector<Lin> cands{one(end)};
      for (auto* X : Lp->blocks()) if (auto* Br = dyn_cast<BranchInst>(X->getTerminator())) if (Br->isConditional())
        if (auto* I = dyn_cast<ICmpInst>(Br->getCondition())) for (int k = 0; k < 2; ++k) {
          Lin o = C->lin(I->getOperand(k)); bool inv = true;
          for (auto& [v, c] : o.t) if (auto* VI = dyn_cast<Instruction>(v)) if (Lp->contains(VI)) inv = false;
          if (inv && C->lin(I->getOperand(1 - k)).t.count(&P)) cands.push_back(o);
        }
      for (auto& b : cands) {
        Lin inv = b - one(&P); bool ok = true;
        for (unsigned i = 0; i < P.getNumIncomingValues() && ok; ++i) {
          auto* E = P.getIncomingBlock(i); if (C->dead.count(E) || C->deadEdges.count({E, &B})) continue;
          bool back = Lp->contains(E);
          auto f = C->L.factsOnEdge(E, &B);
          if (back) f.push_back(inv);
          for (auto& [c, t] : domConds(E, C->DT)) strengthen(c, t, f);
          if (auto* Br = dyn_cast<BranchInst>(E->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) strengthen(Br->getCondition(), Br->getSuccessor(0) == &B, f);
          Lin g = b - C->lin(P.getIncomingValue(i));
          if (!C->L.proveSplit(f, g, E)) ok = false;
        }
        if (ok) C->L.extraAt.push_back({inv, &B});
      }
    }
  }
  bool rooted(const Value* P) { for (auto& p : C->PF.paths(P)) if ((p.root == beg || p.root == end) && std::find(p.steps.begin(), p.steps.end(), (int64_t)Path::DEREF) == p.steps.end()) return true; return false; }
};

static int b05(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); VmModel V(*M);
  int n = 0, entries = 0;
  for (auto* F : V.searchRoots) {
    Buf B(V, F); if (!B.beg || !B.end) continue;
    ++entries; int here = 0;
    for (auto& I : instructions(*F)) {
      if (B.C->dead.count(I.getParent())) continue;
      const Value* P = nullptr; Lin size; bool pass = false, exact = true;
      if (auto* L = dyn_cast<LoadInst>(&I)) { P = L->getPointerOperand(); size = cst(M->getDataLayout().getTypeStoreSize(L->getType())); }
      else if (auto* S = dyn_cast<StoreInst>(&I)) { P = S->getPointerOperand(); if (B.rooted(S->getValueOperand()) && S->getValueOperand()->getType()->isPointerTy()) { pass = true; P = S->getValueOperand(); } size = cst(1); }
      else if (auto* MT = dyn_cast<MemTransferInst>(&I)) { P = MT->getRawSource(); size = B.C->lin(MT->getLength()); }
      else if (auto* CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB)) continue;
        for (auto& x : CB->args()) if (x->getType()->isPointerTy() && B.rooted(x)) {
          P = x; auto* G = CB->getCalledFunction(); string gn = G ? G->getName().str() : ""; unsigned k = CB->getArgOperandNo(&x);
          if (gn == "memcmp" || gn == "memchr" || gn == "memcpy" || gn == "memmove") size = B.C->lin(CB->getArgOperand(2)); else pass = true;
          (void)k; break;
        }
      }
      if (!P || !B.rooted(P)) continue;
      ++n; ++here;
      string key = F->getName().str() + ": " + where(&I).substr(where(&I).find('('));
      if (pass) { R.ob(false, "buffer-stays-here", key, where(&I), "the buffer pointer is handed on to code that was not analysed"); continue; }
      (void)exact;
      auto f = B.facts(&I); Lin ad = B.C->lin(P);
      bool lo = B.C->L.proveSplit(f, ad - one(B.beg), I.getParent()), hi = B.C->L.proveSplit(f, one(B.end) - ad - size, I.getParent());
      R.ob(lo && hi, "read-in-bounds", key, where(&I), lo && hi ? "within the buffer" : string("cannot show that the access stays ") + (!hi ? "before the buffer's end" : "after the buffer's start") + " (address " + B.C->str(ad - one(B.beg)) + " from the start)");
    }
    if (!here) R.error("no buffer access found in " + F->getName().str());
  }
  R.count("entry_points", entries); R.count("buffer_accesses", n);
  if (entries < 3) R.error("fewer than three entry points take a buffer");
  return 0;
}
static Reg r5("B05", b05);

// ------------------------------------------------------------------ B06
struct Scan {
  VmModel& V; Buf B; Function* F; CellFlow& C; string fn;
  std::set<const Value*> bytes;                  // values derived from a byte of the buffer
  std::set<const Value*> windows;                // values derived from the prefilter's two-byte window
  struct ByteLoop { Loop* L; Lin pos; const LoadInst* first; };
  std::vector<ByteLoop> loops;
  std::map<const BasicBlock*, int> order;
  Scan(VmModel& V, Function* F) : V(V), B(V, F), F(F), C(*B.C), fn(F->getName().str()) {
    int k = 0; for (auto* X : ReversePostOrderTraversal<Function*>(F)) order[X] = k++;
  }
  bool live(const Instruction* I) { return !C.dead.count(I->getParent()); }
  void closure(std::set<const Value*>& s) {
    std::vector<const Value*> wl(s.begin(), s.end());
    while (!wl.empty()) { auto* v = wl.back(); wl.pop_back();
      for (auto* U : v->users()) if (isa<CastInst>(U) || isa<BinaryOperator>(U) || isa<CmpInst>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U) || isa<GetElementPtrInst>(U) || isa<PHINode>(U) || (isa<LoadInst>(U) && &s == &windows)) if (s.insert(U).second) wl.push_back(U); }
  }
  bool latch(Loop* L, const BasicBlock* X) { return L->contains(X) && !C.dead.count(X) && !C.deadEdges.count({X, L->getHeader()}); }
  // e, a form over the header's phis, as it will be when the edge from->header is taken
  bool onEdge(Loop* L, const Lin& e, const BasicBlock* from, Lin& out) {
    out = Lin(); out.c = e.c; if (!e.ok) return false;
    for (auto& [v, k] : e.t) {
      auto* I = dyn_cast<Instruction>(v);
      if (I && I->getParent() == L->getHeader() && isa<PHINode>(I)) { out = out + C.lin(cast<PHINode>(I)->getIncomingValueForBlock(from)).mul(k); continue; }
      if (I && L->contains(I)) return false;
      Lin o; o.t[v] = k; out = out + o;
    }
    return true;
  }
  bool same(const std::vector<Lin>& f, const Lin& a, const Lin& b, const BasicBlock* at) { Lin d = a - b; if (d.ok && d.t.empty()) return d.c == 0; return C.L.proveSplit(f, d, at) && C.L.proveSplit(f, d.mul(-1), at); }
  Loop* top(const BasicBlock* X) { Loop* L = B.LI.getLoopFor(X); while (L && L->getParentLoop()) L = L->getParentLoop(); return L; }
  // can `from` reach a block of `to` without touching `avoid`, inside L (or anywhere if L is null)
  bool reach(const BasicBlock* from, const std::set<const BasicBlock*>& to, const std::set<const BasicBlock*>& avoid, Loop* L, const std::set<const BasicBlock*>& noOut = {}) {
    std::set<const BasicBlock*> seen{from}; std::vector<const BasicBlock*> wl{from}; if (avoid.count(from)) return false;
    while (!wl.empty()) { auto* X = wl.back(); wl.pop_back(); if (to.count(X)) return true; if (noOut.count(X)) continue;
      for (auto* Y : successors(X)) if (!C.dead.count(Y) && !C.deadEdges.count({X, Y}) && !avoid.count(Y) && (!L || L->contains(Y)) && !(L && Y == L->getHeader()) && seen.insert(Y).second) wl.push_back(Y); }
    return false;
  }
  struct ThreadLoop { Loop* L; Lin at; int64_t vec = -1; string why; };
  // a loop over all elements of a vector of threads: position of the visited element, and whether it covers start..finish
  Lin val(const CellFlow::State& s, int64_t o) { auto it = s.find(o); return it == s.end() ? one(C.sym(o)) : it->second; }
  bool iterates(Loop* L, ThreadLoop& T, bool fromStart, const Lin* startAt) {
    // element address: pointer operand of a load of Thread::PC that happens on every iteration
    std::vector<const LoadInst*> pcs;
    for (auto* X : L->blocks()) if (!C.dead.count(X)) for (auto& I : *X) if (auto* Ld = dyn_cast<LoadInst>(&I)) {
      if (V.T.memClass(C.PF, Ld->getPointerOperand()) != "Thread::PC") continue;
      pcs.push_back(Ld);
    }
    T.why = "no thread is taken up on every iteration";
    std::stable_sort(pcs.begin(), pcs.end(), [&](auto* a, auto* b) { return order[a->getParent()] < order[b->getParent()]; });
    std::set<const BasicBlock*> lat; for (auto* P : predecessors(L->getHeader())) if (latch(L, P)) lat.insert(P);
    for (auto* Ld : pcs) {
      Lin at = C.lin(Ld->getPointerOperand()); Lin nx; bool ok = true;
      std::set<const BasicBlock*> here; for (auto* Q : pcs) { Lin d = C.lin(Q->getPointerOperand()) - at; if (d.ok && d.t.empty() && !d.c) here.insert(Q->getParent()); }
      if (!here.count(L->getHeader()) && reach(L->getHeader(), lat, here, L)) continue;      // not on every iteration
      uint64_t pcOff = 0; { auto it = V.T.byName.find("Thread"); if (it != V.T.byName.end()) for (auto* E : it->second->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getName() == "PC") pcOff = D->getOffsetInBits() / 8; }
      at.c -= pcOff;
      uint64_t sz = V.T.byName.count("Thread") ? V.T.byName["Thread"]->getSizeInBits() / 8 : 0;
      for (auto* P : predecessors(L->getHeader())) if (latch(L, P)) { if (!onEdge(L, at, P, nx)) { ok = false; break; } Lin d = nx - at; if (!d.t.empty() || d.c != (int64_t)sz) { ok = false; T.why = "does not go from each thread to the next"; } }
      if (!ok) continue;
      // entry
      for (auto vo : C.vectors) {
        bool good = true, any = false; string why;
        for (auto* P : predecessors(L->getHeader())) if (!L->contains(P) && !C.dead.count(P) && !C.deadEdges.count({P, L->getHeader()})) {
          any = true; Lin e; auto s = C.stateBefore(P->getTerminator());
          if (!onEdge(L, at, P, e)) { good = false; break; }
          Lin want = startAt ? *startAt + val(s, vo) : val(s, vo);
          if (!fromStart && !startAt) continue;
          auto f = B.edgeFacts(P, L->getHeader());
          if (!same(f, e, want, P)) { good = false; why = "does not begin with the first thread"; }
        }
        if (!good || !any) { if (!why.empty() && T.why.rfind("may stop", 0) != 0) T.why = why; continue; }
        // exits
        for (auto* X : L->blocks()) if (!C.dead.count(X)) for (auto* Y : successors(X)) if (!L->contains(Y) && !C.dead.count(Y) && !C.deadEdges.count({X, Y})) {
          if (isa<UnreachableInst>(Y->getTerminator())) continue;
          auto s = C.stateBefore(X->getTerminator()); auto f = B.edgeFacts(X, Y); Lin d = at - val(s, vo + 8);
          if (!C.L.proveSplit(f, d, X)) { good = false; why = "may stop before the last thread (leaves at " + where(X->getTerminator()) + ")"; }
        }
        if (good) { T.vec = vo; T.at = at; return true; }
        if (!why.empty()) T.why = why;
      }
    }
    return false;
  }
  void run() {
    for (auto& I : instructions(*F)) if (auto* Ld = dyn_cast<LoadInst>(&I)) if (live(Ld) && B.rooted(Ld->getPointerOperand())) {
      if (Ld->getType()->isIntegerTy(8)) bytes.insert(Ld); else windows.insert(Ld);
    }
    std::set<const Value*> raw = bytes; closure(bytes); closure(windows);
    std::map<Loop*, std::vector<const LoadInst*>> by;
    bool loose = false; string lw;
    for (auto* v : raw) { auto* Ld = cast<LoadInst>(v); auto* L = top(Ld->getParent()); if (!L) { loose = true; lw = where(Ld); } else by[L].push_back(Ld); }
    R.ob(!loose, "bytes-in-loop", fn, loose ? lw : whereF(F), loose ? "a byte is examined outside the loop over the buffer" : "bytes are examined only in loops over the buffer");
    for (auto& [L, v] : by) { std::sort(v.begin(), v.end(), [&](auto* a, auto* b) { return order[a->getParent()] < order[b->getParent()]; }); loops.push_back({L, C.lin(v[0]->getPointerOperand()), v[0]}); }
    std::sort(loops.begin(), loops.end(), [&](auto& a, auto& b) { return order[a.L->getHeader()] < order[b.L->getHeader()]; });
    if (loops.empty()) { R.ob(false, "bytes-in-loop", fn, whereF(F), "no loop over the buffer found"); return; }
    for (auto& bl : loops) offsetInvariants(bl);
    int li = 0;
    for (auto& bl : loops) { scanLoop(bl, by[bl.L], li++); }
    consumers();
    if (fn == "lg_search") complete();
  }
  // header counters that keep the distance startOffset has from the buffer's start
  void offsetInvariants(ByteLoop& bl) {
    auto* H = bl.L->getHeader();
    for (auto& P : H->phis()) if (P.getType()->isIntegerTy(64)) {
      Lin e = one(&P) - one(B.off) - bl.pos + one(B.beg); bool ok = true;
      for (auto* E : predecessors(H)) if (!C.dead.count(E) && !C.deadEdges.count({E, H}) && ok) {
        Lin nx; if (!onEdge(bl.L, e, E, nx)) { ok = false; break; }
        auto f = B.edgeFacts(E, H); if (bl.L->contains(E)) { f.push_back(e); f.push_back(e.mul(-1)); }
        ok = same(f, nx, Lin(), E);
      }
      if (ok) { C.L.extraAt.push_back({e, H}); C.L.extraAt.push_back({e.mul(-1), H}); }
    }
  }
  void scanLoop(ByteLoop& bl, std::vector<const LoadInst*>& lds, int li) {
    auto* L = bl.L; auto* H = L->getHeader(); string key = fn + " loop " + std::to_string(li + 1), w = where(bl.first);
    bool one1 = true; string ww = w;
    for (auto* Ld : lds) if (!same(B.facts(Ld), C.lin(Ld->getPointerOperand()), bl.pos, Ld->getParent())) { one1 = false; ww = where(Ld); }
    R.ob(one1, "one-byte-per-step", key, ww, one1 ? "every byte examined in an iteration is the current one" : "examines a byte other than the current one");
    // progress
    bool prog = true; string why;
    for (auto* P : predecessors(H)) if (latch(L, P)) {
      Lin nx; if (!onEdge(L, bl.pos, P, nx)) { prog = false; why = "the next position is not computed from the current one"; break; }
      if (!same(B.edgeFacts(P, H), nx, bl.pos + cst(1), P)) { prog = false; why = "advances by " + C.str(nx - bl.pos) + " instead of one"; ww = where(P->getTerminator()); }
    }
    R.ob(prog, "step-is-one", key, prog ? w : ww, prog ? "advances by exactly one byte on every iteration" : why);
    // start
    bool st = true;
    for (auto* P : predecessors(H)) if (!L->contains(P) && !C.dead.count(P) && !C.deadEdges.count({P, H})) {
      Lin e; if (!onEdge(L, bl.pos, P, e)) { st = false; why = "start not found"; continue; }
      auto f = B.edgeFacts(P, H);
      if (same(f, e, one(B.beg), P) && (li == 0 || !reachFromLoop(P, li))) continue;
      bool ok = false;
      for (int j = 0; j < li && !ok; ++j) if (C.DT.dominates(loops[j].L->getHeader(), H) && same(f, e, loops[j].pos, P) && exitsAtTop(loops[j].L)) ok = true;
      if (!ok) { st = false; why = "begins at " + C.str(e - one(B.beg)) + " from the buffer's start" + (li ? ", not where the loop before it stopped" : ""); ww = where(P->getTerminator()); }
    }
    R.ob(st, "starts-in-place", key, st ? w : ww, st ? (li ? "continues where the loop before it stopped" : "begins with the first byte") : why);
    // threads
    std::vector<Loop*> tl;
    for (auto* S : L->getSubLoops()) { bool u = false; for (auto* X : S->blocks()) if (!C.dead.count(X)) for (auto& I : *X) { if (bytes.count(&I)) u = true; for (auto& o : I.operands()) if (bytes.count(o) ) u = true; } if (u) tl.push_back(S); }
    std::sort(tl.begin(), tl.end(), [&](auto* a, auto* b) { return order[a->getHeader()] < order[b->getHeader()]; });
    if (tl.empty()) { R.ob(false, "running-first", key, w, "no loop over the running threads found"); return; }
    ThreadLoop Tr; bool it = iterates(tl[0], Tr, true, nullptr);
    R.ob(it, "every-thread-runs", key, where(tl[0]->getHeader()->getTerminator()), it ? "runs each thread of " + C.name(Tr.vec) + ", from the first to the last" : "the loop over the running threads " + Tr.why);
    bool dom = true; for (auto* P : predecessors(H)) if (latch(L, P) && !C.DT.dominates(tl[0]->getHeader(), P)) dom = false;
    for (size_t k = 1; k < tl.size(); ++k) if (!C.DT.dominates(tl[0]->getHeader(), tl[k]->getHeader())) dom = false;
    R.ob(dom, "running-first", key, where(tl[0]->getHeader()->getTerminator()), dom ? "the running threads go first on every iteration" : "an iteration may pass without running the threads, or run new ones first");
    if (fn != "lg_search" || !it) return;
    // new threads: a loop over a vector of threads that examines no byte
    Loop* fl = nullptr; ThreadLoop Tf; string fw = "no loop starting the new threads found";
    for (auto* S : L->getSubLoops()) { if (std::find(tl.begin(), tl.end(), S) != tl.end()) continue; ThreadLoop T; if (iterates(S, T, true, nullptr) && T.vec != Tr.vec) { fl = S; Tf = T; } else if (T.why != "no thread is taken up on every iteration") fw = "the loop starting new threads " + T.why; }
    R.ob(fl != nullptr, "all-attempts-start", key, fl ? where(fl->getHeader()->getTerminator()) : w, fl ? "a new attempt starts for each thread of " + C.name(Tf.vec) : fw);
    if (!fl) return;
    // every iteration gets there unless the filter says no
    std::set<const BasicBlock*> lat, cut;
    for (auto* P : predecessors(H)) if (latch(L, P)) lat.insert(P);
    for (auto* X : L->blocks()) if (auto* Br = dyn_cast<BranchInst>(X->getTerminator())) if (Br->isConditional() && windows.count(Br->getCondition())) cut.insert(X);
    bool sk = reach(H, lat, {fl->getHeader()}, L, cut);
    R.ob(!sk, "attempt-at-every-byte", key, w, sk ? "an iteration may end without starting new attempts although the prefilter was not consulted" : "new attempts start at every byte, unless the prefilter rules them out");
    bool af = C.DT.dominates(tl[0]->getHeader(), fl->getHeader());
    R.ob(af, "running-first", key + " new", where(fl->getHeader()->getTerminator()), af ? "new attempts start after the running threads went" : "new attempts start before the running threads ran");
    // and they all run on this byte
    bool ran = false; string rw = "the new attempts are not run on the byte they start at";
    for (size_t k = 1; k < tl.size(); ++k) {
      auto* S = tl[k]; if (!C.DT.dominates(fl->getHeader(), S->getHeader())) continue;
      const BasicBlock* P0 = nullptr; for (auto* P : predecessors(fl->getHeader())) if (!fl->contains(P)) P0 = P;
      auto s0 = C.stateBefore(P0->getTerminator()); Lin sz = val(s0, Tr.vec + 8) - val(s0, Tr.vec);
      ThreadLoop T; if (iterates(S, T, false, &sz) && T.vec == Tr.vec) { ran = true; std::set<const BasicBlock*> hd{S->getHeader()}; if (reach(fl->getHeader(), lat, hd, L)) { ran = false; rw = "an iteration may end without running the new attempts"; } }
      else rw = "the loop running the new attempts " + (T.vec == Tr.vec || T.vec < 0 ? T.why : string("goes over another list"));
      if (ran) break;
    }
    R.ob(ran, "new-attempts-run", key, w, ran ? "the new attempts, and only they, run on the byte they start at" : rw);
  }
  bool reachFromLoop(const BasicBlock* P, int li) { for (int j = 0; j < li; ++j) if (reach(loops[j].L->getHeader(), {P}, {}, nullptr)) return true; return false; }
  // the loop is left only before it handles its current byte
  bool exitsAtTop(Loop* L) { std::vector<const Instruction*> use; for (auto* X : L->blocks()) for (auto& I : *X) if (isa<LoadInst>(I) && bytes.count(&I)) use.push_back(&I);
    SmallVector<std::pair<BasicBlock*, BasicBlock*>, 8> ex; SmallVector<Loop::Edge, 8> ed; L->getExitEdges(ed);
    for (auto& [X, Y] : ed) { if (C.dead.count(Y) || C.deadEdges.count({X, Y}) || isa<UnreachableInst>(Y->getTerminator())) continue; std::set<const BasicBlock*> to{X}; for (auto* u : use) if (reach(u->getParent(), to, {L->getHeader()}, L)) return false; }
    return true; }
  void complete() {
    // the search ends only when the buffer does
    for (size_t j = 0; j < loops.size(); ++j) {
      auto* L = loops[j].L; SmallVector<Loop::Edge, 8> ed; L->getExitEdges(ed); bool ok = true; string w = where(loops[j].first);
      std::set<const BasicBlock*> rets, next; for (auto& X : *F) if (isa<ReturnInst>(X.getTerminator())) rets.insert(&X);
      for (size_t k = j + 1; k < loops.size(); ++k) next.insert(loops[k].L->getHeader());
      for (auto& [X, Y] : ed) {
        if (C.dead.count(Y) || C.deadEdges.count({X, Y}) || !reach(Y, rets, next, nullptr)) continue;
        auto f = B.edgeFacts(X, Y); bool after = !exitsAtTop(L);
        if (C.L.proveSplit(f, loops[j].pos + cst(after ? 1 : 0) - one(B.end), X)) continue;
        ok = false; w = where(X->getTerminator());
      }
      R.ob(ok, "scans-to-the-end", fn + " loop " + std::to_string(j + 1), w, ok ? "left only at the buffer's end" + string(next.empty() ? "" : " or into the next loop") : "the search may return before it reached the buffer's end");
    }
    std::set<const BasicBlock*> rets, heads; for (auto& X : *F) if (isa<ReturnInst>(X.getTerminator())) rets.insert(&X);
    for (auto& l : loops) heads.insert(l.L->getHeader());
    // paths around all loops must know the buffer is empty
    bool ok = !reach(&F->getEntryBlock(), rets, heads, nullptr);
    if (!ok) { ok = true; for (auto* r : rets) { bool viaOnly = !reach(&F->getEntryBlock(), {r}, heads, nullptr); if (!viaOnly && !C.L.proveSplit(B.facts(r->getTerminator()), one(B.beg) - one(B.end), r)) ok = false; } }
    R.ob(ok, "scans-to-the-end", fn + " entry", whereF(F), ok ? "every call reaches the loop over the buffer" : "a call may return without scanning a non-empty buffer");
  }
  void offsetAt(const Instruction* I, const Value* v, const string& what) {
    Lin l = C.lin(v); ++nOff; bool ok = false; string msg;
    auto* L = top(I->getParent()); const ByteLoop* bl = nullptr; for (auto& b : loops) if (b.L == L) bl = &b;
    auto f = B.facts(I); Lin want = one(B.off); if (bl) want = want + bl->pos - one(B.beg);
    ok = same(f, l, want, I->getParent());
    if (!ok && !bl) { // after a loop: the offset of the position where it stopped
      for (auto& b : loops) if (C.DT.dominates(b.L->getHeader(), I->getParent()) && same(f, l, one(B.off) + b.pos - one(B.beg), I->getParent())) ok = true; }
    string w = where(I);
    R.ob(ok, "offset-of-position", fn + ": " + what + " " + (w.find('(') == string::npos ? "" : w.substr(w.find('('))), w, ok ? "startOffset plus the distance from the buffer's start" : "uses offset " + C.str(l) + " for the byte at " + (bl ? C.str(bl->pos) : "the start"));
  }
  int nOff = 0;
  void consumers() {
    for (auto& I : instructions(*F)) {
      if (!live(&I)) continue;
      if (auto* S = dyn_cast<StoreInst>(&I)) {
        auto* v = S->getValueOperand(); if (!v->getType()->isIntegerTy(64) || isa<Constant>(v)) continue;
        string c = V.T.memClass(C.PF, S->getPointerOperand());
        if (c == "Thread::Start" || c == "Thread::End") {
          bool copy = true; std::vector<const Value*> wl{v}; std::set<const Value*> seen;
          while (!wl.empty()) { auto* x = wl.back(); wl.pop_back(); if (!seen.insert(x).second) continue; if (isa<Constant>(x)) continue; if (auto* P = dyn_cast<PHINode>(x)) { bool th = true; for (auto& q : P->incoming_values()) { if (!isa<LoadInst>(q) && !isa<Constant>(q) && !isa<PHINode>(q)) th = false; wl.push_back(q); } if (!th) copy = false; continue; }
            auto* L = dyn_cast<LoadInst>(x); if (!L) { copy = false; continue; } string lc = V.T.memClass(C.PF, L->getPointerOperand()); if (lc != c && !lc.empty()) copy = false; }
          if (!copy) offsetAt(&I, v, c.substr(8));
        } else if (c.empty() && top(I.getParent())) { Lin l = C.lin(v); bool rel = false; for (auto& [x, k] : l.t) if (x == B.off || (isa<PHINode>(x) && x->getType()->isIntegerTy(64) && [&] { for (auto& b : loops) if (cast<PHINode>(x)->getParent() == b.L->getHeader()) return true; return false; }())) rel = true; if (rel) offsetAt(&I, v, "new thread"); }
      } else if (auto* CB = dyn_cast<CallBase>(&I)) {
        auto* G = CB->getCalledFunction(); if (!G || G->isDeclaration() || !V.cloneOf.count(G)) { if (G && !G->isDeclaration() && !isa<IntrinsicInst>(CB)) { bool self = false; int64_t o; bool may; for (auto& x : CB->args()) if (x->getType()->isPointerTy() && C.cellOf(x, o, may) && o == 0) self = true; if (!self) continue; } else continue; }
        for (auto& x : CB->args()) if (x->getType()->isIntegerTy(64)) offsetAt(&I, x, "call");
      }
    }
  }
};
// helpers: what they store as a thread's start or end is the offset they were given
static void helperOffsets(VmModel& V) {
  std::set<Function*> seen; std::vector<Function*> wl;
  auto callees = [&](Function* F) { for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* G = CB->getCalledFunction()) if (!G->isDeclaration() && !isa<IntrinsicInst>(CB) && inRepo(G)) { auto it = V.cloneOf.find(G); Function* c = it == V.cloneOf.end() ? G : it->second; if (seen.insert(c).second) wl.push_back(c); } };
  for (auto* F : V.searchRoots) callees(F);
  int n = 0;
  while (!wl.empty()) {
    auto* G = wl.back(); wl.pop_back(); callees(G); PathFinder PF(V.M);
    for (auto& I : instructions(*G)) {
      string k = fnName(G);
      if (auto* S = dyn_cast<StoreInst>(&I)) {
        auto* v = S->getValueOperand(); if (!v->getType()->isIntegerTy(64) || isa<Constant>(v)) continue;
        string c = V.T.memClass(PF, S->getPointerOperand()); if (c != "Thread::Start" && c != "Thread::End") continue;
        bool ok = isa<Argument>(v); if (auto* L = dyn_cast<LoadInst>(v)) { string lc = V.T.memClass(PF, L->getPointerOperand()); ok = lc == c || lc.empty(); } if (isa<PHINode>(v)) { ok = true; for (auto& q : cast<PHINode>(v)->incoming_values()) if (!isa<LoadInst>(q)) ok = false; }
        ++n; R.ob(ok, "offset-of-position", "helper: " + c.substr(8), where(&I), ok ? "the offset the helper was given" : "stores something else than the current offset");
      } else if (auto* CB = dyn_cast<CallBase>(&I)) {
        auto* H = CB->getCalledFunction(); if (!H || H->isDeclaration() || isa<IntrinsicInst>(CB) || !inRepo(H)) continue;
        for (auto& x : CB->args()) if (x->getType()->isIntegerTy(64)) { bool ok = isa<Argument>(x) || isa<LoadInst>(x); ++n; R.ob(ok, "offset-of-position", "helper: call", where(&I), ok ? "passes its own offset on" : "passes another offset on"); }
      }
    }
  }
  R.count("helper_offsets", n);
}
static int b06(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); VmModel V(*M);
  int entries = 0, offs = 0;
  for (auto* F : V.searchRoots) { Scan S(V, F); if (!S.B.beg || !S.B.end || !S.B.off) continue; ++entries; S.run(); offs += S.nOff; }
  helperOffsets(V);
  R.count("entry_points", entries); R.count("offset_uses", offs);
  if (entries < 3) R.error("fewer than three entry points take a buffer");
  return 0;
}
static Reg r6("B06", b06);
