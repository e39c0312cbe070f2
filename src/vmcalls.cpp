// B03-B06: what the search entry points do with the callback and the buffer.
#include "vmmodel.h"
typedef std::map<string, string> Args;
static Lin one(const Value* v) { Lin l; l.t[v] = 1; return l; }
static bool eqL(const Lin& a, const Lin& b) { if (!a.ok || !b.ok) return false; Lin d = a - b; return d.t.empty() && d.c == 0; }
static const Value* strip(const Value* v) { return v->stripPointerCasts(); }

struct Engine {          // one function that may run threads: a search entry or a recursive helper
  Function* F; std::unique_ptr<CellFlow> C; bool root; unsigned thisArg = 0;
  int cb = -1, ud = -1, beg = -1, end = -1, off = -1;       // argument numbers (entries only)
};
static void findArgs(VmModel& V, Engine& E) {
  for (unsigned i = 0; i < E.F->arg_size(); ++i) {
    auto* t = stripDI(V.T.argType(*E.F, i)); auto* D = dyn_cast_or_null<DIDerivedType>(t);
    if (D && D->getTag() == dwarf::DW_TAG_pointer_type) {
      auto* p = stripDI(D->getBaseType());
      if (p && isa<DISubroutineType>(p)) E.cb = i;
      else if (!p) E.ud = i;
      else if (auto* B = dyn_cast<DIBasicType>(p)) if (B->getSizeInBits() == 8) { if (E.beg < 0) E.beg = i; else if (E.end < 0) E.end = i; }
    } else if (auto* B = dyn_cast_or_null<DIBasicType>(t)) if (B->getSizeInBits() == 64) E.off = i;
  }
}
// the search entries and the helpers they call that were not inlined
static std::vector<Engine> engines(VmModel& V) {
  std::vector<Engine> out; std::set<Function*> helpers;
  for (auto* F : V.searchRoots) { Engine E; E.F = F; E.root = true; E.C = V.flowRoot(F); findArgs(V, E); out.push_back(std::move(E)); }
  for (size_t i = 0; i < out.size(); ++i) {
    std::vector<std::pair<Function*, unsigned>> nw;
    for (auto& I : instructions(*out[i].F)) {
      auto* CB = dyn_cast<CallBase>(&I); if (!CB || out[i].C->dead.count(I.getParent())) continue;
      auto* G = const_cast<Function*>(dyn_cast<Function>(strip(CB->getCalledOperand()))); if (!G || G->isDeclaration()) continue;
      int64_t o; bool may;
      for (unsigned k = 0; k < CB->arg_size(); ++k)
        if (CB->getArgOperand(k)->getType()->isPointerTy() && out[i].C->cellOf(CB->getArgOperand(k), o, may) && o == 0) { auto it = V.cloneOf.find(G); Function* c = it == V.cloneOf.end() ? nullptr : it->second;
          if (!c) { V.summary(G, k); c = V.cloneOf[G]; }
          if (helpers.insert(c).second) nw.push_back({c, k}); }
    }
    for (auto& [c, k] : nw) { Engine E; E.F = c; E.root = false; E.thisArg = k; Path b; b.root = c->getArg(k); E.C = V.flow(c, b); E.C->run(); out.push_back(std::move(E)); }
  }
  return out;
}
// calls through a function pointer that is neither a virtual function nor a library hook
static std::vector<const CallBase*> callbacks(Engine& E) {
  std::vector<const CallBase*> out;
  for (auto& I : instructions(*E.F)) {
    auto* CB = dyn_cast<CallBase>(&I);
    if (!CB || E.C->dead.count(I.getParent()) || CB->isInlineAsm()) continue;
    if (isa<Function>(strip(CB->getCalledOperand()))) continue;
    int64_t slot; if (CHA::vcall(CB, &slot)) {      // virtual: only if the first argument is the object itself
      auto* L = cast<LoadInst>(strip(CB->getCalledOperand())); const Value* P = L->getPointerOperand(); if (auto* G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand();
      if (auto* VL = dyn_cast<LoadInst>(P)) if (VL->getPointerOperand() == CB->getArgOperand(0)) continue;
    }
    out.push_back(CB);
  }
  return out;
}
static bool nonNull(CellFlow& C, const Instruction* at, const Lin& v) {
  for (auto& [c, t] : domConds(at->getParent(), C.DT)) {
    std::function<bool(const Value*, bool)> g = [&](const Value* x, bool tr) -> bool {
      if (auto* S = dyn_cast<SelectInst>(x)) {
        auto* K = dyn_cast<ConstantInt>(S->getFalseValue()); if (K && K->isZero() && tr) return g(S->getCondition(), true) || g(S->getTrueValue(), true);
        auto* K1 = dyn_cast<ConstantInt>(S->getTrueValue()); if (K1 && K1->isOne() && !tr) return g(S->getCondition(), false) || g(S->getFalseValue(), false);
        return false;
      }
      if (auto* B = dyn_cast<BinaryOperator>(x)) {
        if (B->getOpcode() == Instruction::And && tr) return g(B->getOperand(0), true) || g(B->getOperand(1), true);
        if (B->getOpcode() == Instruction::Or && !tr) return g(B->getOperand(0), false) || g(B->getOperand(1), false);
        if (B->getOpcode() == Instruction::Xor) if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1))) if (K->isOne()) return g(B->getOperand(0), !tr);
        return false;
      }
      auto* I = dyn_cast<ICmpInst>(x); if (!I || !I->isEquality()) return false;
      bool ne = (I->getPredicate() == ICmpInst::ICMP_NE) == tr; if (!ne) return false;
      Lin d = C.lin(I->getOperand(0)) - C.lin(I->getOperand(1));
      return eqL(d, v) || eqL(d.mul(-1), v);
    };
    if (g(c, t)) return true;
  }
  return false;
}

static int b04(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); VmModel V(*M);
  auto es = engines(V);
  // the cells that hold this call's callback and user pointer
  std::set<int64_t> fnCells, udCells;
  int n = 0;
  for (auto& E : es) if (E.root) {
    if (E.cb < 0 || E.ud < 0) R.error("callback arguments of " + E.F->getName().str() + " not found");
  }
  auto cellSym = [&](Engine& E, const Lin& l) -> int64_t { if (l.c == 0 && l.t.size() == 1 && l.t.begin()->second == 1) for (auto& [o, s] : E.C->inSym) if (s == l.t.begin()->first) return o; return -1; };
  for (auto& E : es) {
    auto cbs = callbacks(E);
    for (auto* CB : cbs) {
      ++n; string w = where(CB), key = (E.root ? E.F->getName().str() : "helper") + ": " + w.substr(w.find('(') == string::npos ? 0 : w.find('('));
      Lin f = E.C->lin(CB->getCalledOperand()); Lin u = CB->arg_size() ? E.C->lin(CB->getArgOperand(0)) : Lin();
      if (CB->arg_size() != 2) { R.ob(false, "callback-form", key, w, "a function pointer is called that does not take (userData, hit)"); continue; }
      if (E.root) {
        bool ok = eqL(f, one(E.F->getArg(E.cb)));
        R.ob(ok, "callback-is-current", key, w, ok ? "the function given to this call" : "calls " + E.C->str(f) + " instead of this call's callback");
        bool ok2 = eqL(u, one(E.F->getArg(E.ud)));
        R.ob(ok2, "userdata-is-current", key, w, ok2 ? "the pointer given to this call" : "passes " + E.C->str(u) + " instead of this call's user data");
      } else {
        int64_t fo = cellSym(E, f), uo = cellSym(E, u);
        R.ob(fo >= 0, "callback-is-current", key, w, fo >= 0 ? "the function in " + E.C->name(fo) + " at the call of the helper" : "calls " + E.C->str(f) + ", which is not the engine's current callback");
        R.ob(uo >= 0, "userdata-is-current", key, w, uo >= 0 ? "the pointer in " + E.C->name(uo) + " at the call of the helper" : "passes " + E.C->str(u) + ", which is not the engine's current user data");
        if (fo >= 0) fnCells.insert(fo); if (uo >= 0) udCells.insert(uo);
      }
      bool nn = nonNull(*E.C, CB, f);
      R.ob(nn, "null-callback", key, w, nn ? "called only when not null" : "called without checking that there is a callback");
    }
  }
  // at every call of a helper the cells hold this call's arguments; helpers do not change them
  for (auto& E : es) {
    for (auto& I : instructions(*E.F)) {
      auto* CB = dyn_cast<CallBase>(&I); if (!CB || E.C->dead.count(I.getParent())) continue;
      auto* G = const_cast<Function*>(dyn_cast<Function>(strip(CB->getCalledOperand()))); if (!G || !V.cloneOf.count(G)) continue;
      auto s = E.C->stateBefore(&I);
      auto val = [&](int64_t o) { auto it = s.find(o); return it == s.end() ? one(E.C->sym(o)) : it->second; };
      for (auto* set : {&fnCells, &udCells}) for (auto o : *set) {
        bool fn = set == &fnCells; Lin want = E.root ? one(E.F->getArg(fn ? E.cb : E.ud)) : one(E.C->sym(o));
        bool ok = eqL(val(o), want);
        R.ob(ok, fn ? "callback-set" : "userdata-set", (E.root ? E.F->getName().str() : "helper") + ": " + E.C->name(o), where(&I),
             ok ? E.C->name(o) + " is the current call's before threads run" : E.C->name(o) + " is " + E.C->str(val(o)) + " when threads run, not what this call was given");
      }
    }
  }
  // no other API function runs a callback of the context
  for (auto& F : *M) {
    if (F.isDeclaration() || !F.hasExternalLinkage()) continue;
    auto* t = V.T.argType(F, 0); if (!t || V.T.canon(Types::pointee(t)) != V.ctxHandle) continue;
    bool isRoot = false; for (auto* r : V.searchRoots) if (r == &F) isRoot = true;
    if (isRoot || !F.getName().starts_with("lg_")) continue;
    Engine E; E.F = &F; E.root = false; E.C = V.flowRoot(&F);
    string bad;
    for (auto* CB : callbacks(E)) for (auto& p : E.C->PF.paths(CB->getCalledOperand())) if (p.root == F.getArg(0)) bad = where(CB);
    R.ob(bad.empty(), "no-late-callback", F.getName().str(), bad.empty() ? whereF(&F) : bad, bad.empty() ? "runs no callback" : "calls a function stored in the context by an earlier search");
  }
  R.count("callback_calls", n);
  if (n < 2) R.error("fewer than two callback calls found");
  return 0;
}
static Reg r4("B04", b04);

// ------------------------------------------------------------------ B03
// the stores to alloca+off that reach instruction I
static std::set<const StoreInst*> reachingStores(CellFlow& C, const Value* A, int64_t off, const Instruction* I, bool* entry) {
  std::set<const StoreInst*> out; *entry = false;
  std::set<const BasicBlock*> seen; std::vector<std::pair<const BasicBlock*, const Instruction*>> wl{{I->getParent(), I}};
  auto hits = [&](const Instruction* J) -> const StoreInst* {
    auto* S = dyn_cast<StoreInst>(J); if (!S) return nullptr;
    for (auto& p : C.PF.paths(S->getPointerOperand())) if (p.root == A && ((off == 0 && p.steps.empty()) || (p.steps.size() == 1 && p.steps[0] == off))) return S;
    return nullptr;
  };
  while (!wl.empty()) {
    auto [B, at] = wl.back(); wl.pop_back();
    const StoreInst* f = nullptr;
    for (const Instruction* J = at ? at->getPrevNode() : B->getTerminator(); J && !f; J = J->getPrevNode()) f = hits(J);
    if (f) { out.insert(f); continue; }
    if (B == &C.F.getEntryBlock()) *entry = true;
    for (auto* P : predecessors(B)) if (!C.dead.count(P) && !C.deadEdges.count({P, B}) && seen.insert(P).second) wl.push_back({P, nullptr});
  }
  return out;
}
static int64_t field(VmModel& V, const char* cls, const char* f) {
  auto it = V.T.byName.find(cls); if (it == V.T.byName.end()) return -1;
  for (auto* E : it->second->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getName() == f) return D->getOffsetInBits() / 8;
  return -1;
}
static int b03(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); VmModel V(*M);
  auto es = engines(V);
  int64_t fs = field(V, "LG_SearchHit", "Start"), fe = field(V, "LG_SearchHit", "End"), fl = field(V, "LG_SearchHit", "KeywordIndex");
  if (fs < 0 || fe < 0 || fl < 0) R.error("fields of LG_SearchHit not found");
  int n = 0;
  std::set<std::pair<const Function*, const Instruction*>> limitStores;   // accounted for
  std::set<int64_t> limitVecs;
  struct Site { Engine* E; const CallBase* CB; };
  std::vector<Site> sites;
  for (auto& E : es) for (auto* CB : callbacks(E)) if (CB->arg_size() == 2) sites.push_back({&E, CB});
  for (auto& [E, CB] : sites) {
    ++n; auto& C = *E->C; string w = where(CB), key = (E->root ? E->F->getName().str() : "helper") + ": " + w.substr(w.find('('));
    const Value* A = nullptr; for (auto& p : C.PF.paths(CB->getArgOperand(1))) if (p.steps.empty()) A = p.root;
    if (!A || !isa<AllocaInst>(A)) { R.ob(false, "hit-built-here", key, w, "the reported hit is not a local that can be traced"); continue; }
    Lin v[3]; bool ok = true; int64_t offs[3] = {fs, fe, fl}; const Value* raw[3] = {};
    for (int i = 0; i < 3; ++i) {
      bool en; auto st = reachingStores(C, A, offs[i], CB, &en);
      if (st.size() != 1 || en) { ok = false; continue; }
      raw[i] = (*st.begin())->getValueOperand(); v[i] = C.lin(raw[i]);
    }
    if (!ok) { R.ob(false, "hit-built-here", key, w, "a field of the reported hit is not set on every path"); continue; }
    // candidates: loads of a 64-bit element indexed by the label
    bool guard = false, update = false; int64_t vecFound = -1; const Instruction* gl = nullptr; const StoreInst* us = nullptr;
    auto elemOf = [&](const Value* ptr, int64_t& vec) {
      Lin l = C.lin(ptr);
      Lin rest = l - v[2].mul(8);
      if (rest.c != 0 || rest.t.size() != 1 || rest.t.begin()->second != 1) return false;
      for (auto vo : C.vectors) { auto s = C.in.count(cast<Instruction>(CB)->getParent()) ? C.in[CB->getParent()] : CellFlow::State(); auto it = s.find(vo); Lin cur = it == s.end() ? one(C.sym(vo)) : it->second; if (eqL(cur, rest) || rest.t.begin()->first == C.sym(vo)) { vec = vo; return true; } }
      return false;
    };
    for (auto& I : instructions(*E->F)) {
      if (C.dead.count(I.getParent())) continue;
      int64_t vec;
      if (auto* S = dyn_cast<StoreInst>(&I)) {
        if (!S->getValueOperand()->getType()->isIntegerTy(64) || !C.DT.dominates(S, CB) || !elemOf(S->getPointerOperand(), vec)) continue;
        if (eqL(C.lin(S->getValueOperand()), v[1])) { update = true; us = S; vecFound = vec; }
      }
    }
    if (us) for (auto& I : instructions(*E->F)) {
      auto* L = dyn_cast<LoadInst>(&I); int64_t vec;
      if (!L || !L->getType()->isIntegerTy(64) || !C.DT.dominates(L, us) || !elemOf(L->getPointerOperand(), vec) || vec != vecFound) continue;
      auto facts = C.L.factsAt(us);
      if (C.L.prove(facts, v[0] - C.lin(L))) { guard = true; gl = L; }
    }
    R.ob(update, "limit-recorded", key, w, update ? "the hit's end becomes the limit of " + C.name(vecFound) + " for its pattern" : "a hit is reported without recording its end as the limit of its pattern");
    R.ob(guard, "hit-after-limit", key, w, guard ? "reported only if its start is not before the limit read at " + where(gl) : "no check that the hit starts at or after its pattern's limit dominates the report");
    if (us) { limitStores.insert({E->F, us}); limitVecs.insert(vecFound); }
    (void)raw;
  }
  // every other store into the limits is a reset
  std::vector<Engine*> all; for (auto& E : es) all.push_back(&E);
  Engine er; er.F = V.reset; er.root = false; er.C = V.flowRoot(V.reset); all.push_back(&er);
  for (auto* E : all) for (auto& I : instructions(*E->F)) {
    auto* S = dyn_cast<StoreInst>(&I); if (!S || E->C->dead.count(I.getParent()) || limitStores.count({E->F, S})) continue;
    auto& C = *E->C; auto k = C.base.steps.size(); int64_t vec = -1;
    for (auto& p : C.PF.paths(S->getPointerOperand()))
      if (p.root == C.base.root && p.steps.size() >= k + 2 && std::equal(C.base.steps.begin(), C.base.steps.end(), p.steps.begin()) && limitVecs.count(p.steps[k]) && p.steps[k + 1] == Path::DEREF) vec = p.steps[k];
    if (vec < 0) continue;
    bool ok = false; string how;
    if (E->F == V.reset || E->F->getName() == "lg_starts_with") for (auto& f : findFills(C, vec, 8)) if (f.site == S) { ok = true; how = "part of a reset of all limits"; }
    if (!ok) for (auto& J : instructions(*E->F)) {     // raising a limit is harmless
      auto* L = dyn_cast<LoadInst>(&J);
      if (L && L->getType()->isIntegerTy(64) && C.DT.dominates(L, S) && eqL(C.lin(L->getPointerOperand()), C.lin(S->getPointerOperand())) && C.L.prove(C.L.factsAt(S), C.lin(S->getValueOperand()) - C.lin(L))) { ok = true; how = "never lowers the limit"; }
    }
    R.ob(ok, "limit-only-grows", (E->root ? E->F->getName().str() : E->F == V.reset ? "lg_reset_context" : "helper") + ": " + C.name(vec), where(S), ok ? how : "changes a pattern's limit other than by reporting a hit or resetting all limits");
  }
  R.count("callback_calls", n); R.count("limit_vectors", limitVecs.size());
  if (n < 2) R.error("fewer than two callback calls found");
  return 0;
}
static Reg r3("B03", b03);
