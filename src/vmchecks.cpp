#include "vmmodel.h"
typedef std::map<string, string> Args;
static Lin symL(CellFlow& C, int64_t o) { Lin l; l.t[C.sym(o)] = 1; return l; }
static Lin valOf(CellFlow& C, const CellFlow::State& s, int64_t o) { auto it = s.find(o); return it == s.end() ? symL(C, o) : it->second; }
static string member(CellFlow& C, int64_t o) { string n = C.name(o); auto d = n.find('.'); return d == string::npos ? n : n.substr(0, d); }

// what reset establishes, as equations between fields
struct ResetSpec {
  struct Eq { int64_t off; Lin form; };       // value of field = form over fields (symbols of the reset flow)
  std::map<int64_t, Lin> form;                // scalar fields
  std::set<int64_t> emptied;                  // vectors left empty
  std::set<int64_t> sizeKept;                 // vectors whose size is not changed by any search
  std::vector<Fill> fills;
};
// element size of the vector at offset v
static uint64_t elemSize(VmModel& V, int64_t v) {
  const DIType* ft; V.T.leaf(V.vm, v, &ft);
  auto* p = Types::pointee(ft); auto* t = p ? V.T.canon(p) : nullptr;
  return t ? t->getSizeInBits() / 8 : 0;
}
// translate a form over reset's symbols into a value in another flow's state; false if not expressible
static bool translate(CellFlow& R0, const Lin& f, CellFlow& C, const CellFlow::State& s, Lin& out) {
  out = Lin(); out.c = f.c; if (!f.ok) return false;
  for (auto& [v, k] : f.t) {
    bool found = false;
    if (v == R0.baseSym) { Lin b; b.t[C.baseSym] = 1; out = out + b.mul(k); continue; }
    for (auto& [o, sv] : R0.inSym) if (sv == v) { out = out + valOf(C, s, o).mul(k); found = true; break; }
    if (!found) return false;
  }
  return true;
}
static bool eqL(CellFlow& C, const Lin& a, const Lin& b) {
  if (!a.ok || !b.ok) return false;
  Lin d = a - b;
  return d.t.empty() && d.c == 0;
}
struct Mutable {   // what searching may change, over all search entry points
  std::map<int64_t, string> cells, heap;
  std::set<int64_t> live;     // incoming value may be read by some search
  std::map<int64_t, string> liveAt;
};
static Mutable mutableState(VmModel& V, std::map<Function*, std::unique_ptr<CellFlow>>& flows) {
  Mutable m;
  for (auto* F : V.searchRoots) {
    auto& C = flows[F]; if (!C) C = V.flowRoot(F);
    for (auto& [o, w] : C->writes) if (!m.cells.count(o)) m.cells[o] = where(w);
    for (auto& [o, w] : C->heapWrites) {
      const DIType* ft; V.T.leaf(V.vm, o, &ft); auto* p = Types::pointee(ft);
      if (stripDI(ft) && isa<DIDerivedType>(stripDI(ft)) && !p) continue;      // void*: the caller's own memory
      if (!m.heap.count(o)) m.heap[o] = where(w);
    }
    for (auto& [o, w] : C->readsIncoming) { m.live.insert(o); if (!m.liveAt.count(o)) m.liveAt[o] = where(w); }
  }
  return m;
}
// A class whose reader functions ignore its heap memory once its fields satisfy the reset equations.
static bool heapIgnored(VmModel& V, CellFlow& RC, const CellFlow::State& rs, int64_t ptrOff, string& why) {
  // the member object that holds the pointer
  const DIType* ty = V.vm; uint64_t off = ptrOff, mo = 0; const DICompositeType* obj = nullptr;
  for (auto* E : V.vm->getElements()) {
    auto* D = dyn_cast<DIDerivedType>(E); if (!D || D->isStaticMember() || D->getTag() != dwarf::DW_TAG_member) continue;
    auto* bt = dyn_cast_or_null<DICompositeType>(V.T.canon(D->getBaseType())); uint64_t o = D->getOffsetInBits() / 8;
    if (bt && off >= o && off < o + bt->getSizeInBits() / 8) { obj = bt; mo = o; }
  }
  (void)ty;
  if (!obj) { why = "no enclosing class"; return false; }
  string cn = diQualName(obj); int readers = 0;
  for (auto& F : V.M) {
    if (F.isDeclaration() || F.arg_size() < 1) continue;
    auto* S = F.getSubprogram(); if (!S) continue;
    auto* D = S->getDeclaration() ? S->getDeclaration() : S;
    if (V.T.canon(dyn_cast_or_null<DIType>(D->getScope())) != obj) continue;
    if (F.getReturnType()->isVoidTy()) continue;
    if (V.cloneOf.count(&F)) continue;
    Function* G = V.prep(&F);
    Path b; b.root = G->getArg(0);
    CellFlow C(*G, V.T, b, obj); C.run();
    bool reads = false;
    for (auto& I : instructions(*G)) if (auto* L = dyn_cast<LoadInst>(&I)) for (auto& p : C.PF.paths(L->getPointerOperand()))
      if (p.root == b.root && p.steps.size() >= 2 && p.steps.back() != Path::DEREF) { for (auto x : p.steps) if (x == Path::DEREF) reads = true; }
      else if (p.root == b.root && p.steps.size() >= 1 && p.steps.back() == Path::DEREF) reads = true;
    if (!reads) continue;
    ++readers;
    // facts: the reset equations of this object's fields, and that loaded numbers are not negative
    std::vector<Lin> facts = C.L.extra;
    for (auto& [o, f] : rs) {
      if (o < (int64_t)mo || o >= (int64_t)(mo + obj->getSizeInBits() / 8)) continue;
      Lin t; t.c = f.c; bool ok = f.ok;
      for (auto& [v, k] : f.t) { bool fd = false; for (auto& [o2, sv] : RC.inSym) if (sv == v) { t = t + symL(C, o2 - mo).mul(k); fd = true; } if (!fd) ok = false; }
      if (!ok) continue;
      Lin e = symL(C, o - mo) - t; if (e.t.empty()) continue;
      facts.push_back(e); facts.push_back(e.mul(-1));
    }
    for (auto& I : instructions(*G)) if (auto* L = dyn_cast<LoadInst>(&I)) if (L->getType()->isIntegerTy()) facts.push_back(C.lin(L));
    // reachable part under these facts
    std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl{&G->getEntryBlock()}; std::set<std::pair<const BasicBlock*, const BasicBlock*>> taken;
    auto infeasible = [&](const Value* c, bool t) { return C.L.refutes(facts, c, t); };
    while (!wl.empty()) {
      auto* B = wl.back(); wl.pop_back();
      if (!seen.insert(B).second) continue;
      auto* Br = dyn_cast<BranchInst>(B->getTerminator());
      for (unsigned k = 0; k < B->getTerminator()->getNumSuccessors(); ++k) {
        auto* Su = B->getTerminator()->getSuccessor(k);
        if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1) && infeasible(Br->getCondition(), k == 0)) continue;
        taken.insert({B, Su}); wl.push_back(Su);
      }
    }
    std::function<bool(const Value*, int)> fixed = [&](const Value* v, int d) -> bool {
      if (d > 10) return false;
      if (isa<Constant>(v)) return true;
      if (auto* P = dyn_cast<PHINode>(v)) { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) if (taken.count({P->getIncomingBlock(i), P->getParent()}) && !fixed(P->getIncomingValue(i), d + 1)) return false; return true; }
      if (auto* S = dyn_cast<SelectInst>(v)) {
        bool a = infeasible(S->getCondition(), true), b = infeasible(S->getCondition(), false);
        return (a || fixed(S->getTrueValue(), d + 1)) && (b || fixed(S->getFalseValue(), d + 1));
      }
      if (v->getType()->isIntegerTy(1)) return infeasible(v, true) || infeasible(v, false);
      if (auto* A = dyn_cast<BinaryOperator>(v)) if (A->getOpcode() == Instruction::And) return (v->getType()->isIntegerTy(1)) && (infeasible(A->getOperand(0), true) || infeasible(A->getOperand(1), true));
      if (auto* Z = dyn_cast<ZExtInst>(v)) return fixed(Z->getOperand(0), d + 1);
      return false;
    };
    for (auto* B : seen) if (auto* Rt = dyn_cast<ReturnInst>(B->getTerminator()))
      if (!fixed(Rt->getReturnValue(), 0)) { why = fnName(&F) + " still depends on old contents when the object is empty"; return false; }
  }
  if (!readers) { why = "no reader functions of " + cn + " found"; return false; }
  why = cn + "'s " + std::to_string(readers) + " reader(s) ignore old contents when empty";
  return true;
}

// checks that state s (of flow C) satisfies reset's equations; reports per field
struct Conf { bool ok; string msg; };
static Conf conforms(CellFlow& RC, const CellFlow::State& rs, int64_t off, CellFlow& C, const CellFlow::State& s) {
  Lin want; auto it = rs.find(off);
  if (it == rs.end() || !translate(RC, it->second, C, s, want)) return {false, "reset does not define it"};
  Lin have = valOf(C, s, off);
  if (eqL(C, want, have)) return {true, ""};
  return {false, "is " + (have.ok ? C.str(have) : string("different on different paths")) + ", a reset gives " + RC.str(it->second)};
}

static int b01(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc"));
  VmModel V(*M);
  std::map<Function*, std::unique_ptr<CellFlow>> flows;
  auto m = mutableState(V, flows);
  auto RC = V.flowRoot(V.reset);
  bool any; auto rs = RC->atExit(&any); if (!any) R.error("lg_reset_context does not return");
  Function* ct = V.ctor(); if (!ct) R.error("constructor of the engine not found");
  V.prep(ct);
  Path cb; cb.root = ct->getArg(0);
  auto CC = V.flow(ct, cb); CC->run();
  auto cs = CC->atExit(&any); if (!any) R.error("constructor does not return");
  R.count("search_entry_points", V.searchRoots.size());
  R.count("fields_changed_by_search", m.cells.size());
  std::set<int64_t> inVec; std::map<int64_t, int64_t> vecOf;
  for (auto v : RC->vectors) for (int k = 0; k < 3; ++k) { inVec.insert(v + 8 * k); vecOf[v + 8 * k] = v; }
  std::set<int64_t> vecs;
  // scalar fields
  for (auto& [o, w] : m.cells) {
    if (inVec.count(o)) { if (vecs.insert(vecOf[o]).second && getenv("LG_DEBUG")) errs() << RC->name(o) << " written at " << w << "\n"; continue; }
    string key = RC->name(o);
    if (!m.live.count(o)) { R.ob(true, "reset-restores", key, w, "every search entry point overwrites it before use"); continue; }
    Lin f = valOf(*RC, rs, o);
    if (eqL(*RC, f, symL(*RC, o)) || !f.ok) {
      R.ob(false, "reset-restores", key, whereF(V.reset), key + " is changed by searching (" + w + "), its old value is used by a later search (" + m.liveAt[o] + "), and a reset " + (f.ok ? "leaves it as it is" : "restores it on some paths only"));
      continue;
    }
    Lin want; bool tr = translate(*RC, f, *CC, cs, want);
    Lin have = valOf(*CC, cs, o);
    bool ok = tr && eqL(*CC, want, have);
    R.ob(ok, "reset-restores", key, w, ok ? "reset and construction both leave it " + RC->str(f) : "reset sets it to " + RC->str(f) + " but a new context has " + (have.ok ? CC->str(have) : "different values on different paths"));
  }
  // vectors whose bounds change
  for (auto v : vecs) {
    string key = member(*RC, v) + " (size)";
    Lin size = valOf(*RC, rs, v + 8) - valOf(*RC, rs, v);
    Lin csize = valOf(*CC, cs, v + 8) - valOf(*CC, cs, v);
    if (getenv("LG_DEBUG")) errs() << key << " reset " << RC->str(size) << " ctor " << CC->str(csize) << "\n";
    bool ok = size.ok && size.t.empty() && size.c == 0;
    bool ok2 = csize.ok && csize.t.empty() && csize.c == 0;
    R.ob(ok && ok2, "reset-empties", key, whereF(V.reset), !ok ? member(*RC, v) + " is changed by searching and a reset does not empty it" : !ok2 ? "a new context does not start with it empty" : "empty after reset and after construction");
  }
  // memory behind pointers
  std::set<int64_t> doneH;
  for (auto& [o0, w] : m.heap) {
    int64_t o = vecOf.count(o0) ? vecOf[o0] : o0;
    if (!doneH.insert(o).second) continue;
    string key = member(*RC, o) + " (contents)";
    if (inVec.count(o)) {
      if (vecs.count(o)) { R.ob(true, "reset-contents", key, w, "emptied, contents unreachable"); continue; }
      uint64_t es = elemSize(V, o);
      auto f = findFills(*RC, o, es); bool ok = !f.empty() && coveredByFill(*RC, o, f, nullptr);
      auto fc = findFills(*CC, o, es); bool ok2 = ok;
      if (ok) {
        // in the constructor: after the last write of anything else
        ok2 = !fc.empty() && coveredByFill(*CC, o, fc, nullptr);
        for (auto& I : instructions(*ct)) {
          if (CC->dead.count(I.getParent())) continue;
          auto* CB = dyn_cast<CallBase>(&I); bool wr = false;
          if (CB) { auto* G = CB->getCalledFunction(); if (G && !G->isDeclaration()) for (unsigned k = 0; k < CB->arg_size(); ++k) { int64_t q; bool may; if (CB->getArgOperand(k)->getType()->isPointerTy() && CC->cellOf(CB->getArgOperand(k), q, may)) for (auto h : V.summary(G, k).heap) if (h + q == o || h + q == o + 8) wr = true; } }
          else if (auto* S = dyn_cast<StoreInst>(&I)) { for (auto& p : CC->PF.paths(S->getPointerOperand())) if (p.root == cb.root && p.steps.size() >= 2 && p.steps[0] == o && p.steps[1] == Path::DEREF) { wr = true; if (auto* K = dyn_cast<Constant>(S->getValueOperand())) if (K->isNullValue()) wr = false; } }
          if (wr && !coveredByFill(*CC, o, fc, &I)) ok2 = false;
        }
      }
      R.ob(ok && ok2, "reset-contents", key, f.empty() ? whereF(V.reset) : where(f[0].site),
           !ok ? "searching changes elements of " + member(*RC, o) + " (" + w + ") and a reset does not set every element back to zero on every path" : ok2 ? "every element set to zero on every path" : "a new context may start with other contents");
    } else {
      string why; bool ok = heapIgnored(V, *RC, rs, o, why);
      R.ob(ok, "reset-contents", key, w, ok ? why : "searching changes memory behind " + RC->name(o) + " and a reset does not: " + why);
    }
  }
  return 0;
}
static Reg r1("B01", b01);
static int cellsDump(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc")); VmModel V(*M);
  Function* F = M->getFunction(a.at("--root")); std::unique_ptr<CellFlow> C;
  if (a.at("--root") == "ctor") { F = V.ctor(); V.prep(F); Path cb; cb.root = F->getArg(0); C = V.flow(F, cb); C->run(); }
  else C = V.flowRoot(F);
  for (auto& B : *F) {
    errs() << "\n== " << B.getName() << (C->dead.count(&B) ? " DEAD" : "") << "\n";
    for (auto& [o, l] : C->in[&B]) if (!(l.t.size() == 1 && l.t.begin()->first == C->sym(o))) errs() << "   " << C->name(o) << " = " << (l.ok ? C->str(l) : "?") << "\n";
    for (auto& I : B) { I.setMetadata("tbaa", nullptr); if (isa<DbgInfoIntrinsic>(I)) continue; I.setDebugLoc(DebugLoc()); I.print(errs()); errs() << "\n"; }
  }
  _exit(0);
}
static Reg rcd("cells", cellsDump);
static int b02(const Args& a) {
  LLVMContext X; auto M = loadModule(X, a.at("--bc"));
  VmModel V(*M);
  std::map<Function*, std::unique_ptr<CellFlow>> flows;
  auto m = mutableState(V, flows);
  auto RC = V.flowRoot(V.reset);
  bool any; auto rs = RC->atExit(&any); if (!any) R.error("lg_reset_context does not return");
  Function* sw = M->getFunction("lg_starts_with"); if (!sw) R.error("lg_starts_with not found");
  auto& C = *flows[sw];
  std::map<int64_t, int64_t> vecOf; for (auto v : RC->vectors) for (int k = 0; k < 3; ++k) vecOf[v + 8 * k] = v;
  auto badCells = [&](const CellFlow::State& s, std::map<string, string>* why) {
    bool ok = true; std::set<int64_t> vd;
    for (auto& [o, w] : m.cells) {
      string key, msg; bool good;
      if (vecOf.count(o)) {
        int64_t v = vecOf[o]; if (!vd.insert(v).second) continue;
        Lin d = valOf(C, s, v + 8) - valOf(C, s, v); key = member(C, v) + " (size)";
        good = d.ok && d.t.empty() && d.c == 0; msg = good ? "empty" : "not empty on every path";
      } else {
        if (!m.live.count(o)) continue;
        auto c = conforms(*RC, rs, o, C, s); key = C.name(o); good = c.ok; msg = c.ok ? "as after a reset" : c.msg;
      }
      if (!good) ok = false;
      if (why) (*why)[key] = (good ? "+" : "-") + msg;
    }
    return ok;
  };
  // places that depend on the state or grow it: buffer accesses, callbacks, thread execution, pushes
  std::vector<const Instruction*> sites; const Value* buf = sw->getArg(1);
  for (auto& I : instructions(*sw)) {
    if (C.dead.count(I.getParent())) continue;
    bool s = false;
    if (auto* CB = dyn_cast<CallBase>(&I)) {
      if (CB->isIndirectCall()) s = true;
      else if (auto* G = CB->getCalledFunction()) if (!G->isDeclaration()) s = true;
    } else if (auto* L = dyn_cast<LoadInst>(&I)) { for (auto& p : C.PF.paths(L->getPointerOperand())) if (p.root == buf) s = true; }
    else if (auto* S = dyn_cast<StoreInst>(&I)) {
      for (auto& p : C.PF.paths(S->getPointerOperand())) { auto k = V.basePath(sw).steps.size();
        if (p.root == C.base.root && p.steps.size() > k + 1 && std::equal(C.base.steps.begin(), C.base.steps.end(), p.steps.begin())) if (m.heap.count(p.steps[k]) && vecOf.count(p.steps[k]) && m.cells.count(p.steps[k])) s = true; }
    }
    if (s && isa<CallBase>(I)) {     // bookkeeping of reference counts is not the engine's
      bool eng = false;
      for (auto& x : cast<CallBase>(I).args()) { if (!x->getType()->isPointerTy()) continue; for (auto& p : C.PF.paths(x)) if ((p.root == C.base.root && p.steps.size() >= C.base.steps.size() && std::equal(C.base.steps.begin(), C.base.steps.end(), p.steps.begin())) || isa<AllocaInst>(p.root ? p.root : buf)) eng = true; }
      for (auto& p : C.PF.paths(cast<CallBase>(I).getCalledOperand())) if (p.root == sw->getArg(sw->arg_size() - 2)) eng = true;
      s = eng;
    }
    if (s) sites.push_back(&I);
  }
  if (getenv("LG_DEBUG")) for (auto* I : sites) errs() << where(I) << "  " << *I << "\n";
  R.count("sites_that_use_the_state", sites.size());
  if (sites.size() < 4) R.error("no thread execution found in lg_starts_with");
  // exit
  int nret = 0;
  for (auto& B : *sw) {
    if (C.dead.count(&B) || !isa<ReturnInst>(B.getTerminator())) continue;
    ++nret;
  }
  R.count("returns", nret);
  auto ex = C.atExit(&any); if (!any) R.error("lg_starts_with does not return");
  std::map<string, string> why; badCells(ex, &why);
  for (auto& [k, msg] : why) R.ob(msg[0] == '+', "leaves-clean", k, whereF(sw), k + " at the end of lg_starts_with: " + msg.substr(1));
  // contents of vectors that keep their size
  std::map<int64_t, std::vector<Fill>> fills;
  for (auto& [o0, w] : m.heap) {
    if (!vecOf.count(o0)) continue; int64_t o = vecOf[o0];
    if (fills.count(o) || m.cells.count(o) || m.cells.count(o + 8)) continue;
    auto& f = fills[o]; f = findFills(C, o, elemSize(V, o));
    bool ok = true; string wh = whereF(sw);
    for (auto& I : instructions(*sw)) {
      if (C.dead.count(I.getParent())) continue;
      bool wr = false;
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        auto* G = CB->getCalledFunction();
        if (G && !G->isDeclaration()) for (unsigned k = 0; k < CB->arg_size(); ++k) { int64_t q; bool may; if (CB->getArgOperand(k)->getType()->isPointerTy() && C.cellOf(CB->getArgOperand(k), q, may)) for (auto h : V.summary(G, k).heap) if (vecOf.count(h + q) && vecOf[h + q] == o) wr = true; }
      } else if (auto* S = dyn_cast<StoreInst>(&I)) {
        for (auto& p : C.PF.paths(S->getPointerOperand())) { auto k = C.base.steps.size(); if (p.root == C.base.root && p.steps.size() >= k + 2 && std::equal(C.base.steps.begin(), C.base.steps.end(), p.steps.begin()) && p.steps[k] == o && p.steps[k + 1] == Path::DEREF) wr = true; }
        if (auto* K = dyn_cast<Constant>(S->getValueOperand())) if (K->isNullValue()) wr = false;
      }
      if (wr && !coveredByFill(C, o, f, &I)) { ok = false; wh = where(&I); }
    }
    R.ob(ok, "leaves-clean", member(C, o) + " (contents)", wh, ok ? "zeroed after every change" : "an element of " + member(C, o) + " set here is not zeroed on every path to the return");
  }
  // start
  const BasicBlock* D = nullptr;
  for (auto* I : sites) D = D ? C.DT.findNearestCommonDominator(const_cast<BasicBlock*>(D), const_cast<BasicBlock*>(I->getParent())) : I->getParent();
  std::map<string, string> w2; bool ok = false; string f;
  for (auto* N = C.DT.getNode(const_cast<BasicBlock*>(D)); N && !ok; N = N->getIDom()) {
    auto* B = N->getBlock(); w2.clear();
    const Instruction* at = B->getTerminator();
    for (auto& I : *B) if (std::find(sites.begin(), sites.end(), &I) != sites.end()) { at = &I; break; }
    auto st = C.stateBefore(at);
    bool g = badCells(st, &w2); string bad;
    for (auto& [k, msg] : w2) if (msg[0] == '-') bad += (bad.empty() ? "" : "; ") + k + " " + msg.substr(1);
    for (auto& [o, fl] : fills) if (!coveredByFill(C, o, fl, nullptr, B)) { g = false; bad += (bad.empty() ? "" : "; ") + member(C, o) + " (contents) not zeroed"; }
    if (g) ok = true; else if (f.empty()) f = bad;
  }
  R.ob(ok, "starts-clean", "lg_starts_with", whereF(sw), ok ? "a point with the state of a reset dominates every use of the search state" : "threads or limits of an earlier search can take part: " + f);
  return 0;
}
static Reg r2("B02", b02);
