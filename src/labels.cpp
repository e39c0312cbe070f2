#include "exc.h"
#include "typed.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
// C02: a hit's pattern index is the label given when the pattern was added (copies only); lookup and count agree.
// A04: nothing but creation writes to a compiled program.
std::vector<const Function*> apiRoots(Module& M);

static Types* TY;
static string cname(const DIType* T) {
  auto* C = dyn_cast_or_null<DICompositeType>(T); if (!C) return "";
  if (C->getName().empty() && TY) for (auto& [n, c] : TY->byName) if (c == C) return n;   // typedef struct { } Name;
  return diQualName(C);
}
static void mem2reg(Function& F) {
  std::vector<AllocaInst*> as; DominatorTree DT(F);
  for (auto& I : F.getEntryBlock()) if (auto* A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) as.push_back(A);
  if (!as.empty()) PromoteMemToReg(as, DT);
}
// functions reachable from roots; stop(F): not entered
static std::vector<Function*> reach(Module& M, const CHA& cha, std::vector<const Function*> wl, std::function<bool(const Function*)> stop, std::map<const Function*, const Function*>* from = nullptr) {
  std::vector<Function*> out; std::set<const Function*> seen(wl.begin(), wl.end());
  for (size_t i = 0; i < wl.size(); ++i) {
    auto* f = wl[i]; if (!f || f->isDeclaration()) continue;
    out.push_back(const_cast<Function*>(f));
    for (auto& I : instructions(*f)) {
      auto add = [&](const Function* g) { if (g && !stop(g) && seen.insert(g).second) { wl.push_back(g); if (from) (*from)[g] = f; } };
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        bool res; int64_t slot; bool ind = !CB->getCalledFunction() && !CHA::vcall(CB, &slot) && !inRepo(f);
        for (auto* t : cha.targets(CB, &res)) {
          // a stored deleter is given objects of the class the smart pointer is for
          if (ind && TY && inRepo(t) && t->arg_size() == 1) { auto* at = TY->argType(*t, 0); auto* ap = at ? Types::pointee(stripDI(at)) : nullptr; string q = ap ? cname(TY->canon(ap)) : ""; if (!q.empty() && !StringRef(dem(f->getName())).contains(q)) continue; }
          add(t);
        }
      }
      for (auto& o : I.operands()) if (auto* g = dyn_cast<Function>(o->stripPointerCasts())) add(g);   // passed on: may be called
    }
  }
  return out;
}

// ------------------------------------------------------------------ A04
void programEffects(const string& path) {
  LLVMContext C; auto M = loadModule(C, path); Types Ty(*M); Ty.allocas = false; Ty.calls = true; TY = &Ty;
  CHA cha(*M);
  auto protoOf = [&](const char* fn) -> const DICompositeType* { auto* F = M->getFunction(fn); auto* t = F ? Ty.argType(*F, 0) : nullptr; auto* p = t ? Types::pointee(stripDI(t)) : nullptr; return p ? dyn_cast_or_null<DICompositeType>(Ty.canon(p)) : nullptr; };
  const DICompositeType* PH = protoOf("lg_destroy_program");
  if (!PH) R.error("A04: type of the program handle not found");
  // everything a program consists of: classes of the repository reachable from the handle through members
  std::map<const DIType*, string> prot; std::set<string> protNames; std::vector<std::pair<const DIType*, string>> wl{{PH, "the handle"}};
  int raw = 0;
  while (!wl.empty()) {
    auto [t, how] = wl.back(); wl.pop_back();
    auto* K = dyn_cast_or_null<DICompositeType>(Ty.canon(t));
    if (!K || K->isForwardDecl() || prot.count(K)) continue;
    if (K->getTag() == dwarf::DW_TAG_enumeration_type) continue;
    prot[K] = how;
    string q = cname(K);
    bool stdc = StringRef(q).starts_with("std::") || StringRef(q).starts_with("__gnu_cxx::");
    if (!stdc && !q.empty()) protNames.insert(q);
    if (StringRef(q).starts_with("std::shared_ptr<") || StringRef(q).starts_with("std::unique_ptr<") || StringRef(q).starts_with("std::vector<"))
      for (auto* tp : K->getTemplateParams()) if (auto* ttp = dyn_cast_or_null<DITemplateTypeParameter>(tp)) { auto* x = Ty.canon(ttp->getType()); auto* xc = dyn_cast_or_null<DICompositeType>(x); if (xc && xc->getTag() == dwarf::DW_TAG_array_type) x = Ty.canon(xc->getBaseType()); if (!StringRef(cname(x)).starts_with("std::")) wl.push_back({x, q}); }
    if (K->getTag() == dwarf::DW_TAG_array_type) { wl.push_back({K->getBaseType(), how}); continue; }
    if (stdc) continue;
    for (auto* E : K->getElements()) {
      auto* D = dyn_cast<DIDerivedType>(E); if (!D || D->isStaticMember()) continue;
      if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
      auto* ft = D->getBaseType();
      if (auto* p = Types::pointee(stripDI(ft))) {
        // a plain pointer inside a program: into its own parts only
        auto* pc = dyn_cast_or_null<DICompositeType>(Ty.canon(p));
        if (pc) { ++raw; wl.push_back({pc, q + "::" + D->getName().str()}); }
      } else wl.push_back({ft, q + "::" + D->getName().str()});
    }
  }
  R.count("classes_of_a_program", protNames.size());
  // no part of a program is of a class an FSM is built from
  if (auto* FH = protoOf("lg_destroy_fsm")) {
    std::set<string> fsm; std::vector<const DIType*> w2{FH}; std::set<const DIType*> seen;
    while (!w2.empty()) { auto* K = dyn_cast_or_null<DICompositeType>(Ty.canon(w2.back())); w2.pop_back(); if (!K || !seen.insert(K).second) continue; string q = cname(K); bool stdc = StringRef(q).starts_with("std::"); if (!stdc) fsm.insert(q);
      for (auto* tp : K->getTemplateParams()) if (auto* ttp = dyn_cast_or_null<DITemplateTypeParameter>(tp)) if (ttp->getType()) w2.push_back(Ty.canon(ttp->getType()));
      if (!stdc) for (auto* E : K->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (!D->isStaticMember() && D->getTag() == dwarf::DW_TAG_member) { auto* p = Types::pointee(stripDI(D->getBaseType())); w2.push_back(p ? p : D->getBaseType()); } }
    std::set<string> common; for (auto& q : protNames) if (fsm.count(q)) common.insert(q);
    string bad; for (auto& q : common) if (StringRef(q).starts_with("Graph<") || q == cname(FH) || StringRef(q).contains("FSM")) bad = q;
    R.ob(bad.empty(), "program-owns-its-parts", cname(PH), "", bad.empty() ? "no part of a program belongs to the automaton of its FSM" : "a program refers to " + bad + " of its FSM");
    for (auto* E : PH->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member && Types::pointee(stripDI(D->getBaseType())) && dyn_cast_or_null<DICompositeType>(Ty.canon(Types::pointee(stripDI(D->getBaseType())))))
      R.ob(false, "program-owns-its-parts", cname(PH) + "::" + D->getName().str(), "", "the program holds a plain pointer to an object it does not own");
  }
  // who may write: creation and destruction; adding patterns may write the pattern list (its sharing is a separate rule)
  std::set<string> mapParts;     // parts also reachable from the pattern list
  std::map<const Function*, std::pair<std::set<string>, std::set<string>>> done;
  struct W { const Instruction* I; string cls; };
  std::map<const Function*, std::vector<W>> cache;
  int nfun = 0, nst = 0, untyped = 0;
  auto writes = [&](Function* G) -> const std::vector<W>& {
    auto it = cache.find(G); if (it != cache.end()) return it->second;
    auto& out = cache[G]; ++nfun;
    string q = fnName(G);
    bool ctor = false; if (auto p = q.rfind("::"); p != string::npos) { string c = q.substr(0, p); auto p2 = c.rfind("::"); ctor = q.substr(p + 2) == (p2 == string::npos ? c : c.substr(p2 + 2)); }
    simplify(*G, false);
    PathFinder PF(*M);
    for (auto& I : instructions(*G)) {
      const Value* P = nullptr; std::vector<const Value*> ps;
      if (auto* S = dyn_cast<StoreInst>(&I)) ps.push_back(S->getPointerOperand());
      else if (auto* MI = dyn_cast<MemIntrinsic>(&I)) ps.push_back(MI->getRawDest());
      else if (auto* X = dyn_cast<AtomicRMWInst>(&I)) ps.push_back(X->getPointerOperand());
      else if (auto* CB = dyn_cast<CallBase>(&I)) { auto* f = CB->getCalledFunction(); if (f && f->isDeclaration() && !f->isIntrinsic()) { StringRef n = f->getName(); if (n == "memcpy" || n == "memmove" || n == "memset" || n == "strcpy" || n == "strncpy" || n == "strcat" || n == "free") ps.push_back(CB->getArgOperand(0)); } }
      (void)P;
      for (auto* V : ps) {
        ++nst;
        for (auto& p : PF.paths(V)) {
          if (isa_and_nonnull<AllocaInst>(p.root)) { bool d = false; for (auto s : p.steps) d |= s == Path::DEREF; if (!d) continue; }
          if (ctor && p.root == G->getArg(G->hasStructRetAttr() ? 1 : 0)) { bool d = false; for (auto s : p.steps) d |= s == Path::DEREF; if (!d) continue; }
          // every object passed on the way
          Path x; x.root = p.root; bool typed = false;
          auto test = [&](const Path& y) { auto L = Ty.locate(y); if (!L.ok) return; typed = true; string c = cname(L.cls); if (protNames.count(c)) { out.push_back({&I, c}); } else { auto e = L.owner.find("::"); if (e != string::npos && protNames.count(L.owner.substr(0, L.owner.rfind("::"))) && dyn_cast_or_null<DIBasicType>(L.cls)) out.push_back({&I, L.owner}); } };
          test(p);
          if (!typed) ++untyped;
        }
      }
    }
    return out;
  };
  auto* APF = M->getFunction("lg_add_pattern");
  std::set<string> creators{"lg_create_program", "lg_read_program", "lg_destroy_program"};
  auto ctorOf = [](const Function*) { return false; };
  (void)ctorOf;
  for (auto* F : apiRoots(*M)) {
    string n = F->getName().str();
    if (creators.count(n)) continue;
    bool onFsm = false;   // handles of FSMs: the pattern list there is the FSM's
    for (unsigned i = 0; i < F->arg_size(); ++i) { auto* t = Ty.argType(*F, i); auto* p = t ? Types::pointee(stripDI(t)) : nullptr; if (p && protoOf("lg_destroy_fsm") == Ty.canon(p)) onFsm = true; }
    bool adds = n == "lg_add_pattern" || n == "lg_create_fsm" || n == "lg_destroy_fsm";
    std::map<const Function*, const Function*> from;
    auto fs = reach(*M, cha, {F}, [&](const Function* g) { if (g == APF && F != APF) return true; string n = fnName(g); if (StringRef(n).contains("_Sp_counted") && StringRef(n).contains("_M_dispose")) for (auto& q : protNames) if (StringRef(n).contains("<" + q + " *") || StringRef(n).contains("<" + q + "*") || StringRef(n).contains("<" + q + ",")) return true; return false; }, &from);
    string bad, at; int n2 = 0;
    for (auto* g : fs) for (auto& w : writes(g)) {
      ++n2;
      bool listOnly = w.cls.find("Pattern") != string::npos && w.cls != cname(PH);
      if (listOnly && adds) continue;
      string chain = fnName(g); for (auto* h = from.count(g) ? from[g] : nullptr; h; h = from.count(h) ? from[h] : nullptr) chain = fnName(h) + " > " + chain;
      bad = "writes to " + w.cls + " (" + where(w.I) + "), reached by " + (chain.size() > 600 ? n + " > ... " + chain.substr(chain.size() - 600) : chain); at = where(w.I);
    }
    (void)onFsm;
    R.ob(bad.empty(), "no-write-to-program", n, bad.empty() ? whereF(F) : at, bad.empty() ? "none of the " + std::to_string(fs.size()) + " functions it can reach writes to a part of a program" : bad);
  }
  R.count("functions_examined", nfun); R.count("stores_examined", nst); R.count("stores_of_unknown_type", untyped);
}

// ------------------------------------------------------------------ C02: labels
struct LabelFlow {
  Module& M; Types& Ty; const CHA& cha; PathFinder PF;
  std::map<string, std::vector<const StoreInst*>> stores;            // by field
  std::map<const Function*, std::vector<const CallBase*>> callers;
  std::set<const Value*> seen; std::set<string> seenField;
  std::set<string> terminal; std::set<const Value*> stopAt;
  std::vector<string> bad; int copies = 0; std::set<string> leaves;
  std::vector<const Value*> wl;
  LabelFlow(Module& M, Types& T, const CHA& c) : M(M), Ty(T), cha(c), PF(M) {}
  string fieldOf(const Value* ptr) {
    string r; for (auto& p : PF.paths(ptr)) { auto L = Ty.locate(p); if (!L.ok) return ""; string f = isa<DICompositeType>(L.cls) ? Ty.leaf(L.cls, L.off) : L.owner + "[]"; if (r.empty()) r = f; else if (r != f) return ""; } return r;
  }
  void index(const std::vector<Function*>& fs) {
    for (auto* f : fs) mem2reg(*f);
    for (auto* f : fs) for (auto& I : instructions(*f)) {
      if (auto* S = dyn_cast<StoreInst>(&I)) { if (S->getValueOperand()->getType()->isIntegerTy()) { string k = fieldOf(S->getPointerOperand()); if (!k.empty()) stores[k].push_back(S); } }
      if (auto* CB = dyn_cast<CallBase>(&I)) { bool res; for (auto* t : cha.targets(CB, &res)) callers[t].push_back(CB); }
    }
  }
  std::map<const Value*, string> why; bool initOnly = false;
  // a member initialised by a constructor that is always set before use
  bool inCtor(const StoreInst* s) { string q = fnName(s->getFunction()); auto p = q.rfind("::"); if (p == string::npos) return false; string c = q.substr(0, p); auto p2 = c.rfind("::"); return q.substr(p + 2) == (p2 == string::npos ? c : c.substr(p2 + 2)); }
  void trace(const Value* V) { if (seen.insert(V).second) wl.push_back(V); }
  void run() {
    while (!wl.empty()) {
      auto* V = wl.back(); wl.pop_back(); ++copies;
      if (stopAt.count(V)) { leaves.insert("the label of lg_add_pattern"); continue; }
      if (auto* K = dyn_cast<ConstantInt>(V)) { uint64_t v = K->getZExtValue() & 0xffffffffu; if (v < 0xfffffff0u) { if (!(v == 0 && initOnly)) bad.push_back("a label is set to the constant " + std::to_string(v) + (why.count(V) ? " " + why[V] : "")); } continue; }
      if (isa<UndefValue>(V)) continue;
      if (auto* Ca = dyn_cast<CastInst>(V)) { trace(Ca->getOperand(0)); continue; }
      if (auto* Fz = dyn_cast<FreezeInst>(V)) { trace(Fz->getOperand(0)); continue; }
      if (auto* P = dyn_cast<PHINode>(V)) { for (auto& x : P->incoming_values()) trace(x); continue; }
      if (auto* S = dyn_cast<SelectInst>(V)) { trace(S->getTrueValue()); trace(S->getFalseValue()); continue; }
      if (auto* L = dyn_cast<LoadInst>(V)) {
        auto* g = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts());
        if (g && g->hasInitializer()) { trace(g->getInitializer()); continue; }
        string k = fieldOf(L->getPointerOperand());
        if (k.empty()) { leaves.insert("memory of unknown type at " + where(L) + L->getPointerOperand()->getName().str()); continue; }
        if (terminal.count(k.substr(0, k.rfind("::")))) { leaves.insert(k); continue; }
        if (seenField.insert(k).second) for (auto* s : stores[k]) { auto* v = s->getValueOperand(); if (auto* K = dyn_cast<ConstantInt>(v)) if (K->isZero() && inCtor(s)) continue; if (isa<Constant>(v)) why[v] = "at " + where(s); trace(v); }
        continue;
      }
      if (auto* A = dyn_cast<Argument>(V)) {
        auto* f = A->getParent(); auto it = callers.find(f);
        if (it == callers.end()) continue;
        for (auto* CB : it->second) if (A->getArgNo() < CB->arg_size()) trace(CB->getArgOperand(A->getArgNo()));
        continue;
      }
      if (auto* CB = dyn_cast<CallBase>(V)) {
        bool res; auto ts = cha.targets(CB, &res);
        bool any = false;
        for (auto* t : ts) if (!t->isDeclaration()) for (auto& I : instructions(*t)) if (auto* Rt = dyn_cast<ReturnInst>(&I)) if (Rt->getReturnValue()) { trace(Rt->getReturnValue()); any = true; }
        if (!any) leaves.insert("result of " + (CB->getCalledFunction() ? fnName(CB->getCalledFunction()) : string("an unknown function")));
        continue;
      }
      if (auto* I = dyn_cast<Instruction>(V)) { bad.push_back("a label is computed (" + string(I->getOpcodeName()) + ") at " + where(I)); continue; }
      leaves.insert("?");
    }
  }
};
void labelFlow(const string& path, const string& mapClass) {
  LLVMContext C; auto M = loadModule(C, path); Types Ty(*M); Ty.calls = true; Ty.allocas = true; TY = &Ty;
  CHA cha(*M);
  auto fs = reach(*M, cha, apiRoots(*M), [](const Function*) { return false; });
  // VM side
  LabelFlow A(*M, Ty, cha); A.index(fs);
  std::vector<const StoreInst*> hits; string hf;
  for (auto& [k, v] : A.stores) if (StringRef(k).ends_with("::KeywordIndex")) { hits = v; hf = k; }
  A.terminal = {"Instruction"};
  if (auto* IC = Ty.byName.count("Instruction") ? Ty.byName["Instruction"] : nullptr) for (auto* E : IC->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) { string q = cname(Ty.canon(D->getBaseType())); if (!q.empty()) A.terminal.insert(q); }
  auto isIns = [&](const string& k) { return A.terminal.count(k.substr(0, k.rfind("::"))) > 0; };
  for (auto* s : hits) A.trace(s->getValueOperand());
  A.run();
  std::set<string> un; bool fromIns = false;
  for (auto& l : A.leaves) if (isIns(l)) fromIns = true; else un.insert(l);
  string why; if (!A.bad.empty()) why = A.bad[0]; else if (!un.empty()) why = "a label comes from " + *un.begin(); else if (!fromIns) why = "no label comes from an instruction";
  R.ob(why.empty(), "hit-label-is-a-copy", "LG_SearchHit::KeywordIndex", hits.empty() ? "" : where(hits[0]), why.empty() ? "every index stored in a hit is a copy of an instruction's operand" : why);
  R.count("label_values_followed", A.copies);
  // which opcode sets a thread's label: the stores that copy an instruction's operand into a field on the way
  std::set<uint64_t> ops; string labelAt;
  for (auto& k : A.seenField) for (auto* s : A.stores[k]) {
    auto* v = s->getValueOperand()->stripPointerCasts(); std::set<const Value*> sn; std::vector<const Value*> w{v}; bool ins = false;
    while (!w.empty()) { auto* x = w.back(); w.pop_back(); if (!sn.insert(x).second) continue; if (auto* L = dyn_cast<LoadInst>(x)) ins |= isIns(A.fieldOf(L->getPointerOperand())); else if (auto* P = dyn_cast<PHINode>(x)) for (auto& y : P->incoming_values()) w.push_back(y); else if (auto* Ca = dyn_cast<CastInst>(x)) w.push_back(Ca->getOperand(0)); }
    if (!ins) continue;
    labelAt = where(s);
    auto* f = const_cast<Function*>(s->getFunction()); DominatorTree DT(*f);
    for (auto& BB : *f) if (auto* Sw = dyn_cast<SwitchInst>(BB.getTerminator())) for (auto& c : Sw->cases()) {
      BasicBlockEdge e(&BB, c.getCaseSuccessor());
      if (DT.dominates(e, s->getParent())) ops.insert(c.getCaseValue()->getZExtValue());
    }
    for (auto& [cond, truth] : domConds(s->getParent(), DT)) if (auto* Ic = dyn_cast<ICmpInst>(cond)) if (Ic->getPredicate() == (truth ? ICmpInst::ICMP_EQ : ICmpInst::ICMP_NE)) if (auto* K = dyn_cast<ConstantInt>(Ic->getOperand(1))) { auto* x = Ic->getOperand(0); while (auto* Ca = dyn_cast<CastInst>(x)) x = Ca->getOperand(0); if (auto* L = dyn_cast<LoadInst>(x)) if (isIns(A.fieldOf(L->getPointerOperand()))) ops.insert(K->getZExtValue()); }
  }
  // compiler side: who makes instructions with that opcode
  LabelFlow B(*M, Ty, cha); B.index(fs);
  int made = 0; string madeAt; std::map<const Function*, DominatorTree> dts;
  auto DTo = [&](const Function* f) -> DominatorTree& { auto it = dts.find(f); if (it == dts.end()) { it = dts.try_emplace(f).first; it->second.recalculate(*const_cast<Function*>(f)); } return it->second; };
  std::set<const Function*> reachable(fs.begin(), fs.end());
  for (auto& [k, v] : B.stores) if (isIns(k)) for (auto* s : v) if (auto* K = dyn_cast<ConstantInt>(s->getValueOperand())) if (ops.count(K->getZExtValue())) {
    auto* f = s->getFunction(); bool arg = false;
    // the operand: the integer parameters of the function that makes the instruction, else what is stored or given to a maker next to it
    for (auto& x : f->args()) if (x.getType()->isIntegerTy() && x.getType()->getIntegerBitWidth() >= 16) { B.trace(&x); arg = true; }
    if (!arg) for (auto& [k2, v2] : B.stores) if (isIns(k2)) for (auto* s2 : v2) if (s2->getFunction() == f && (DTo(f).dominates(s, s2) || DTo(f).dominates(s2, s))) {
      auto* v = s2->getValueOperand(); if (isa<Constant>(v)) continue;
      if (auto* CB = dyn_cast<CallBase>(v)) { for (auto& x : CB->args()) if (x->getType()->isIntegerTy() && !isa<Constant>(x)) { B.trace(x); arg = true; } } else { B.trace(v); arg = true; }
    }
    if (arg) { ++made; madeAt = where(s); }
  }
  if (getenv("LG_DEBUG")) { errs() << "ops:"; for (auto o : ops) errs() << " " << o; errs() << "\nlabelAt " << labelAt << "\n"; for (auto& [k, v] : B.stores) if (StringRef(k).contains("nstruction")) { errs() << k << " " << v.size() << ":"; for (auto* s : v) errs() << " " << fnName(s->getFunction()); errs() << "\n"; } }
  // the label given by lg_add_pattern: the count of the pattern list
  for (auto* f : fs) for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) { string q = fnName(g); if (q == mapClass + "::count" || (StringRef(q).starts_with(mapClass + "::") && g->getReturnType()->isIntegerTy(64) && g->arg_size() == 1 && whereF(f).find("api") != string::npos)) B.stopAt.insert(CB); }
  B.run();
  bool fromCount = B.leaves.count("the label of lg_add_pattern"); un.clear();
  for (auto& l : B.leaves) if (l != "the label of lg_add_pattern") un.insert(l);
  why.clear(); if (!B.bad.empty()) why = B.bad[0]; else if (!un.empty()) why = "a label comes from " + *un.begin(); else if (!made) why = "no place was found where an instruction with the opcode that sets a label is made"; else if (!fromCount) why = "the labels of instructions do not come from the number of patterns";
  R.ob(why.empty(), "program-label-is-a-copy", "label instruction", madeAt, why.empty() ? "every label in a program is a copy of the number of patterns when the pattern was added (or none)" : why);
  R.count("label_values_followed", B.copies);
  string fl; for (auto& s : A.seenField) fl += s + " "; for (auto& s : B.seenField) fl += s + " ";
  R.notes.push_back("label fields: " + fl);
}

// ------------------------------------------------------------------ C02: lookup and count agree, an append stores what it is given
void patternLookup(const string& path, const string& mapClass) {
  std::map<string, string> base;
  for (auto* pre : {"lg_fsm_pattern", "lg_prog_pattern"}) {
    LLVMContext C; auto M = loadModule(C, path); Types Ty(*M); TY = &Ty;
    string vecC, vecI; bool okC = false, okI = false; int64_t esz = 0;
    auto* FI = M->getFunction(string(pre) + "_info"); auto* FC = M->getFunction(string(pre) + "_count");
    if (!FI || !FC || FI->isDeclaration() || FC->isDeclaration()) { R.ob(false, "lookup-is-indexing", pre, "", "function not found"); continue; }
    auto* rt = FI->getSubprogram() && FI->getSubprogram()->getType() ? FI->getSubprogram()->getType()->getTypeArray()[0] : nullptr;
    if (auto* p = rt ? Types::pointee(stripDI(rt)) : nullptr) esz = Ty.canon(p)->getSizeInBits() / 8;
    InlineOpts O; O.stripEH = true;
    auto rel = [](Function* F, const Path& p) { string s; for (auto x : p.steps) s += std::to_string(x) + "."; return p.root == F->getArg(0) ? s : string(); };
    inlineAll(*FI, O); inlineAll(*FC, O);
    string whyI = "the address returned is not start + index * size", whyC = "the number returned is not (end - start) / size";
    {
      DominatorTree DT(*FI); LinCtx X(*FI, DT); PathFinder PF(*M);
      const Value* rv = nullptr; int n = 0; for (auto& I : instructions(*FI)) if (auto* Rt = dyn_cast<ReturnInst>(&I)) { rv = Rt->getReturnValue(); ++n; }
      if (rv && n == 1) {
        APInt off(64, 0); const Value* v = rv; std::vector<const Value*> idx; bool ok = true; int64_t scale = 0;
        while (auto* G = dyn_cast<GEPOperator>(v)) {
          MapVector<Value*, APInt> vo; APInt co(64, 0);
          if (!G->collectOffset(M->getDataLayout(), 64, vo, co)) { ok = false; break; }
          off += co; for (auto& [x, s] : vo) { idx.push_back(x); scale = s.getSExtValue(); }
          v = G->getPointerOperand()->stripPointerCasts();
        }
        if (idx.size() == 1) { auto* x = idx[0]; while (auto* Ca = dyn_cast<CastInst>(x)) { if (isa<TruncInst>(Ca)) ok = false; x = Ca->getOperand(0); } if (x != FI->getArg(1)) ok = false; } else ok = false;
        if (auto* L = dyn_cast<LoadInst>(v)) { auto ps = PF.paths(L->getPointerOperand()); if (ps.size() == 1) vecI = rel(FI, *ps.begin()); }
        okI = ok && off == 0 && scale == esz && !vecI.empty();
        if (!ok) whyI = "the entry is not selected by the index alone";
      }
    }
    {
      PathFinder PF(*M); const Value* rv = nullptr; int n = 0; for (auto& I : instructions(*FC)) if (auto* Rt = dyn_cast<ReturnInst>(&I)) { rv = Rt->getReturnValue(); ++n; }
      if (rv && n == 1) {
        while (auto* Ca = dyn_cast<CastInst>(rv)) rv = Ca->getOperand(0);
        int64_t d = 0;
        if (auto* B = dyn_cast<BinaryOperator>(rv)) if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1))) {
          if (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::UDiv) d = K->getSExtValue();
          if (B->getOpcode() == Instruction::AShr || B->getOpcode() == Instruction::LShr) d = int64_t(1) << K->getZExtValue();
          auto* S = dyn_cast<BinaryOperator>(B->getOperand(0));
          if (d == esz && S && S->getOpcode() == Instruction::Sub) {
            auto ld = [&](Value* v) -> const LoadInst* { while (auto* Ca = dyn_cast<CastInst>(v)) v = Ca->getOperand(0); return dyn_cast<LoadInst>(v); };
            auto* e = ld(S->getOperand(0)); auto* b = ld(S->getOperand(1));
            if (e && b) { auto pe = PF.paths(e->getPointerOperand()), pb = PF.paths(b->getPointerOperand());
              if (pe.size() == 1 && pb.size() == 1) { vecC = rel(FC, *pb.begin()); Path q = *pe.begin(); if (!q.steps.empty()) { if (q.steps.back() == 8) q.steps.pop_back(); else q.steps.back() -= 8; } Path r = *pb.begin(); auto trim = [](Path& x) { while (!x.steps.empty() && x.steps.back() == 0) x.steps.pop_back(); }; trim(q); trim(r); okC = q == r; } }
          }
        }
      }
    }
    auto strip0 = [](string s) { while (s.size() > 2 && s.substr(s.size() - 2) == "0." && (s.size() == 2 || s[s.size() - 3] == '.')) s = s.substr(0, s.size() - 2); return s; };
    bool same = strip0(vecC) == strip0(vecI);
    R.ob(okI, "lookup-is-indexing", string(pre) + "_info", whereF(FI), okI ? "returns the address of entry number patternIndex of the pattern list" : whyI);
    R.ob(okC && same, "count-is-size", string(pre) + "_count", whereF(FC), okC && same ? "returns the number of entries of the same list" : !okC ? whyC : "count and lookup use different lists (" + vecC + " / " + vecI + ")");
  }
  // append
  LLVMContext C; auto M = loadModule(C, path); Types Ty(*M); TY = &Ty;
  auto* PI = [&]() -> const DICompositeType* { auto* F = M->getFunction("lg_prog_pattern_info"); auto* rt = F->getSubprogram()->getType()->getTypeArray()[0]; auto* p = Types::pointee(stripDI(rt)); return p ? dyn_cast_or_null<DICompositeType>(Ty.canon(p)) : nullptr; }();
  std::map<string, int64_t> fld; if (PI) for (auto* E : PI->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) fld[D->getName().str()] = D->getOffsetInBits() / 8;
  // the function lg_add_pattern appends with: of the list's class, (list, string, string, 64-bit)
  Function* AF = nullptr;
  for (auto& G : *M) if (!G.isDeclaration() && inRepo(&G) && StringRef(fnName(&G)).starts_with(mapClass + "::") && G.arg_size() == 4 && G.getArg(1)->getType()->isPointerTy() && G.getArg(2)->getType()->isPointerTy() && G.getArg(3)->getType()->isIntegerTy(64)) {
    bool fromApi = false; for (auto* U : G.users()) if (auto* CB = dyn_cast<CallBase>(U)) if (!StringRef(fnName(CB->getFunction())).starts_with(mapClass + "::")) fromApi = true;
    if (fromApi) AF = &G;
  }
  if (!AF || fld.size() != 3) { R.ob(false, "append-stores-copies", mapClass, "", "the function that appends an entry was not found"); return; }
  InlineOpts O; O.stripEH = true; O.keep = [&](const Function& G) { string q = fnName(&G); return StringRef(q).starts_with("std::vector<") && (StringRef(q).ends_with("::push_back") || StringRef(q).ends_with("::emplace_back") || StringRef(q).ends_with("_M_realloc_insert") || StringRef(q).ends_with("::insert")); };
  inlineAll(*AF, O);
  std::vector<CallBase*> app; std::set<const Value*> srcOf[4];
  for (auto& I : instructions(*AF)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) { string q = fnName(g); if (StringRef(q).starts_with("std::vector<") && !StringRef(q).ends_with("operator[]") && CB->arg_size() >= 2) app.push_back(CB); }
  string why;
  PostDominatorTree PDT(*AF);
  if (app.size() != 1) why = std::to_string(app.size()) + " places append to the list";
  else if (!PDT.dominates(app[0]->getParent(), &AF->getEntryBlock())) why = "the entry is not appended on every path";
  else {
    // the memory of the new entry
    const Value* ent = app[0]->getArgOperand(1)->stripPointerCasts();
    std::function<bool(const Value*, unsigned)> wholeLength = [&](const Value* v, unsigned arg) -> bool {
      while (auto* Ca = dyn_cast<CastInst>(v)) { if (isa<TruncInst>(Ca)) return false; v = Ca->getOperand(0); }
      if (auto* CB = dyn_cast<CallBase>(v)) return CB->getCalledFunction() && CB->getCalledFunction()->getName() == "strlen" && CB->getArgOperand(0)->stripPointerCasts() == AF->getArg(arg);
      if (auto* Bo = dyn_cast<BinaryOperator>(v)) {
        if (Bo->getOpcode() == Instruction::Add) { auto* K = dyn_cast<ConstantInt>(Bo->getOperand(1)); return K && !K->isNegative() && wholeLength(Bo->getOperand(0), arg); }
        if (Bo->getOpcode() == Instruction::Mul) { auto* K = dyn_cast<ConstantInt>(Bo->getOperand(1)); return K && K->isOne() && wholeLength(Bo->getOperand(0), arg); }
        if (Bo->getOpcode() == Instruction::SDiv || Bo->getOpcode() == Instruction::UDiv) { auto* K = dyn_cast<ConstantInt>(Bo->getOperand(1)); return K && K->isOne() && wholeLength(Bo->getOperand(0), arg); }
        if (Bo->getOpcode() == Instruction::Sub) {   // end - start of the string
          auto* e = dyn_cast<PtrToIntOperator>(Bo->getOperand(0)); auto* b = dyn_cast<PtrToIntOperator>(Bo->getOperand(1));
          if (!e || !b || b->getPointerOperand()->stripPointerCasts() != AF->getArg(arg)) return false;
          const Value* q = e->getPointerOperand()->stripPointerCasts(); const Value* len = nullptr;
          while (auto* G = dyn_cast<GEPOperator>(q)) {
            if (G->getNumIndices() != 1) return false; const Value* i = G->idx_begin()->get();
            if (auto* K = dyn_cast<ConstantInt>(i)) { if (K->isNegative()) return false; } else { if (len) return false; len = i; }
            q = G->getPointerOperand()->stripPointerCasts();
          }
          return q == AF->getArg(arg) && len && wholeLength(len, arg);
        }
      }
      return false;
    };
    // a byte of the string itself is stored
    auto isCopied = [&](const StoreInst* S, unsigned arg) {
      auto* L = dyn_cast<LoadInst>(S->getValueOperand()); if (!L) return false;
      const Value* q = L->getPointerOperand()->stripPointerCasts(); while (auto* G = dyn_cast<GEPOperator>(q)) q = G->getPointerOperand()->stripPointerCasts();
      return q == AF->getArg(arg);
    };
    auto copyOf = [&](const Value* v, unsigned arg) {   // v: fresh memory filled from the string arg
      std::vector<const Value*> wl{v}; std::set<const Value*> seen; bool fresh = false, filled = false;
      auto* c = dyn_cast<CallBase>(v->stripPointerCasts()); if (c && c->getCalledFunction()) { StringRef n = c->getCalledFunction()->getName(); fresh = n.starts_with("_Zna") || n.starts_with("_Znw") || n == "strdup" || n == "malloc"; if (n == "strdup") filled = c->getArgOperand(0) == AF->getArg(arg); }
      if (!fresh) return false;
      for (auto& I : instructions(*AF)) if (auto* K = dyn_cast<CallBase>(&I)) { StringRef n = K->getCalledFunction() ? K->getCalledFunction()->getName() : ""; if ((n == "strcpy" || n == "stpcpy" || n == "strncpy" || n == "memcpy" || n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) && K->getArgOperand(0)->stripPointerCasts() == v->stripPointerCasts()) {
        filled = K->getArgOperand(1)->stripPointerCasts() == AF->getArg(arg);
        // all of it: the length is that of the string (with or without the terminator)
        if (n != "strcpy" && n != "stpcpy" && !wholeLength(K->getArgOperand(2), arg)) filled = false;
      } }
      // nothing but the terminator is written over the copy
      for (auto& I : instructions(*AF)) if (auto* S = dyn_cast<StoreInst>(&I)) {
        const Value* q = S->getPointerOperand()->stripPointerCasts(); const Value* ix = nullptr; bool plain = true;
        while (auto* G = dyn_cast<GEPOperator>(q)) {
          for (auto& i : G->indices()) if (!isa<ConstantInt>(i.get()) || !cast<ConstantInt>(i.get())->isZero()) { if (ix) plain = false; ix = i.get(); }
          q = G->getPointerOperand()->stripPointerCasts();
        }
        if (q == v->stripPointerCasts() && !(plain && ix && wholeLength(ix, arg)) && !isCopied(S, arg)) filled = false;
      }
      return filled;
    };
    std::set<string> got;
    for (auto& I : instructions(*AF)) if (auto* S = dyn_cast<StoreInst>(&I)) {
      const Value* b; APInt off(64, 0); b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), off, true);
      if (b != ent) continue;
      for (auto& [n, o] : fld) if (off == uint64_t(o)) {
        bool ok = n == "UserIndex" ? S->getValueOperand() == AF->getArg(3) : copyOf(S->getValueOperand(), n == "Pattern" ? 1 : 2);
        if (!ok) why = "the member " + n + " of the new entry is not (a copy of) the value given"; else got.insert(n);
      }
    }
    if (why.empty() && got.size() != fld.size()) why = "not every member of the new entry is set";
  }
  R.ob(why.empty(), "append-stores-copies", fnName(AF), whereF(AF), why.empty() ? "exactly one entry is appended, made of copies of the two strings and the index given" : why);
}
