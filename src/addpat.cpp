#include "exc.h"
#include "typed.h"
#include "walk.h"
// C01, C02, A04: adding patterns: nothing is changed unless the call succeeds, indices are dense and name the right
// pattern, and programs made before do not change.

static const DIType* ptee(Types& Ty, const DIType* t) { t = t ? Ty.canon(t) : nullptr; return t ? Types::pointee(t) : nullptr; }
static bool constPtee(Types& Ty, const Function& F, unsigned i) {
  unsigned k = F.hasStructRetAttr() ? i - 1 : i;
  auto* t = Ty.argType(F, k); if (!t) return false;
  auto* s = stripDI(t); auto* p = Types::pointee(s);
  auto* d = dyn_cast_or_null<DIDerivedType>(p);
  while (d && d->getTag() == dwarf::DW_TAG_typedef) d = dyn_cast_or_null<DIDerivedType>(d->getBaseType());
  return d && d->getTag() == dwarf::DW_TAG_const_type;
}
static bool isPrefix(const Path& a, const Path& b) { if (a.root != b.root || a.steps.size() > b.steps.size()) return false; return std::equal(a.steps.begin(), a.steps.end(), b.steps.begin()); }
static Path rebase(Path p, const Value* r) { p.root = r; return p; }
// adjacent offsets merged, zero offsets dropped
static Path norm(Path p) {
  std::vector<int64_t> s;
  for (auto x : p.steps) { if (x == 0) continue; if (!s.empty() && x != Path::DEREF && x != Path::IDX && s.back() != Path::DEREF && s.back() != Path::IDX) s.back() += x; else s.push_back(x); }
  p.steps = s; return p;
}
static string clsOf(const Function& F) { string q = fnName(&F); auto p = q.rfind("::"); return p == string::npos ? "" : q.substr(0, p); }

struct AddModel {
  string path;
  string mapClass, builderFn, createFn;          // class of the pattern list; functions of the automaton builder and of the compiler
  std::vector<int64_t> nfaPath, mapPath;         // from the FSM handle
  int64_t rootOff = -1;
};
static InlineOpts apiInline(const std::set<string>& keepClasses, const std::set<string>& thingy) {
  InlineOpts O;
  O.keep = [=](const Function& G) {
    string c = clsOf(G);
    if (keepClasses.count(c)) return true;
    string n = fnName(&G);
    if (!inRepo(&G)) { if (StringRef(n).contains("basic_string") || StringRef(n).contains("ostream") || StringRef(n).ends_with("::use_count") || StringRef(n).ends_with("::unique")) return true; if (StringRef(n).contains("__shared_") || StringRef(n).contains("_Sp_") || StringRef(n).contains("shared_ptr") || StringRef(n).contains("::_Construct")) return false; return instCount(G) > 60; }
    if (thingy.count(c)) return false;
    if (StringRef(whereF(&G)).contains("c_api")) return G.getName() == "lg_free_error";
    return instCount(G) > 30;
  };
  return O;
}
static bool model(const string& path, AddModel& A, string& why) {
  A.path = path;
  {
    LLVMContext C; auto M = loadModule(C, path); Types Ty(*M);
    auto* F = M->getFunction("lg_fsm_pattern_count");
    if (!F || F->isDeclaration()) { why = "lg_fsm_pattern_count not found"; return false; }
    // the class of the pattern list: the innermost class of the repository whose member function is called
    std::set<string> classes;
    InlineOpts O; O.keep = [&](const Function& G) { if (inRepo(&G)) { classes.insert(clsOf(G)); return true; } return false; };
    inlineAll(*F, O);
    PathFinder PF(*M);
    for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) if (inRepo(f) && CB->arg_size()) {
      auto ps = PF.paths(CB->getArgOperand(0));
      if (ps.size() == 1 && ps.begin()->root == F->getArg(0)) { A.mapClass = clsOf(*f); A.mapPath = norm(*ps.begin()).steps; }
    }
    if (A.mapClass.empty()) { why = "the pattern list was not found"; return false; }
  }
  {
    LLVMContext C; auto M = loadModule(C, path); Types Ty(*M);
    auto* F = M->getFunction("lg_create_program");
    InlineOpts O = apiInline({A.mapClass}, {"FSMThingy"}); auto k = O.keep;
    O.keep = [&](const Function& G) { if (inRepo(&G) && !StringRef(whereF(&G)).contains("c_api") && clsOf(G) != "FSMThingy") return true; if (clsOf(G) == "FSMThingy") return true; return k(G); };
    O.stripEH = true;
    inlineAll(*F, O);
    PathFinder PF(*M);
    for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) if (inRepo(f)) {
      for (auto& a : CB->args()) if (a->getType()->isPointerTy()) {
        auto ps = PF.paths(a);
        if (ps.size() != 1) continue;
        Path p = norm(*ps.begin());
        if (p.root != F->getArg(0)) continue;
        auto L = Ty.locate(*ps.begin()); auto* cl = dyn_cast_or_null<DICompositeType>(L.ok ? L.cls : nullptr);
        if (cl && cl->getName().starts_with("Graph<")) { A.nfaPath = p.steps; A.createFn = fnName(f); }
      }
    }
    if (A.nfaPath.empty()) { why = "the automaton given to the compiler was not found"; return false; }
    if (auto* T = findClass(*M, "PatternHandle")) for (uint64_t o = 0; o < T->getSizeInBits() / 8; o += 8) { const DIType* ft; string l = Ty.leaf(T, o, &ft); auto* p = ft ? ptee(Ty, ft) : nullptr; auto* c = p ? dyn_cast_or_null<DICompositeType>(Ty.canon(p)) : nullptr; if (c && c->getName() == "ParseNode" && A.rootOff < 0 && StringRef(l).contains("ParseTree")) A.rootOff = o; }
    if (A.rootOff < 0) { why = "the root of the parse tree was not found"; return false; }
  }
  return true;
}
enum { COUNT = 40, USES = 41, ROOT = 42, UIDX = 43, ENC = 60 };
enum { NFA_EV = 1, MAP_EV, CAUGHT, LBL, ROOTOK, OWN, BUILT, RESET };
static int addPattern(const std::map<string, string>& args, const string& which) {
  AddModel A; string why;
  if (!model(args.at("--bc"), A, why)) R.error(which + ": " + why);
  LLVMContext C; auto M = loadModule(C, A.path); Types Ty(*M);
  ExcInfo E(*M);
  E.assumeNothrow = [](const Function& G) { return StringRef(fnName(&G)).starts_with("VectorFamily<"); };   // index checks of a container
  E.solve();
  bool copies = false;      // does a program get its own copy of the pattern list?
  {
    LLVMContext C2; auto M2 = loadModule(C2, A.path);
    std::set<const Function*> seen; std::vector<const Function*> wl{M2->getFunction("lg_create_program")};
    while (!wl.empty()) { auto* f = wl.back(); wl.pop_back(); if (!f || !seen.insert(f).second || f->isDeclaration()) continue; if (inRepo(f) && f->getName().contains("C2ERKS_") && clsOf(*f).substr(0, clsOf(*f).size()) == A.mapClass + "" ) copies = true; if (fnName(f) == A.createFn) continue; for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) wl.push_back(CB->getCalledFunction()); }
  }
  Function* F = M->getFunction("lg_add_pattern");
  // which repository functions can throw anything but lack of memory
  std::map<const Function*, string> throws_;
  for (auto& G : *M) if (!G.isDeclaration() && inRepo(&G)) {
    for (auto& [t, w] : E.ofCallee(&G)) if (t != "_ZTISt9bad_alloc" && t != "_ZTISt20bad_array_new_length" && t != "_ZTISt12length_error" && t != "EXT_STD") { throws_[&G] = t + ": " + w; break; }
  }
  // the class of the object that builds the scratch automaton: it is given the parse tree, and gives it to no other class
  std::set<string> builder; std::set<const Function*> resetters;
  {
    auto takesTree = [&](const Function& G) { for (unsigned i = 1; i < G.arg_size(); ++i) { auto* t = Ty.argType(G, i); auto* p = t ? ptee(Ty, t) : nullptr; auto* c = p ? dyn_cast_or_null<DICompositeType>(Ty.canon(p)) : nullptr; if (c && c->getName() == "ParseTree") return true; } return false; };
    for (auto& G : *M) if (!G.isDeclaration() && inRepo(&G) && takesTree(G) && !clsOf(G).empty()) {
      bool hands = false; for (auto& I : instructions(G)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) if (!g->isDeclaration() && takesTree(*g) && clsOf(*g) != clsOf(G)) hands = true;
      if (!hands && StringRef(clsOf(G)).contains("NFA")) builder.insert(clsOf(G));
    }
    for (auto& G : *M) if (!G.isDeclaration() && builder.count(clsOf(G)) && G.arg_size() == 1) {
      std::set<const Function*> sn; std::vector<const Function*> w{&G}; bool clears = false;
      while (!w.empty()) { auto* f = w.back(); w.pop_back(); if (!sn.insert(f).second) continue; if (StringRef(clsOf(*f)).starts_with("Graph<") && StringRef(fnName(f)).contains("::clear")) clears = true; for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) w.push_back(g); }
      if (clears) resetters.insert(&G);
    }
  }
  std::set<string> keepC{A.mapClass}; keepC.insert(builder.begin(), builder.end());
  inlineAll(*F, apiInline(keepC, {"FSMThingy"})); lowerSelects(*F);
  R.count("instructions_analysed", instCount(*F));
  PathFinder PF(*M);
  auto rel = [&](const Value* V, const std::vector<int64_t>& base) {
    Path b; b.root = F->getArg(0); b.steps = base;
    for (auto& p : PF.paths(V)) if (isPrefix(b, norm(p))) return true;
    return false;
  };
  struct Ev { bool nfa = false, map = false, count = false, build = false, uses = false, mapCtor = false; int mapAppend = -1; };
  std::map<const Instruction*, Ev> evs; int nNfa = 0, nMap = 0, nBuild = 0;
  Path mapCell; mapCell.root = F->getArg(0); mapCell.steps = A.mapPath; if (!mapCell.steps.empty() && mapCell.steps.back() == Path::DEREF) mapCell.steps.pop_back();
  for (auto& I : instructions(*F)) {
    Ev e; bool any = false;
    if (auto* CB = dyn_cast<CallBase>(&I)) {
      auto* f = CB->getCalledFunction(); if (!f || isa<IntrinsicInst>(CB)) { if (auto* MI = dyn_cast<MemIntrinsic>(&I)) { if (rel(MI->getRawDest(), A.nfaPath)) e.nfa = any = true; if (rel(MI->getRawDest(), A.mapPath)) e.map = any = true; } if (any) evs[&I] = e; continue; }
      StringRef n(f->getName()); string q = fnName(f);
      if (StringRef(q).ends_with("::use_count") || StringRef(q).ends_with("::unique")) { e.uses = any = true; }
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        if (!CB->getArgOperand(i)->getType()->isPointerTy()) continue;
        bool cst = f->isDeclaration() ? false : constPtee(Ty, *f, i);
        if (!inRepo(f)) continue;
        if (rel(CB->getArgOperand(i), A.nfaPath) && !cst) { e.nfa = any = true; }
        if (rel(CB->getArgOperand(i), A.mapPath)) {
          if (!cst && clsOf(*f) == A.mapClass && i == 0 && StringRef(q).contains("::~")) continue;
          if (!cst) { e.map = any = true; e.mapAppend = i; }
          else if (i == 0 && clsOf(*f) == A.mapClass && f->getReturnType()->isIntegerTy() && CB->arg_size() == 1) { e.count = any = true; }
        }
      }
      if (q == A.mapClass + "::" + A.mapClass) { e.mapCtor = any = true; e.map = false; }
      if (inRepo(f)) for (auto& a : CB->args()) if (a->getType()->isPointerTy()) for (auto& p : PF.paths(a)) {
        Path x = norm(p); if (x.root == F->getArg(1)) { auto L = Ty.locate(p); auto* c = dyn_cast_or_null<DICompositeType>(L.ok ? L.cls : nullptr); if (c && (c->getName() == "ParseTree" || c->getName() == "ParseNode" || (c->getName() == "PatternHandle" && x.steps.size() == 1 && StringRef(f->getName()).contains("ParseTree")))) e.build = any = true; }
      }
    } else if (auto* St = dyn_cast<StoreInst>(&I)) {
      if (rel(St->getPointerOperand(), A.nfaPath)) e.nfa = any = true;
      if (rel(St->getPointerOperand(), A.mapPath)) e.map = any = true;
    }
    if (any) { evs[&I] = e; nNfa += e.nfa; nMap += e.map; nBuild += e.build; }
  }
  R.count("calls_changing_the_automaton", nNfa); R.count("calls_changing_the_pattern_list", nMap);
  std::set<string> stale, late, label, own, unparsed, appended; int ends = 0, okEnds = 0;
  Walker W(*F); W.ints = true; W.maxStates = 300000;
  W.relevant = [](const Sym& s) { return s.k != Sym::Unknown && s.k != Sym::Fn; };
  auto flag = [](WState& S, int k) { return S.flag.count(k) > 0; };
  auto memOnly = [&](const CallBase* CB) {
    auto* f = CB->getCalledFunction();
    if (!f) { int64_t slot; if (!CHA::vcall(CB, &slot)) return false; bool res; auto ts = E.cha.targets(CB, &res); for (auto* t : ts) if (throws_.count(t)) return false; return !ts.empty(); }
    if (!inRepo(f)) return f->getName() != "__cxa_throw" && f->getName() != "__cxa_rethrow";
    return !throws_.count(f);
  };
  W.nothrow = [](const CallBase*) { return false; };
  auto changed = [&](WState& S) { return flag(S, NFA_EV) || flag(S, MAP_EV); };
  W.visit = [&](WState& S, Instruction* I) {
    auto it = evs.find(I);
    if (auto* CB = dyn_cast<CallBase>(I)) {
      auto* f = CB->getCalledFunction();
      if (f && f->getName() == "__cxa_begin_catch") { S.flag[CAUGHT] = 1; if (flag(S, NFA_EV) || flag(S, MAP_EV)) return false; /* lack of memory: assumed away below */ }
      if (it == evs.end() ? changed(S) : (changed(S) || it->second.nfa || it->second.map)) if (!memOnly(CB) && !(f && f->isIntrinsic())) {
        string t = f ? throws_.count(f) ? throws_[f] : fnName(f) : "an unknown function";
        if (!(f && StringRef(f->getName()).starts_with("__cxa")) || f->getName() == "__cxa_throw") late.insert(where(I) + ": " + (f ? fnName(f) : "a call") + " can fail" + (changed(S) ? " after the FSM was changed" : " while the FSM is being changed") + " (" + t.substr(0, 160) + ")");
      }
    }
    if (auto* L = dyn_cast<LoadInst>(I)) {
      const Value* b; int64_t o;
      if (Walker::strip(W.DL, L->getPointerOperand(), b, o) && b == F->getArg(1) && o == A.rootOff) { auto m = S.mem.find({b, o}); if (m == S.mem.end()) S.mem[{b, o}] = flag(S, ROOTOK) ? Sym::obj(ROOT) : Sym::val(ROOT); }
    }
    if (auto* St = dyn_cast<StoreInst>(I)) {
      Sym v = W.eval(S, St->getValueOperand());
      const Value* b; int64_t o;
      if (v == Sym::val(COUNT) && Walker::strip(W.DL, St->getPointerOperand(), b, o) && !isa<AllocaInst>(b)) S.flag[LBL] = 1;
      // a fresh list replaces the shared one
      for (auto& p : PF.paths(St->getPointerOperand())) if (norm(p) == mapCell || norm(p).str() == mapCell.str()) { const Value* b2; int64_t o2; bool fresh = v == Sym::obj(77) || (Walker::strip(W.DL, St->getValueOperand(), b2, o2) && W.eval(S, b2) == Sym::obj(77)); if (fresh) S.flag[OWN] = 1; else if (v.k != Sym::Null) S.flag.erase(OWN); }
    }
    if (auto* CB = dyn_cast<CallBase>(I)) {
      if (resetters.count(CB->getCalledFunction())) S.flag[RESET] = 1;
      if (!CB->getCalledFunction() || !CB->getCalledFunction()->isIntrinsic()) for (auto& a : CB->args()) if (W.eval(S, a) == Sym::val(COUNT)) S.flag[LBL] = 1;
    }
    if (it == evs.end()) return true;
    auto& e = it->second; auto* CB = dyn_cast<CallBase>(I);
    if (e.uses && CB) S.env[CB] = Sym::val(USES);
    if (e.count && CB) { if (!flag(S, MAP_EV)) S.env[CB] = Sym::val(COUNT); else S.env.erase(CB); }
    if (e.mapCtor && CB) { const Value* b; int64_t o; if (Walker::strip(W.DL, CB->getArgOperand(0), b, o)) S.env[b] = Sym::obj(77); }
    if (e.build && !flag(S, ROOTOK)) unparsed.insert(where(I) + ": the parse tree is used without testing that there is one");
    if (e.build && CB && CB->getCalledFunction() && builder.count(clsOf(*CB->getCalledFunction()))) {
      if (!flag(S, RESET)) stale.insert(where(I) + ": the scratch automaton is built on without being emptied before (what an earlier rejected pattern left is still there)");
      S.flag.erase(RESET);
    }
    if (e.build && !e.map) { if (!flag(S, LBL)) label.insert(where(I) + ": the automaton is built before its label is set to the number of patterns"); S.flag[BUILT] = 1; }
    if (e.nfa) S.flag[NFA_EV] = 1;
    if (e.map) {
      if (!flag(S, OWN) && !copies) own.insert(where(I) + ": the pattern list is changed although a program may share it");
      if (flag(S, MAP_EV)) label.insert(where(I) + ": the pattern list is changed twice in one call");
      S.flag[MAP_EV] = 1;
      if (CB) {
        bool enc = false, idx = false, expr = false;
        for (unsigned i = 1; i < CB->arg_size(); ++i) {
          auto* a = CB->getArgOperand(i);
          if (W.eval(S, a) == Sym::obj(ENC)) enc = true;
          if (W.eval(S, a) == Sym::val(UIDX)) idx = true;
          if (auto* c = dyn_cast<CallBase>(a->stripPointerCasts())) if (c->arg_size()) for (auto& p : PF.paths(c->getArgOperand(0))) if (p.root == F->getArg(1)) expr = true;
          if (a->getType()->isPointerTy()) for (auto& p : PF.paths(a)) if (p.root == F->getArg(1)) expr = true;
        }
        if (!enc || !idx || !expr) label.insert(where(I) + ": the entry is not made of this call's " + (!expr ? "expression" : !enc ? "encoding" : "user index"));
      }
    }
    return true;
  };
  W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
    const Value* V; bool isNull;
    const Value* c = Br->getCondition(); bool t = taken;
    while (auto* B = dyn_cast<BinaryOperator>(c)) { if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { t = !t; c = B->getOperand(0); } else break; }
    if (auto* Ic = dyn_cast<ICmpInst>(c)) {
      auto* k = dyn_cast<ConstantInt>(Ic->getOperand(1));
      if (k && W.eval(N, Ic->getOperand(0)) == Sym::val(USES)) {
        bool two = false; for (uint64_t v = 2; v < 5; ++v) two |= ICmpInst::compare(APInt(k->getBitWidth(), v), k->getValue(), Ic->getPredicate()) == t;
        if (!two) N.flag[OWN] = 1;
      }
    } else if (W.eval(N, c) == Sym::val(USES) && t) N.flag[OWN] = 1;   // unique()
    if (!nullTest(Br, taken, V, isNull)) return;
    if (W.eval(N, V) == Sym::val(ROOT)) { replaceSym(N, Sym::val(ROOT), isNull ? Sym::null() : Sym::obj(ROOT)); if (!isNull) N.flag[ROOTOK] = 1; }
  };
  W.atEnd = [&](WState& S, Instruction* I) {
    auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return;
    ++ends;
    Sym v = W.eval(S, Rt->getReturnValue());
    bool fail = v.k == Sym::Int && v.id < 0;
    if (flag(S, CAUGHT)) return;
    if (fail) { if (changed(S) && !(S.flag.count(BUILT) && flag(S, MAP_EV) && flag(S, NFA_EV))) late.insert(where(I) + ": a failure is returned after the FSM was changed"); return; }
    ++okEnds;
    if (!flag(S, MAP_EV)) appended.insert("success is returned without adding an entry to the pattern list");
    if (!flag(S, NFA_EV)) appended.insert("success is returned without adding the pattern to the automaton");
    if (!(v == Sym::val(COUNT))) label.insert("the index returned is not the number of patterns that were in the FSM before");
  };
  WState S0;
  for (auto& a : F->args()) if (a.getType()->isPointerTy()) S0.env[&a] = Sym::obj(a.getArgNo() == 2 ? ENC : 100 + a.getArgNo());
  S0.env[F->getArg(3)] = Sym::val(UIDX);
  if (!W.run(nullptr, S0)) R.error(which + ": too many paths");
  R.count("paths_states", W.states);
  auto rep = [&](const char* rule, const string& key, const std::set<string>& bad, bool have, const string& good) {
    for (auto& b : bad) R.ob(false, rule, key, whereF(F), b);
    if (bad.empty()) R.ob(have, rule, key, whereF(F), have ? good : "the construct was not found");
  };
  if (which == "C01") {
    rep("no-failure-after-change", "lg_add_pattern", late, nNfa && nMap && okEnds, "on every path whatever can fail (other than for lack of memory) comes before the first change of the automaton and of the pattern list");
    rep("unparsed-pattern-refused", "lg_add_pattern", unparsed, nBuild, "the parse tree is used only where it was tested to exist");
    rep("success-adds-both", "lg_add_pattern", appended, okEnds, "a successful call has changed both the automaton and the pattern list");
    rep("scratch-automaton-emptied", "lg_add_pattern", stale, nBuild && !builder.empty() && !resetters.empty(), "the builder is reset on every path before it builds a pattern");
  }
  if (which == "C02") {
    rep("index-is-count", "lg_add_pattern", label, okEnds && nMap && nBuild, "label and returned index are the number of patterns before the call, and one entry with this call's expression, encoding and user index is appended");
    rep("success-adds-both", "lg_add_pattern", appended, okEnds, "a successful call has changed both the automaton and the pattern list");
  }
  if (which == "A04") {
    rep("pattern-list-not-shared", "lg_add_pattern", own, nMap, copies ? "a program gets its own copy of the pattern list" : "the pattern list is changed only where it was found unshared or replaced by a copy");
  }
  return 0;
}
static int c01(const std::map<string, string>& a) {
  int r = addPattern(a, "C01");
  // a failed parse leaves no tree behind
  AddModel A; string why; model(a.at("--bc"), A, why);
  LLVMContext C; auto M = loadModule(C, A.path);
  Function* F = M->getFunction("lg_parse_pattern_slice");
  InlineOpts O; O.keep = [](const Function& G) { if (StringRef(whereF(&G)).contains("c_api")) return false; return instCount(G) > 40 || !inRepo(&G); };
  inlineAll(*F, O); lowerSelects(*F);
  std::set<string> bad; int ends = 0;
  Walker W(*F); W.ints = true; W.relevant = [](const Sym& s) { return s.k != Sym::Unknown && s.k != Sym::Fn; };
  const int STALE = 5, CG = 1;
  W.visit = [&](WState& S, Instruction* I) {
    if (auto* CB = dyn_cast<CallBase>(I)) if (auto* f = CB->getCalledFunction()) {
      if (f->getName() == "__cxa_begin_catch") S.flag[CG] = 1;
      // any function given the handle may leave a tree
      for (auto& x : CB->args()) { const Value* b; int64_t o; if (x->getType()->isPointerTy() && Walker::strip(W.DL, x, b, o) && b == F->getArg(0) && !f->isIntrinsic() && inRepo(f)) S.mem[{b, A.rootOff}] = Sym::val(STALE); }
    }
    return true;
  };
  W.atEnd = [&](WState& S, Instruction* I) {
    auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return;
    if (!S.flag.count(CG)) return;
    ++ends;
    auto it = S.mem.find({F->getArg(0), A.rootOff});
    if (it == S.mem.end() || it->second.k != Sym::Null) bad.insert("after a failure the handle may still hold a parse tree (stale or partial), which could then be added");
  };
  WState S0; for (auto& x : F->args()) if (x.getType()->isPointerTy()) S0.env[&x] = Sym::obj(100 + x.getArgNo());
  S0.mem[{F->getArg(0), A.rootOff}] = Sym::val(STALE);
  if (!W.run(nullptr, S0)) R.error("C01: too many paths");
  R.ob(bad.empty() && ends, "failed-parse-leaves-no-tree", "lg_parse_pattern_slice", whereF(F), bad.empty() ? "on every path through a handler the tree's root is null at the end" : *bad.begin());
  return r;
}
static Reg r1("C01", c01);
void labelFlow(const string& path, const string& mapClass);
void programEffects(const string& path);
void patternLookup(const string& path, const string& mapClass);
static int c02(const std::map<string, string>& a) {
  int r = addPattern(a, "C02");
  AddModel A; string why; model(a.at("--bc"), A, why);
  labelFlow(A.path, A.mapClass);
  patternLookup(A.path, A.mapClass);
  return r;
}
static Reg r2("C02", c02);
static int a04(const std::map<string, string>& a) { int r = addPattern(a, "A04"); programEffects(a.at("--bc")); return r; }
static Reg r3("A04", a04);
