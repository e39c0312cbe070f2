#include "typed.h"
#include "walk.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
// F03: the command-line tool prints every pattern error, whatever parts of it are missing, and fails properly.

enum { HEAD = 1, NEXT, ADDR = 100, FLD = 200, FOBJ = 300, CURO = 1, OLDO = 2 };   // Sym ids (val / obj)
enum { STARTED = 1, DONE, PMSG, PPAT, PIDX, PRINTS, PEND = 30, KNOWN = 40 };       // flags

static const DIType* ptee(Types& Ty, const DIType* t) { t = t ? Ty.canon(t) : nullptr; return t ? Types::pointee(t) : nullptr; }
static bool apiFile(const Function* F) { string w = whereF(F); return StringRef(w).contains("c_api"); }
static bool isThrow(const CallBase* CB) { auto* f = CB->getCalledFunction(); return f && (f->getName() == "__cxa_throw" || f->getName() == "__cxa_rethrow"); }

struct ErrModel {
  StructType* T = nullptr;                 // the LG_Error structure
  std::map<string, int64_t> off;           // field -> byte offset
  std::map<int64_t, string> name;
  ErrModel(Module& M) {
    auto* F = M.getFunction("lg_free_error");
    auto* D = findClass(M, "LG_Error");
    if (!F || F->isDeclaration() || !D) { R.error("LG_Error or lg_free_error not found"); return; }
    for (auto* E : D->getElements()) if (auto* m = dyn_cast<DIDerivedType>(E)) if (m->getTag() == dwarf::DW_TAG_member) { off[m->getName().str()] = m->getOffsetInBits() / 8; name[m->getOffsetInBits() / 8] = m->getName().str(); }
    for (auto& I : instructions(*F)) if (auto* G = dyn_cast<GetElementPtrInst>(&I)) if (auto* S = dyn_cast<StructType>(G->getSourceElementType())) if (M.getDataLayout().getTypeAllocSize(S) == D->getSizeInBits() / 8) T = S;
    if (!T) if (auto* S = StructType::getTypeByName(M.getContext(), "struct.LG_Error")) T = S;
    if (!T) R.error("the structure type of LG_Error was not found");
    for (auto* n : {"Message", "Pattern", "EncodingChain", "Source", "Index", "Next"}) if (!off.count(n)) R.error(string("LG_Error has no field ") + n);
  }
  bool touches(const Function& F) const {
    for (auto& I : instructions(F)) if (auto* G = dyn_cast<GetElementPtrInst>(&I)) if (G->getSourceElementType() == T) return true;
    return false;
  }
};

// Walks over lists of errors: which functions print them, and whether they do it completely
struct ListWalk {
  const ErrModel& E; Function& F; std::set<const Value*> cursor;
  Walker W; bool prints = false;
  std::map<std::pair<string, string>, string> bad;      // (rule, place) -> message
  std::set<string> derefs;                              // places where an optional part is used
  std::function<bool(WState&, CallBase*)> onCall;
  std::function<void(WState&, const char*, Instruction*)> onFinish;
  ListWalk(const ErrModel& E, Function& F) : E(E), F(F), W(F) {
    std::vector<const Value*> wl;
    for (auto& I : instructions(F)) if (auto* G = dyn_cast<GetElementPtrInst>(&I)) if (G->getSourceElementType() == E.T) wl.push_back(G->getPointerOperand());
    // pointers to errors that are loaded from typed memory
    Types Ty(*F.getParent()); Ty.allocas = true; PathFinder PF(*F.getParent());
    for (auto& I : instructions(F)) if (auto* Ld = dyn_cast<LoadInst>(&I)) if (Ld->getType()->isPointerTy())
      for (auto& p : PF.paths(Ld->getPointerOperand())) {
        auto loc = Ty.locate(p); const DIType* ft = nullptr;
        if (!loc.ok || !loc.cls) continue;
        Ty.leaf(loc.cls, loc.off, &ft);
        auto* c = dyn_cast_or_null<DICompositeType>(ft && ptee(Ty, ft) ? Ty.canon(ptee(Ty, ft)) : nullptr);
        if (c && c->getName() == "LG_Error") wl.push_back(Ld);
      }
    while (!wl.empty()) {
      auto* V = wl.back(); wl.pop_back();
      if (isa<Constant>(V) || !cursor.insert(V).second) continue;
      if (auto* P = dyn_cast<PHINode>(V)) for (auto& x : P->incoming_values()) wl.push_back(x);
    }
    W.unwindPaths = false; W.maxStates = 60000;
  }
  // the error field a pointer addresses
  bool field(WState& S, const Value* P, int64_t& off, Sym& base) {
    int64_t o = 0;
    for (int n = 0; n < 20; ++n) {
      P = P->stripPointerCasts();
      auto it = S.env.find(P);
      if (it != S.env.end()) {
        Sym s = it->second;
        if (s.k == Sym::Val && s.id >= ADDR && s.id < FLD) { off = o + s.id - ADDR; base = Sym::obj(CURO); return true; }
        if (s == Sym::obj(CURO) || s == Sym::val(HEAD) || s == Sym::val(NEXT) || s == Sym::obj(OLDO)) { off = o; base = s; return true; }
        return false;
      }
      if (auto* G = dyn_cast<GEPOperator>(P)) { APInt a(64, 0); if (!G->accumulateConstantOffset(W.DL, a)) return false; o += a.getSExtValue(); P = G->getPointerOperand(); continue; }
      return false;
    }
    return false;
  }
  int get(WState& S, int k) { auto it = S.flag.find(k); return it == S.flag.end() ? 0 : it->second; }
  void fail(const string& rule, Instruction* I, const string& m) { bad[{rule, where(I)}] = m; }
  void leave(WState& S, Instruction* I) {       // the walk moves on from the current error
    if (!get(S, PRINTS)) S.flag[PRINTS] = 0;
    int64_t mo = E.off.at("Message"), po = E.off.at("Pattern");
    bool m = get(S, PMSG) || get(S, KNOWN + mo / 8) == 1, p = get(S, PPAT) || get(S, KNOWN + po / 8) == 1, x = get(S, PIDX);
    if (!m || !p || !x) fail("every-error-printed", I, string("goes on to the next error without printing ") + (!m ? "the message" : !p ? "the pattern" : "the index") + " of this one");
  }
  void enter(WState& S, Sym was) {
    replaceSym(S, Sym::obj(CURO), Sym::obj(OLDO));
    for (auto it = S.env.begin(); it != S.env.end();) { auto& s = it->second; bool d = (s.k == Sym::Val && s.id >= ADDR && s.id < FOBJ) || (s.k == Sym::Obj && s.id >= FOBJ); if (d) it = S.env.erase(it); else ++it; }
    for (auto it = S.mem.begin(); it != S.mem.end();) { auto& s = it->second; bool d = (s.k == Sym::Val && s.id >= ADDR && s.id < FOBJ) || (s.k == Sym::Obj && s.id >= FOBJ); if (d) it = S.mem.erase(it); else ++it; }
    for (int k : {PMSG, PPAT, PIDX}) S.flag.erase(k);
    for (int k = KNOWN; k < KNOWN + 8; ++k) S.flag.erase(k);
    replaceSym(S, was, Sym::obj(CURO));
    S.flag[STARTED] = 1; S.flag.erase(DONE);
  }
  void run(Instruction* from, WState S0) {
    W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
      const Value* V; bool isNull;
      if (!nullTest(Br, taken, V, isNull)) return;
      Sym s = W.eval(N, V);
      if (s == Sym::val(HEAD)) {
        if (isNull) { replaceSym(N, s, Sym::null()); N.flag[DONE] = 1; N.flag.erase(PEND); }
        else enter(N, s);
      } else if (s == Sym::val(NEXT)) {
        leave(N, Br);
        if (isNull) { replaceSym(N, s, Sym::null()); N.flag[DONE] = 1; N.flag.erase(PEND); }
        else enter(N, s);
      } else if (s.k == Sym::Val && s.id >= FLD && s.id < FOBJ) {
        int o = s.id - FLD;
        N.flag[KNOWN + o / 8] = isNull ? 1 : 2;
        replaceSym(N, s, isNull ? Sym::null() : Sym::obj(FOBJ + o));
      }
    };
    W.visit = [&](WState& S, Instruction* I) {
      if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
        int64_t o; Sym b; S.env.erase(G);
        if (field(S, G, o, b)) { if (b == Sym::val(HEAD)) { enter(S, b); b = Sym::obj(CURO); } if (b == Sym::obj(CURO) && o >= 0 && o < 64) S.env[G] = Sym::val(ADDR + o); }
        return true;
      }
      if (auto* L = dyn_cast<LoadInst>(I)) {
        int64_t o; Sym b;
        if (!field(S, L->getPointerOperand(), o, b)) {
          W_effects(S, L);
          if (cursor.count(L) && !S.env.count(L)) S.env[L] = Sym::val(HEAD);
          pre[L] = true; return keep(S, L);
        }
        if (b == Sym::val(HEAD) || b == Sym::val(NEXT)) {
          if (b == Sym::val(NEXT)) { fail("list-walk-checked", I, "the next error is used without testing that there is one"); return false; }
          enter(S, b); b = Sym::obj(CURO);
        }
        Sym r;
        if (b == Sym::obj(CURO)) {
          if (o == E.off.at("Next")) r = Sym::val(NEXT);
          else { int k = get(S, KNOWN + o / 8); bool ptr = L->getType()->isPointerTy(); r = ptr && k == 1 ? Sym::null() : ptr && k == 2 ? Sym::obj(FOBJ + o) : Sym::val(FLD + o); }
        }
        if (r.k != Sym::Unknown) S.env[L] = r; else S.env.erase(L);
        return keep(S, L);
      }
      if (auto* CB = dyn_cast<CallBase>(I)) {
        if (isa<IntrinsicInst>(CB)) return true;
        for (unsigned i = 0; i < CB->arg_size(); ++i) {
          const Value* x = CB->getArgOperand(i); while (isa<CastInst>(x) && !S.env.count(x)) x = cast<CastInst>(x)->getOperand(0);
          Sym s = W.eval(S, x);
          bool opt = s.k == Sym::Val && s.id >= FLD && s.id < FOBJ;
          if (opt && s.id - FLD == E.off.at("Index")) { S.flag[PIDX] = 1; prints = prints || false; continue; }
          if (s.k == Sym::Obj && s.id >= FOBJ) { int o = s.id - FOBJ; used(S, o); derefs.insert(where(I)); continue; }
          if (opt && x->getType()->isPointerTy()) {
            derefs.insert(where(I));
            string n = E.name.count(s.id - FLD) ? E.name.at(s.id - FLD) : "?";
            if (!(CB->getCalledFunction() && CB->getCalledFunction()->getName() == "free")) {
              fail("optional-part-checked", I, n + " of an error may be missing but is used without a test"); used(S, s.id - FLD);
            }
          }
          if (s.k == Sym::Null && x->getType()->isPointerTy() && !isa<Constant>(x->stripPointerCasts()) && opAt(CB)) fail("optional-part-checked", I, "a missing part of an error (null) is written to a stream");
        }
        if (onCall && !onCall(S, CB)) return false;
        if (isThrow(CB)) { finish(S, "throws an exception", I); return false; }
      }
      return true;
    };
    W.atEnd = [&](WState& S, Instruction* I) { finish(S, "returns", I); };
    bool ok = W.run(from, S0);
    if (!ok) R.error("F03: too many paths in " + fnName(&F));
  }
  std::map<const Instruction*, bool> pre;
  void used(WState& S, int o) { if (o == E.off.at("Message")) { S.flag[PMSG] = 1; prints = true; } if (o == E.off.at("Pattern")) S.flag[PPAT] = 1; }
  bool opAt(CallBase* CB) { auto* f = CB->getCalledFunction(); return f && StringRef(fnName(f)).contains("operator<<"); }
  void W_effects(WState& S, LoadInst* L) { const Value* b; int64_t o; S.env.erase(L); if (Walker::strip(W.DL, L->getPointerOperand(), b, o)) { auto it = S.mem.find({b, o}); if (it != S.mem.end()) S.env[L] = it->second; } }
  // the walker would evaluate the load again: hand it the value through the cell it reads
  bool keep(WState& S, LoadInst* L) {
    const Value* b; int64_t o;
    if (!Walker::strip(W.DL, L->getPointerOperand(), b, o)) return true;
    auto it = S.env.find(L);
    if (it != S.env.end()) S.mem[{b, o}] = it->second; else S.mem.erase({b, o});
    return true;
  }
  void finish(WState& S, const char* how, Instruction* I) {
    if (get(S, STARTED) && !get(S, DONE)) fail("list-printed-to-its-end", I, string(how) + " before the end of the list of errors was reached");
    if (onFinish) onFinish(S, how, I);
  }
};

// ---- handles the library could not create are not used
static Sym nullHandle() { Sym s = Sym::null(); s.id = 7; return s; }
static bool isNullHandle(const Sym& s) { return s.k == Sym::Null && s.id == 7; }
static const char* heavyNs[] = {"std::filesystem", "std::basic_", "std::operator<<", "std::future", "std::thread", "std::__future_base", "boost::", "std::regex", "std::__detail", "std::_Rb_tree", "std::_Hashtable", "std::async", "std::__cxx11", "icu"};
static bool heavyFn(const Function& G) { string n = fnName(&G); for (auto* h : heavyNs) if (n.rfind(h, 0) == 0) return true; return false; }
// uses of a null handle that cannot work
static void followNull(Function& F, Instruction* from, WState S0, std::function<int(const CallBase*, unsigned)> accepts, std::set<string>& bad) {
  Walker W(F); W.unwindPaths = false; W.maxStates = 200000; W.relevant = isNullHandle;
  W.visit = [&](WState& S, Instruction* I) {
    if (I == from) return false;
    auto through = [&](const Value* P) {
      for (int n = 0; n < 20; ++n) {
        P = P->stripPointerCasts();
        auto it = S.env.find(P); if (it != S.env.end()) return isNullHandle(it->second);
        if (auto* G = dyn_cast<GEPOperator>(P)) { P = G->getPointerOperand(); continue; }
        return false;
      }
      return false;
    };
    if (const Value* P = getLoadStorePointerOperand(I)) if (through(P)) { bad.insert(where(I) + ": is used although it was not created"); return false; }
    if (auto* CB = dyn_cast<CallBase>(I)) {
      if (isa<DbgInfoIntrinsic>(CB)) return true;
      for (unsigned i = 0; i < CB->arg_size(); ++i) {
        if (!CB->getArgOperand(i)->getType()->isPointerTy() || !through(CB->getArgOperand(i))) continue;
        if (!accepts(CB, i)) { auto* f = CB->getCalledFunction(); bad.insert(where(I) + ": is handed to " + (f ? fnName(f) : string("a function")) + " although it was not created"); return false; }
      }
      if (isThrow(CB)) return false;
    }
    return true;
  };
  if (!W.run(from, S0)) R.error("F03: too many paths in " + fnName(&F));
}
static void handles(const string& path) {
  static const char* makers[] = {"lg_create_fsm", "lg_create_program", "lg_create_context", "lg_read_program", "lg_create_decoder"};
  std::map<std::pair<string, unsigned>, int> memo;
  auto libAccepts = [&](const string& n, unsigned i) {
    auto it = memo.find({n, i}); if (it != memo.end()) return it->second;
    LLVMContext C; auto M = loadModule(C, path);
    auto* F = M->getFunction(n);
    int r = 0;
    if (F && !F->isDeclaration() && i < F->arg_size()) {
      InlineOpts O; O.stripEH = true; O.keep = [](const Function& G) { return heavyFn(G) || (inRepo(&G) && instCount(G) > 150); };
      inlineAll(*F, O); lowerSelects(*F);
      WState S; S.env[F->getArg(i)] = nullHandle(); std::set<string> bad;
      followNull(*F, nullptr, S, [](const CallBase* CB, unsigned) { auto* f = CB->getCalledFunction(); return f && (f->getName().starts_with("_Zdl") || f->getName() == "free") ? 1 : 0; }, bad);
      r = bad.empty();
    }
    return memo[{n, i}] = r;
  };
  std::set<string> mustInline;
  for (int round = 0; round < 6; ++round) {
    LLVMContext C; auto M = loadModule(C, path); CHA cha(*M);
    auto* F = M->getFunction("main");
    if (!F) { R.error("no main"); return; }
    std::set<const Function*> reach;      // functions from which a handle is created
    {
      std::vector<const Function*> wl; for (auto* n : makers) if (auto* f = M->getFunction(n)) wl.push_back(f);
      while (!wl.empty()) { auto* G = wl.back(); wl.pop_back(); if (!reach.insert(G).second) continue; for (auto* U : G->users()) if (auto* I = dyn_cast<Instruction>(U)) wl.push_back(I->getFunction()); }
    }
    InlineOpts O; O.stripEH = true;
    O.keep = [&](const Function& G) {
      if (mustInline.count(G.getName().str())) return false;
      if (G.getName().starts_with("lg_")) return true;
      if (heavyFn(G)) return true;
      if (!inRepo(&G)) return instCount(G) > 300;
      if (reach.count(&G)) return false;
      return instCount(G) > 60;
    };
    inlineAll(*F, O); lowerSelects(*F);
    std::set<string> need; std::vector<std::pair<string, std::pair<string, std::set<string>>>> res;
    for (auto& I : instructions(*F)) {
      auto* CB = dyn_cast<CallBase>(&I); auto* f = CB ? CB->getCalledFunction() : nullptr;
      bool mk = false; if (f) for (auto* n : makers) if (f->getName() == n) mk = true;
      if (!mk) continue;
      WState S; S.env[CB] = nullHandle(); std::set<string> bad;
      followNull(*F, CB, S, [&](const CallBase* X, unsigned i) {
        auto* g = X->getCalledFunction();
        if (!g) return 0;
        string n = g->getName().str();
        if (g->getName().starts_with("_Zdl") || n == "free") return 1;
        if (!g->isDeclaration() && g->getName().starts_with("lg_")) return libAccepts(n, i);
        if (!g->isDeclaration()) { if (!mustInline.count(n) && round < 5) { need.insert(n); return 1; } return 1; }
        return 1;
      }, bad);
      res.push_back({f->getName().str() + "@" + where(CB).substr(where(CB).find('(') + 1), {where(CB), bad}});
    }
    if (!need.empty() && round < 5) { for (auto& n : need) mustInline.insert(n); continue; }
    for (auto& [k, p] : res) {
      string key = k; if (!key.empty() && key.back() == ')') key.pop_back();
      R.ob(p.second.empty(), "failed-creation-checked", key, p.first, p.second.empty() ? "a null handle is never used" : "the handle " + *p.second.begin());
    }
    R.count("handles_created", res.size());
    break;
  }
}
static int f03(const std::map<string, string>& a) {
  string path = a.at("--bc");
  std::set<string> T, roots, ext, sources, printers;
  std::map<string, string> pretty;
  {
    LLVMContext C; auto M = loadModule(C, path);
    ErrModel E(*M); Types Ty(*M);
    for (auto& F : *M) {
      if (F.isDeclaration() || !inRepo(&F) || apiFile(&F)) continue;
      if (E.touches(F)) T.insert(F.getName().str());
      // a member function that takes an error and keeps it
      if (F.arg_size() >= 2) {
        auto* t = Ty.argType(F, 1); auto* p = t ? ptee(Ty, (t)) : nullptr;
        auto* self = Ty.argType(F, 0); auto* sp = self ? ptee(Ty, (self)) : nullptr;
        auto* pc = p ? dyn_cast_or_null<DICompositeType>(Ty.canon(p)) : nullptr; auto* sc = sp ? dyn_cast_or_null<DICompositeType>(Ty.canon(sp)) : nullptr;
        if (pc && pc->getName() == "LG_Error" && sc && StringRef(fnName(&F)).starts_with(diQualName(sc) + "::") && F.getReturnType()->isVoidTy()) {
          bool has = false;
          for (auto* x : sc->getElements()) if (auto* m = dyn_cast<DIDerivedType>(x)) if (m->getTag() == dwarf::DW_TAG_member) { auto* mp = ptee(Ty, (m->getBaseType())); auto* mc = mp ? dyn_cast_or_null<DICompositeType>(Ty.canon(mp)) : nullptr; if (mc && mc->getName() == "LG_Error") has = true; }
          if (has) { ext.insert(F.getName().str()); pretty[F.getName().str()] = fnName(&F); }
        }
      }
    }
    roots = T;
    for (auto& n : T) for (auto& I : instructions(*M->getFunction(n))) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) if (f->getName() != n) roots.erase(f->getName().str());
    for (auto& n : ext) roots.erase(n);
    if (ext.empty()) R.notes.push_back("no class collects errors");
  }
  auto small = [](const Function& G) { return inRepo(&G) && instCount(G) <= 60 && !G.getName().starts_with("lg_"); };
  auto prep = [&](Module& M, Function* F, std::function<bool(const Function&)> keepMore) {
    InlineOpts O; O.stripEH = true;
    O.keep = [&, keepMore](const Function& G) { return G.getName().starts_with("lg_") || ext.count(G.getName().str()) || keepMore(G) || !(small(G) || (StringRef(fnName(&G)).starts_with("std::") && instCount(G) < 40 && !StringRef(fnName(&G)).contains("operator<<"))); };
    inlineAll(*F, O); lowerSelects(*F);
    R.count("instructions_analysed", instCount(*F));
  };
  // functions that walk a list
  for (auto& n : roots) {
    LLVMContext C; auto M = loadModule(C, path); ErrModel E(*M);
    Function* F = M->getFunction(n);
    std::set<string> src;
    prep(*M, F, [&](const Function&) { return false; });
    ListWalk L(E, *F);
    WState S0; for (auto& A : F->args()) if (L.cursor.count(&A)) S0.env[&A] = Sym::val(HEAD);
    L.run(nullptr, S0);
    string src_ = fnName(F);
    if (L.prints) {
      printers.insert(n); pretty[n] = src_;
      for (auto* rule : {"optional-part-checked", "every-error-printed", "list-walk-checked", "list-printed-to-its-end"}) {
        bool any = false;
        for (auto& [k, m] : L.bad) if (k.first == rule) { R.ob(false, rule, src_, k.second, m); any = true; }
        if (!any) R.ob(true, rule, src_, whereF(F), "holds on all paths (" + std::to_string(L.W.states) + " states, " + std::to_string(L.derefs.size()) + " uses of optional parts)");
      }
    } else {
      for (auto& [k, m] : L.bad) if (k.first == "optional-part-checked") R.ob(false, k.first, src_, k.second, m);
    }
  }
  R.count("functions_printing_errors", printers.size());
  if (printers.empty()) R.ob(false, "every-error-printed", "program", "src/cmd", "no function prints the errors");
  // errors the library returned are collected or printed; collected errors are printed
  std::set<string> cause{"lg_add_pattern", "lg_add_pattern_list", "lg_parse_pattern"};
  std::set<string> pendSources, doneSites; bool change = true;
  for (int round = 0; change && round < 6; ++round) {
    change = false;
    LLVMContext C0; auto M0 = loadModule(C0, path);
    std::set<string> fs;
    for (auto& F : *M0) if (!F.isDeclaration() && inRepo(&F) && !F.getName().starts_with("lg_") && StringRef(whereF(&F)).contains("src/cmd"))
      for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) {
        string n = f->getName().str();
        if (round == 0 && n.rfind("lg_", 0) == 0 && CB->arg_size()) { fs.insert(F.getName().str()); }
        if (pendSources.count(n)) fs.insert(F.getName().str());
      }
    for (auto& n : fs) {
      LLVMContext C; auto M = loadModule(C, path); ErrModel E(*M); Types Ty(*M);
      Function* F = M->getFunction(n); string src = fnName(F);
      std::vector<string> dummy;
      prep(*M, F, [&](const Function& G) { string g = G.getName().str(); return printers.count(g) || pendSources.count(g); });
      std::vector<std::pair<CallBase*, int>> at;      // call, index of its LG_Error** argument (-1: a source of collected errors)
      for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) {
        string g = f->getName().str();
        if (pendSources.count(g)) { at.push_back({CB, -1}); continue; }
        if (round || g.rfind("lg_", 0)) continue;
        for (unsigned i = 0; i < CB->arg_size() && i < f->arg_size(); ++i) {
          auto* t = Ty.argType(*f, i); auto* p = t ? ptee(Ty, (t)) : nullptr; auto* pp = p ? ptee(Ty, (p)) : nullptr;
          auto* c = pp ? dyn_cast_or_null<DICompositeType>(Ty.canon(pp)) : nullptr;
          if (c && c->getName() == "LG_Error") at.push_back({CB, (int)i});
        }
      }
      for (auto& [CB, ai] : at) {
        string callee = CB->getCalledFunction()->getName().str(), key = src + "@" + (ai < 0 ? pretty.count(callee) ? pretty[callee] : callee : callee);
        if (ai < 0 && !doneSites.insert(key).second) continue;
        const Value* slot = nullptr; int64_t so = 0;
        if (ai >= 0) {
          if (isa<ConstantPointerNull>(CB->getArgOperand(ai))) { R.ob(!cause.count(callee), "error-taken", key, where(CB), "no place is given for the error"); continue; }
          if (!Walker::strip(M->getDataLayout(), CB->getArgOperand(ai), slot, so) || !isa<AllocaInst>(slot)) { R.notes.push_back(key + ": the error goes to memory that is not local"); continue; }
        }
        bool must = ai < 0 || cause.count(callee);
        ListWalk L(E, *F);
        std::set<string> lost; bool out = false, handled = false, nullExt = false; string nullAt;
        const int EO = 50;
        L.onCall = [&](WState& S, CallBase* X) {
          auto* f = X->getCalledFunction();
          if (X == CB) { if (L.get(S, PEND)) lost.insert("the error of one call is overwritten by the next (" + where(X) + ")"); return false; }
          if (!f) return true;
          string g = f->getName().str();
          bool arg = false; for (auto& x : X->args()) { Sym s = L.W.eval(S, x); if (s == Sym::obj(EO)) arg = true; }
          if (ext.count(g)) {
            Sym s = L.W.eval(S, X->getArgOperand(1));
            if (s.k == Sym::Null) { nullExt = true; nullAt = where(X); }
            if (arg) { handled = true; out = true; S.flag.erase(PEND); return false; }
          }
          if (printers.count(g) && (ai < 0 || arg)) { handled = true; S.flag.erase(PEND); return false; }
          if (g == "lg_free_error" && arg) { if (must) lost.insert("freed without being printed (" + where(X) + ")"); handled = true; S.flag.erase(PEND); return false; }
          return true;
        };
        L.onFinish = [&](WState& S, const char* how, Instruction* I) {
          if (!L.get(S, PEND)) { handled = true; return; }
          if (ai < 0 && StringRef(how) == "returns") { out = true; return; }
          lost.insert(string(how) + " without printing or keeping the error (" + where(I) + ")");
        };
        // with an error
        WState S0; S0.flag[PEND] = 1;
        if (ai >= 0) S0.mem[{slot, so}] = Sym::obj(EO);
        L.run(CB, S0);
        auto lostWith = lost;
        R.ob(lostWith.empty(), ai < 0 ? "collected-errors-printed" : must ? "error-taken" : "error-not-leaked", key, where(CB),
             lostWith.empty() ? (out ? ai < 0 ? "left to the caller" : "handed to the list of errors on every path" : "printed, or none exists, on every path") : *lostWith.begin());
        if (ai >= 0) {
          lost.clear(); WState S1; S1.mem[{slot, so}] = Sym::null();
          L.onFinish = nullptr; nullExt = false;
          L.run(CB, S1);
          R.ob(!nullExt, "only-errors-collected", key, nullExt ? nullAt : where(CB), nullExt ? "a null error is added to the list" : "nothing is added when there was no error");
        }
        if (out) {
          if (n == "main") R.ob(false, "collected-errors-printed", "main", whereF(F), "the program ends without printing the errors collected");
          else if (pendSources.insert(n).second) { pretty[n] = src; change = true; }
        }
      }
    }
  }
  R.count("functions_collecting_errors", pendSources.size());
  // the list of errors keeps all of them
  for (auto& n : ext) {
    LLVMContext C; auto M = loadModule(C, path); ErrModel E(*M);
    Function* F = M->getFunction(n);
    auto* D = findClass(*M, pretty[n].substr(0, pretty[n].rfind("::")));
    std::vector<uint64_t> offs;
    if (D) for (auto* x : D->getElements()) if (auto* m = dyn_cast<DIDerivedType>(x)) if (m->getTag() == dwarf::DW_TAG_member) offs.push_back(m->getOffsetInBits() / 8);
    if (offs.size() != 2) { R.notes.push_back(pretty[n] + ": a list of another form; not decided"); continue; }
    InlineOpts O; O.stripEH = true; O.keep = [](const Function& G) { return G.getName().starts_with("lg_"); };
    inlineAll(*F, O); lowerSelects(*F);
    R.count("instructions_analysed", instCount(*F));
    // objects: 1 the first error, 2 the last one (if another), 3 the new one, 4 a later one of the new list, 5 passed ones
    const int FIRST = 1, LAST = 2, NEW = 3, LATER = 4, PASSED = 5, CONT = 6;
    bool anyOK = false; std::vector<std::pair<string, string>> fails;
    static std::vector<std::unique_ptr<Argument>> cells;
    std::map<int, const Value*> cell;
    for (int k = 1; k <= 6; ++k) { cells.push_back(std::make_unique<Argument>(PointerType::get(C, 0))); cell[k] = cells.back().get(); }
    int64_t nx = E.off.at("Next");
    for (int start = 0; start < 3; ++start) {       // empty; one error; several errors
      Walker W(*F); W.unwindPaths = false;
      WState S0;
      S0.env[F->getArg(0)] = Sym::obj(CONT); S0.env[F->getArg(1)] = Sym::obj(NEW);
      int last = start == 1 ? FIRST : LAST;
      S0.mem[{cell[CONT], (int64_t)offs[0]}] = start ? Sym::obj(FIRST) : Sym::null();
      if (start) { S0.mem[{cell[CONT], (int64_t)offs[1]}] = Sym::obj(last); S0.mem[{cell[last], nx}] = Sym::null(); }
      else S0.mem[{cell[CONT], (int64_t)offs[1]}] = Sym::null();
      string stateName = start == 0 ? "an empty list" : start == 1 ? "a list of one error" : "a list of several errors";
      auto resolve = [&](WState& S, const Value* P, int& obj, int64_t& o) {
        o = 0;
        for (int k = 0; k < 20; ++k) {
          P = P->stripPointerCasts();
          auto it = S.env.find(P);
          if (it != S.env.end()) {
            Sym s = it->second;
            if (s.k == Sym::Val && s.id >= 1000) { obj = s.id / 1000; o += s.id % 1000; return true; }
            if (s.k == Sym::Obj) { obj = s.id; return true; }
            if (s.k == Sym::Null) { obj = 0; return true; }
            return false;
          }
          if (auto* G = dyn_cast<GEPOperator>(P)) { APInt x(64, 0); if (!G->accumulateConstantOffset(W.DL, x)) return false; o += x.getSExtValue(); P = G->getPointerOperand(); continue; }
          return false;
        }
        return false;
      };
      auto failAt = [&](Instruction* I, const string& m) { fails.push_back({where(I), m + " (with " + stateName + ")"}); };
      // Next of the new error or a later one: unknown until tested (val 1)
      W.visit = [&](WState& S, Instruction* I) {
        int obj; int64_t o;
        if (auto* G = dyn_cast<GetElementPtrInst>(I)) { S.env.erase(G); if (resolve(S, G, obj, o) && obj && o >= 0 && o < 900) S.env[G] = Sym::val(obj * 1000 + o); return true; }
        if (auto* L = dyn_cast<LoadInst>(I)) {
          const Value* b; int64_t bo;
          if (!resolve(S, L->getPointerOperand(), obj, o)) return true;
          if (!obj) { failAt(I, "uses a null error"); return false; }
          auto it = S.mem.find({cell[obj], o}); Sym r;
          if (it != S.mem.end()) r = it->second;
          else if ((obj == NEW || obj == LATER) && o == nx) r = Sym::val(1);
          if (Walker::strip(W.DL, L->getPointerOperand(), b, bo)) { if (r.k != Sym::Unknown) S.mem[{b, bo}] = r; else S.mem.erase({b, bo}); }
          return true;
        }
        if (auto* St = dyn_cast<StoreInst>(I)) {
          if (!resolve(S, St->getPointerOperand(), obj, o)) return true;
          if (!obj) { failAt(I, "writes through a null pointer"); return false; }
          Sym v = W.eval(S, St->getValueOperand());
          if (St->getValueOperand()->getType()->isPointerTy()) {
            auto it = S.env.find(St->getValueOperand()->stripPointerCasts()); if (it != S.env.end()) v = it->second;
          }
          if (obj != CONT && o == nx && !(obj == last && start && v == Sym::obj(NEW))) failAt(I, obj == NEW || obj == LATER || obj == PASSED ? "changes the links between the new errors" : "cuts the list of errors");
          if (v.k == Sym::Unknown) S.mem.erase({cell[obj], o}); else S.mem[{cell[obj], o}] = v;
          return true;
        }
        return true;
      };
      W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
        const Value* V; bool isNull;
        if (!nullTest(Br, taken, V, isNull)) return;
        Sym s = W.eval(N, V);
        if (!(s == Sym::val(1))) return;
        bool later = N.flag.count(1);
        if (isNull) { replaceSym(N, s, Sym::null()); N.mem[{cell[later ? LATER : NEW], nx}] = Sym::null(); }
        else {
          replaceSym(N, Sym::obj(LATER), Sym::obj(PASSED));
          // the value that was tested is the later error now; so is what the passed one refers to
          replaceSym(N, s, Sym::obj(LATER));
          for (auto it = N.env.begin(); it != N.env.end();) { if (it->second.k == Sym::Val && it->second.id / 1000 == LATER) it = N.env.erase(it); else ++it; }
          if (!later) N.mem[{cell[NEW], nx}] = Sym::obj(LATER);
          N.mem.erase({cell[LATER], nx});
          N.flag[1] = 1;
        }
      };
      int ends = 0;
      W.atEnd = [&](WState& S, Instruction* I) {
        ++ends;
        auto at = [&](int ob, int64_t o) { auto it = S.mem.find({cell[ob], o}); return it == S.mem.end() ? Sym() : it->second; };
        Sym h = at(CONT, offs[0]), t = at(CONT, offs[1]);
        if (start ? !(h == Sym::obj(FIRST)) : !(h == Sym::obj(NEW))) failAt(I, start ? "the list no longer begins with its first error" : "the new error is not the first of the list");
        if (start && !(at(last, nx) == Sym::obj(NEW))) failAt(I, "the new error is not linked to the last one");
        bool tl = (t.k == Sym::Obj && (t.id == NEW || t.id == LATER) && at(t.id, nx).k == Sym::Null);
        if (!tl) failAt(I, "the end of the list is not kept at its last error");
      };
      if (!W.run(nullptr, S0)) R.error("F03: too many paths in " + pretty[n]);
      if (ends) anyOK = true;
    }
    std::sort(fails.begin(), fails.end()); fails.erase(std::unique(fails.begin(), fails.end()), fails.end());
    if (fails.empty()) R.ob(anyOK, "list-keeps-errors", pretty[n], whereF(F), "new errors are added behind the last one, whatever the list held before; the tail is kept at its end");
    for (auto& [w, m] : fails) R.ob(false, "list-keeps-errors", pretty[n], w, m);
  }
  handles(path);
  // main reports failure
  {
    LLVMContext C; auto M = loadModule(C, path);
    auto* F = M->getFunction("main");
    if (!F || F->isDeclaration()) R.error("no main");
    InlineOpts O; O.keep = [](const Function&) { return true; };
    inlineAll(*F, O); lowerSelects(*F);
    int handlers = 0; std::set<string> bad;
    Walker W(*F);
    W.visit = [&](WState& S, Instruction* I) { if (auto* CB = dyn_cast<CallBase>(I)) if (auto* f = CB->getCalledFunction()) if (f->getName() == "__cxa_begin_catch") { S.flag[1] = 1; ++handlers; } return true; };
    W.atEnd = [&](WState& S, Instruction* I) {
      auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt || !Rt->getReturnValue()) return;
      Sym v = W.eval(S, Rt->getReturnValue());
      if (!S.flag.count(1)) return;
      if (v.k == Sym::Null) bad.insert(where(I) + ": an exception was caught but the exit status is 0");
      std::set<const Value*> seen; std::function<bool(const Value*)> nonzero = [&](const Value* x) {
        if (!seen.insert(x).second) return true;
        if (isa<Constant>(x)) return true;         // decided on the path
        if (auto* P = dyn_cast<PHINode>(x)) { for (auto& y : P->incoming_values()) if (!nonzero(y)) return false; return true; }
        if (auto* CB = dyn_cast<CallBase>(x)) { auto* f = CB->getCalledFunction(); if (!f || f->isDeclaration()) return false;
          for (auto& J : instructions(*f)) if (auto* r = dyn_cast<ReturnInst>(&J)) { auto* k = dyn_cast<ConstantInt>(r->getReturnValue()); if (!k || k->isZero()) return false; } return true; }
        return false;
      };
      if (!nonzero(Rt->getReturnValue())) bad.insert(where(I) + ": an exception was caught and the exit status may be 0");
    };
    if (!W.run(nullptr, WState())) R.error("F03: too many paths in main");
    R.ob(bad.empty(), "failure-has-status", "main", bad.empty() ? whereF(F) : whereF(F), bad.empty() ? "every path through a handler returns a status other than 0" : *bad.begin());
  }
  return 0;
}
static Reg r1("F03", f03);
