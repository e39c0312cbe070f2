#include "typed.h"
#include "walk.h"
// A02: every API function reports what went wrong inside it: its failure value, and an error where the caller gave a place for one.

static const DIType* ptee(Types& Ty, const DIType* t) { t = t ? Ty.canon(t) : nullptr; return t ? Types::pointee(t) : nullptr; }
static bool isError(Types& Ty, const DIType* t) { auto* c = t ? dyn_cast_or_null<DICompositeType>(Ty.canon(t)) : nullptr; return c && c->getName() == "LG_Error"; }

enum { SLOT = 1, GOOD = 3 };                 // objects
enum { MADE = 2, OLD = 9 };                  // values that may be null: a new error, what the slot held before
enum { CAUGHT = 1, STORED = 2, NOMEM = 3, ASSUMED = 4 };  // flags

// the documented failure values: 0: null or zero, 1: negative, 2: the greatest offset
static int failKind(const Function& F) {
  StringRef n = F.getName();
  if (F.getReturnType()->isPointerTy()) return 0;
  static const std::map<StringRef, int> K = {{"lg_parse_pattern", 0}, {"lg_parse_pattern_slice", 0}, {"lg_add_pattern", 1}, {"lg_add_pattern_list", 1},
    {"lg_get_char_transform_id", 1}, {"lg_get_encoding_id", 1}, {"lg_get_byte_transform_id", 1}, {"lg_search", 2}, {"lg_search_resolve", 2},
    {"lg_read_window", 0}, {"lg_hit_context", 0}};
  auto it = K.find(n);
  return it == K.end() ? -1 : it->second;
}
static bool isFail(int kind, Sym v) {
  return kind == 0 ? v.k == Sym::Null : kind == 1 ? v.k == Sym::Int && v.id < 0 : v.k == Sym::Int && v.id == -1;
}
static const char* kindName[] = {"null or zero", "a negative number", "the greatest offset"};

static int a02(const std::map<string, string>& args) {
  string path = args.at("--bc");
  std::set<string> api; std::map<string, int> errArg;
  {
    LLVMContext C; auto M = loadModule(C, path); Types Ty(*M);
    for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("lg_") && !F.hasLocalLinkage()) {
      api.insert(F.getName().str());
      for (unsigned i = 0; i < F.arg_size(); ++i) { auto* p = ptee(Ty, Ty.argType(F, i)); auto* pp = p ? ptee(Ty, p) : nullptr; if (pp && isError(Ty, pp)) errArg[F.getName().str()] = i; }
    }
  }
  R.count("api_functions", api.size());
  R.count("api_functions_with_error_slot", errArg.size());
  for (auto& n : api) {
    LLVMContext C; auto M = loadModule(C, path); Types Ty(*M);
    Function* F = M->getFunction(n);
    std::map<const Function*, int> memo;
    auto retErr = [&](const Function& G) { auto* sp = G.getSubprogram(); auto* ty = sp ? sp->getType() : nullptr; if (!ty || !ty->getTypeArray() || !ty->getTypeArray().size()) return false; auto* r = ty->getTypeArray()[0]; auto* p = r ? ptee(Ty, r) : nullptr; return p && isError(Ty, p); };
    std::set<const Function*> makers;
    for (auto& G : *M) if (inRepo(&G) && !G.isDeclaration() && retErr(G) && G.getReturnType()->isPointerTy()) {
      bool makes = false; for (auto& I : instructions(G)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) makes |= f->getName() == "_Znwm";
      if (makes) makers.insert(&G);
    }
    auto takesErr = [&](const Function& G) { for (unsigned i = 0; i < G.arg_size(); ++i) { auto* p = G.getArg(i)->getType()->isPointerTy() ? ptee(Ty, Ty.argType(G, i)) : nullptr; if (!p) continue; if (isError(Ty, p)) return true; auto* pp = ptee(Ty, p); if (pp && isError(Ty, pp)) return true; } return false; };
    auto catches = [&](const Function& G) { for (auto& I : instructions(G)) if (auto* L = dyn_cast<LandingPadInst>(&I)) for (unsigned k = 0; k < L->getNumClauses(); ++k) if (L->isCatch(k)) return true; return false; };
    InlineOpts O;
    O.keep = [&](const Function& G) {
      if (makers.count(&G) || G.getName() == "lg_free_error") return true;
      if (G.getName().starts_with("lg_destroy")) return true;
      if (!inRepo(&G)) { if (instCount(G) > 20) return true; for (auto& I : instructions(G)) if (isa<CallBase>(I) && !isa<DbgInfoIntrinsic>(I)) return true; return false; }
      if (n == "lg_add_pattern_list") return !(takesErr(G) && !G.getName().starts_with("lg_")) && instCount(G) > 40;   // its work is C03's subject
      if (StringRef(whereF(&G)).contains("c_api") || StringRef(whereF(&G)).contains("c_util")) return false;
      return !(takesErr(G) || catches(G));
    };
    inlineAll(*F, O); lowerSelects(*F);
    R.count("instructions_analysed", instCount(*F));
    int kind = failKind(*F), ea = errArg.count(n) ? errArg[n] : -1;
    bool list = n == "lg_add_pattern_list", window = n == "lg_read_window" || n == "lg_hit_context";
    auto relevant = [](const Sym& s) { return s.k != Sym::Unknown && s.k != Sym::Fn; };
    auto runWith = [&](int nullArg, bool slot, std::set<string>& deref, std::set<string>& ends, int& nends, int& ncaught) {
      Walker W(*F); W.ints = true; W.relevant = relevant; W.maxStates = 200000;
      WState S0;
      if (ea >= 0) {
        S0.env[F->getArg(ea)] = slot ? Sym::obj(SLOT) : Sym::null();
        if (slot) S0.mem[{F->getArg(ea), 0}] = Sym::val(OLD);
      }
      if (nullArg >= 0) S0.env[F->getArg(nullArg)] = Sym::null();
      auto access = [&](WState& S, Instruction* I, const Value* P) {
        Sym s = W.eval(S, P);
        const Value* U = P->stripPointerCasts(); while (auto* G = dyn_cast<GEPOperator>(U)) U = G->getPointerOperand()->stripPointerCasts();
        if (isa<Constant>(U)) return true;
        if (s.k == Sym::Null) { deref.insert(where(I) + (nullArg >= 0 ? ": uses a null argument" : ": uses the error slot without testing it for null")); return false; }
        if (s == Sym::val(MADE)) { deref.insert(where(I) + ": uses the new error without testing it for null"); return false; }
        if (s == Sym::val(OLD)) { deref.insert(where(I) + ": uses what the error slot held before the call"); return false; }
        return true;
      };
      W.visit = [&](WState& S, Instruction* I) {
        if (auto* L = dyn_cast<LoadInst>(I)) return access(S, I, L->getPointerOperand());
        if (auto* St = dyn_cast<StoreInst>(I)) {
          if (!access(S, I, St->getPointerOperand())) return false;
          if (W.eval(S, St->getPointerOperand()) == Sym::obj(SLOT)) {
            Sym v = W.eval(S, St->getValueOperand());
            bool good = v == Sym::val(MADE) || v == Sym::obj(GOOD) || (v.k == Sym::Null && S.flag.count(NOMEM));
            if (good || v.k == Sym::Unknown) S.flag[STORED] = good ? 1 : 2; else S.flag.erase(STORED);
          }
          return true;
        }
        if (auto* CB = dyn_cast<CallBase>(I)) if (auto* f = CB->getCalledFunction()) {
          if (f->getName() == "__cxa_begin_catch") S.flag[CAUGHT] = 1;
          else if (f->getName() == "__cxa_rethrow") S.flag.erase(CAUGHT);
          else if (makers.count(f)) S.env[CB] = Sym::val(MADE);
          else if (f->getName() == "lg_free_error" && CB->arg_size()) { Sym s = W.eval(S, CB->getArgOperand(0)); if (s == Sym::val(MADE) || s == Sym::obj(GOOD)) S.flag.erase(STORED); }
        }
        return true;
      };
      W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
        const Value* V; bool isNull;
        std::function<void(const Value*, bool)> assume = [&](const Value* X, bool t) {
          if (auto* C = dyn_cast<ICmpInst>(X)) {
            if (C->isEquality() && (C->getPredicate() == ICmpInst::ICMP_EQ) == t && kind >= 0 && isFail(kind, W.eval(N, C->getOperand(1))) && W.eval(N, C->getOperand(0)).k == Sym::Unknown) N.flag[ASSUMED] = 1;
          } else if (auto* B = dyn_cast<BinaryOperator>(X)) {
            if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) assume(B->getOperand(0), !t);
            else if ((B->getOpcode() == Instruction::And && t) || (B->getOpcode() == Instruction::Or && !t)) { assume(B->getOperand(0), t); assume(B->getOperand(1), t); }
          }
        };
        assume(Br->getCondition(), taken);
        if (!nullTest(Br, taken, V, isNull)) return;
        Sym s = W.eval(N, V);
        if (s == Sym::val(MADE)) { if (isNull) N.flag[NOMEM] = 1; replaceSym(N, s, isNull ? Sym::null() : Sym::obj(GOOD)); }
        if (s == Sym::val(OLD)) replaceSym(N, s, isNull ? Sym::null() : Sym::obj(8));
      };
      W.atEnd = [&](WState& S, Instruction* I) {
        auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return;
        ++nends;
        bool caught = S.flag.count(CAUGHT), stored = S.flag.count(STORED) && S.flag[STORED] == 1, maybe = S.flag.count(STORED);
        if (caught) ++ncaught;
        if (kind < 0 || list || !Rt->getReturnValue()) return;
        Sym v = W.eval(S, Rt->getReturnValue());
        bool fail = isFail(kind, v);
        if (caught && !fail) ends.insert(string("an exception was caught but the call may not return ") + kindName[kind]);
        if (nullArg >= 0 && !fail) ends.insert(string("a null argument is not answered with ") + kindName[kind]);
        if (ea >= 0 && slot) {
          if (caught && !maybe) ends.insert("an exception was caught but no error is stored");
          if (!caught && !window && fail && !maybe && !S.flag.count(ASSUMED)) ends.insert("the call returns its failure value without storing an error");
          if (!fail && !caught && stored) ends.insert("an error is stored although the call may report success");
        }
      };
      if (!W.run(nullptr, S0)) { R.error("A02: too many paths in " + n); return false; }
      R.count("paths_states", W.states);
      return true;
    };
    std::set<string> d, e; int k = 0, c = 0;
    if (ea >= 0) {
      if (!runWith(-1, false, d, e, k, c)) return 0;
      R.ob(d.empty(), "null-slot-tolerated", n, whereF(F), d.empty() ? "with a null error slot no path touches it (" + std::to_string(k) + " ends)" : *d.begin());
      std::set<string> e1 = e; d.clear(); e.clear(); int k1 = 0, c1 = 0;
      for (auto& x : e1) R.ob(false, "failure-value", n, whereF(F), x + " (without an error slot)");
      if (!runWith(-1, true, d, e, k1, c1)) return 0;
      R.ob(d.empty(), "new-error-checked", n, whereF(F), d.empty() ? "no path uses an error that may be null" : *d.begin());
      if (!list) {
        bool said = c1 > 0;
        for (auto& x : e) R.ob(false, "failure-reported", n, whereF(F), x);
        if (e.empty() && e1.empty()) R.ob(true, "failure-reported", n, whereF(F), "every path through a handler returns " + string(kindName[kind]) + " and stores an error; an error is stored only then (" + std::to_string(k1) + " ends, " + std::to_string(c1) + " after a handler)");
        if (!said) R.notes.push_back(n + ": no handler");
      }
      if (n == "lg_parse_pattern" || n == "lg_parse_pattern_slice" || n == "lg_add_pattern")
        for (unsigned i = 0; i < F->arg_size(); ++i) {
          if ((int)i == ea || !F->getArg(i)->getType()->isPointerTy() || (i == 1 && n != "lg_add_pattern")) continue;
          std::set<string> d2, e2; int k2 = 0, c2 = 0;
          if (!runWith(i, true, d2, e2, k2, c2)) return 0;
          string key = n + "#" + std::to_string(i);
          e2.insert(d2.begin(), d2.end());
          R.ob(e2.empty() && k2, "null-argument-reported", key, whereF(F), e2.empty() ? "a null argument " + std::to_string(i) + " gives the failure value and an error" : *e2.begin());
        }
    } else {
      if (!runWith(-1, false, d, e, k, c)) return 0;
      if (kind >= 0) R.ob(e.empty(), "failure-value", n, whereF(F), e.empty() ? "every path through a handler returns " + string(kindName[kind]) + " (" + std::to_string(c) + " of " + std::to_string(k) + " ends)" : *e.begin());
      else if (!F->getReturnType()->isVoidTy() && c) R.notes.push_back(n + ": catches exceptions but has no documented failure value");
    }
  }
  // failures that are signalled by a result, below the API: parsing, and building the automaton
  struct Deep { const char *api, *fn; bool zeroIsGood; const char* what; };
  for (auto& D : {Deep{"lg_parse_pattern_slice", "yyparse", true, "the generated parser"}, Deep{"lg_add_pattern", "NFABuilder::build", false, "the automaton builder"}}) {
    LLVMContext C; auto M = loadModule(C, path);
    Function* F = M->getFunction(D.api); Function* T = nullptr;
    for (auto& G : *M) if (!G.isDeclaration() && inRepo(&G)) { string q = fnName(&G); if (q == D.fn || (q.size() > strlen(D.fn) && StringRef(q).ends_with(string("::") + D.fn))) T = &G; }
    if (!F || !T) { R.notes.push_back(string(D.fn) + " not found; whether its failure is reported is not decided"); continue; }
    std::set<const Function*> reach{T}; bool ch = true;
    while (ch) { ch = false; for (auto& G : *M) if (!G.isDeclaration() && !reach.count(&G)) for (auto& I : instructions(G)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) if (reach.count(f)) { reach.insert(&G); ch = true; break; } }
    InlineOpts O; O.keep = [&](const Function& G) { return &G == T || (!reach.count(&G) && !(inRepo(&G) && instCount(G) < 30 && (StringRef(whereF(&G)).contains("c_api") || StringRef(whereF(&G)).contains("c_util")))); };
    inlineAll(*F, O); lowerSelects(*F);
    int sites = 0; std::set<string> bad; int kind = failKind(*F);
    Walker W(*F); W.ints = true; W.maxStates = 200000; W.relevant = [](const Sym& s) { return s.k != Sym::Unknown && s.k != Sym::Fn; };
    const int RES = 20, PENDING = 10;
    W.visit = [&](WState& S, Instruction* I) {
      if (auto* CB = dyn_cast<CallBase>(I)) if (auto* f = CB->getCalledFunction()) {
        if (f == T) { ++sites; S.env[CB] = Sym::val(RES); S.flag[PENDING] = 1; }
        if (f->getName() == "__cxa_begin_catch") S.flag[CAUGHT] = 1;
      }
      return true;
    };
    W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
      const Value* V = Br->getCondition(); bool nz = taken; const Value* X; bool isNull;
      if (nullTest(Br, taken, X, isNull)) { V = X; nz = !isNull; }
      else while (auto* B = dyn_cast<BinaryOperator>(V)) { if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { nz = !nz; V = B->getOperand(0); } else break; }
      for (int k = 0; k < 6; ++k) { if (auto* Ca = dyn_cast<CastInst>(V)) V = Ca->getOperand(0); else break; }
      Sym s = W.eval(N, V);
      if (!(s == Sym::val(RES))) {
        // the result may have been folded into a comparison kept in a variable
        auto* I = dyn_cast<Instruction>(V); if (!I) return; bool on = false;
        if (auto* C = dyn_cast<ICmpInst>(I)) if (C->isEquality() && W.eval(N, C->getOperand(0)) == Sym::val(RES)) { auto* k = dyn_cast<ConstantInt>(C->getOperand(1)); if (k && k->isZero()) { on = true; nz = (C->getPredicate() == ICmpInst::ICMP_NE) == nz; } }
        if (!on) return;
      }
      if (nz != D.zeroIsGood) N.flag.erase(PENDING); else N.flag[PENDING] = 2;
    };
    W.atEnd = [&](WState& S, Instruction* I) {
      auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return;
      if (!S.flag.count(PENDING) || S.flag.count(CAUGHT)) return;
      if (!isFail(kind, W.eval(S, Rt->getReturnValue()))) bad.insert(string("the call may report success although ") + D.what + (S.flag[PENDING] == 2 ? " failed" : "'s result was not tested"));
    };
    WState S0; for (auto& A : F->args()) if (A.getType()->isPointerTy()) S0.env[&A] = Sym::obj(100 + A.getArgNo());
    if (!W.run(nullptr, S0)) R.error(string("A02: too many paths in ") + D.api);
    R.ob(bad.empty() && sites, "internal-failure-reported", string(D.api) + ":" + D.fn, whereF(F), !sites ? "the call was not found" : bad.empty() ? string("no path reports success after ") + D.what + " failed" : *bad.begin());
  }
  return 0;
}
static Reg r1("A02", a02);
