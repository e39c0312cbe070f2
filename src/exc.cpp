#include "exc.h"

static bool isTerminatePad(const LandingPadInst* L) {
  // follow straight-line code to __clang_call_terminate / std::terminate
  const BasicBlock* B = L->getParent();
  for (int n = 0; n < 6 && B; ++n) {
    for (auto& I : *B)
      if (auto* C = dyn_cast<CallBase>(&I))
        if (auto* F = C->getCalledFunction()) {
          if (F->getName() == "__clang_call_terminate" || F->getName() == "_ZSt9terminatev") return true;
          if (F->getName() == "__cxa_begin_catch") return false;
        }
    B = B->getUniqueSuccessor();
  }
  return false;
}

ExcInfo::ExcInfo(Module& M) : M(M), cha(M) {
  for (auto& G : M.globals()) {
    if (!G.getName().starts_with("_ZTI") || !G.hasInitializer()) continue;
    if (auto* S = dyn_cast<ConstantStruct>(G.getInitializer()))
      for (unsigned i = 2; i < S->getNumOperands(); ++i)
        if (auto* B = dyn_cast<GlobalVariable>(S->getOperand(i)->stripPointerCasts()))
          if (B->getName().starts_with("_ZTI")) bases[G.getName().str()].push_back(B->getName().str());
  }
}
bool ExcInfo::derived(const string& a, const string& b) const {
  if (a == b) return true;
  auto it = bases.find(a);
  if (it != bases.end()) { for (auto& x : it->second) if (derived(x, b)) return true; return false; }
  // standard library types, not described in the module
  static const std::map<string, string> std_ = {
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"EXT_STD", "_ZTISt9exception"}};
  auto s = std_.find(a);
  if (s != std_.end()) return derived(s->second, b);
  if (a.rfind("_ZTISt", 0) == 0 || a.rfind("_ZTINSt", 0) == 0) return b == "_ZTISt9exception";
  return false;
}
bool ExcInfo::caughtBy(const string& t, const string& c) const { return c.empty() || (t != "ANY" && derived(t, c)); }

ExcInfo::Tokens ExcInfo::ofCallee(const Function* F) {
  if (assumeNothrow && assumeNothrow(*F)) return {};
  if (!F->isDeclaration()) { auto it = out.find(F); return it == out.end() ? Tokens() : it->second; }
  StringRef n = F->getName();
  if (F->isIntrinsic() || F->doesNotThrow() || ignoreExternal.count(n.str())) return {};
  if (n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t") return {{"_ZTISt9bad_alloc", "operator new"}};
  if (n == "__cxa_bad_cast" ) return {{"_ZTISt8bad_cast", "dynamic_cast"}};
  if (n == "__cxa_throw_bad_array_new_length") return {{"_ZTISt20bad_array_new_length", "new[]"}};
  if (n == "__cxa_throw" || n == "__cxa_rethrow") return {};   // handled at the call
  if (!n.starts_with("_Z")) {
    if (externalC && externalC(*F)) return {{"EXT_STD", n.str()}};
    return {};
  }
  if (n.starts_with("_ZNKSt9exception") || n.contains("D0Ev") || n.contains("D1Ev") || n.contains("D2Ev")) return {};
  if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) return {};
  if (n == "_ZSt9terminatev") return {};
  if (n.contains("icu_") ) return {};        // ICU is built without exceptions
  string d = fnName(F);
  return {{"EXT_STD", d}};
}
ExcInfo::Tokens ExcInfo::ofCall(const CallBase* CB) {
  if (CB->doesNotThrow() && !CB->getCalledFunction()) return {};
  if (CB->isInlineAsm()) return {};
  Tokens T;
  auto* F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  if (F && F->getName() == "__cxa_throw") {
    auto* G = dyn_cast<GlobalVariable>(CB->getArgOperand(1)->stripPointerCasts());
    string t = G ? G->getName().str() : "ANY";
    T[t] = "throw at " + where(CB);
    return T;
  }
  if (F && F->getName() == "__cxa_rethrow") { T["RETHROW"] = ""; return T; }
  if (F) {
    if (F->hasFnAttribute(Attribute::NoUnwind) && F->isDeclaration()) return {};
    T = ofCallee(F);
    if (callbacks && F->isDeclaration() && !F->isIntrinsic() && !F->getName().starts_with("__cxa") && !F->getName().starts_with("_Z"))
      for (auto& x : CB->args()) if (auto* G = dyn_cast<Function>(x->stripPointerCasts())) for (auto& [t, w] : ofCallee(G)) T.insert({t, "callback " + fnName(G) + ": " + w});
    return T;
  }
  if (assumeNothrow && assumeNothrow(*CB->getFunction())) return {};
  bool res; int64_t slot;
  for (auto* G : cha.targets(CB, &res)) for (auto& [t, w] : ofCallee(G)) T.insert({t, w});
  if (!CHA::vcall(CB, &slot) && inRepo(CB->getFunction())) T["ANY"] = "call through a function pointer at " + where(CB);
  if (!res && T.empty()) T["EXT_STD"] = "unresolved indirect call at " + where(CB);
  return T;
}
ExcInfo::Tokens ExcInfo::escaping(const Function& F, bool record) {
  Tokens esc;
  // tokens arriving at each landing pad
  std::map<const BasicBlock*, Tokens> at;
  std::vector<std::pair<const CallBase*, Tokens>> re;
  Tokens caught;
  std::vector<const CallBase*> rethrows;
  for (auto& I : instructions(F)) {
    auto* CB = dyn_cast<CallBase>(&I);
    if (!CB) continue;
    Tokens T = ofCall(CB);
    if (T.empty()) continue;
    if (T.count("RETHROW")) { rethrows.push_back(CB); continue; }
    auto* Fn = CB->getCalledFunction();
    string nm = Fn ? (Fn->isDeclaration() ? "" : fnName(Fn)) : "";
    if (!nm.empty()) for (auto& [t, w] : T) { if (w.size() < 400) w = w + " <- " + where(CB); }
    else for (auto& [t, w] : T) if (w.find(" at ") == string::npos) w = w + " at " + where(CB);
    if (auto* II = dyn_cast<InvokeInst>(CB)) {
      auto* L = II->getLandingPadInst();
      if (isTerminatePad(L)) { if (record) terminates.push_back({II, T}); continue; }
      for (auto& [t, w] : T) {
        bool c = false;
        for (unsigned k = 0; k < L->getNumClauses() && !c; ++k) {
          if (!L->isCatch(k)) continue;
          auto* V = L->getClause(k)->stripPointerCasts();
          c = caughtBy(t, isa<ConstantPointerNull>(V) ? string() : V->getName().str());
        }
        if (c) caught.insert({t, w}); else esc.insert({t, w});
      }
    } else for (auto& tw : T) esc.insert(tw);
  }
  for (auto* CB : rethrows) {
    Tokens T = caught;
    if (auto* II = dyn_cast<InvokeInst>(CB)) {
      auto* L = II->getLandingPadInst();
      for (auto& [t, w] : T) {
        bool c = false;
        for (unsigned k = 0; k < L->getNumClauses() && !c; ++k)
          if (L->isCatch(k)) {
            auto* V = L->getClause(k)->stripPointerCasts();
            c = caughtBy(t, isa<ConstantPointerNull>(V) ? string() : V->getName().str());
          }
        if (!c) esc.insert({t, w});
      }
    } else for (auto& tw : T) esc.insert(tw);
  }
  if (F.hasFnAttribute(Attribute::NoUnwind)) {
    return {};
  }
  return esc;
}
void ExcInfo::solve() {
  bool ch = true; int it = 0;
  while (ch && it++ < 50) {
    ch = false;
    for (auto& F : M) {
      if (F.isDeclaration()) continue;
      Tokens t = escaping(F);
      auto& o = out[&F];
      for (auto& x : t) if (o.insert(x).second) ch = true;
    }
  }
  terminates.clear();
  for (auto& F : M) if (!F.isDeclaration()) escaping(F, true);
}

std::set<const Function*> reachable(Module& M, const CHA& cha, const std::vector<const Function*>& roots) {
  std::set<const Function*> S; std::vector<const Function*> wl(roots.begin(), roots.end());
  while (!wl.empty()) {
    auto* F = wl.back(); wl.pop_back();
    if (!S.insert(F).second) continue;
    for (auto& I : instructions(*F)) {
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        bool r; for (auto* T : cha.targets(CB, &r)) wl.push_back(T);
      }
      for (auto& o : I.operands()) if (auto* G = dyn_cast<Function>(o.get()->stripPointerCasts())) wl.push_back(G);
    }
  }
  return S;
}

std::vector<const Function*> apiRoots(Module& M) {
  std::vector<const Function*> v;
  for (auto& F : M) if (!F.isDeclaration() && F.getName().starts_with("lg_") && !F.hasLocalLinkage()) v.push_back(&F);
  return v;
}

static int a01(const std::map<string, string>& a) {
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  auto roots = apiRoots(*M);
  if (roots.size() < 10) R.error("only " + std::to_string(roots.size()) + " lg_ functions found");
  ExcInfo E(*M); E.solve();
  int mayThrowInside = 0;
  for (auto& [F, t] : E.out) if (!t.empty()) ++mayThrowInside;
  R.count("functions_analysed", E.out.size());
  R.count("functions_that_may_throw", mayThrowInside);
  for (auto* F : roots) {
    auto t = E.out[F];
    if (!t.empty()) {
      // second look: constants propagated into everything that runs outside a catch-all handler
      LLVMContext C2; auto M2 = loadModule(C2, a.at("--bc"));
      InlineOpts O; O.maxInsts = 100000;
      O.keepSite = [](const CallBase& CB) {
        auto* II = dyn_cast<InvokeInst>(&CB); if (!II) return false;
        auto* L = II->getLandingPadInst();
        if (isTerminatePad(L)) return false;
        for (unsigned k = 0; k < L->getNumClauses(); ++k)
          if (L->isCatch(k) && isa<ConstantPointerNull>(L->getClause(k)->stripPointerCasts())) return true;
        return false;
      };
      auto* G = M2->getFunction(F->getName());
      inlineAll(*G, O);
      ExcInfo E2(*M2); E2.solve();
      t = E2.out[G];
      R.count("roots_refined_by_inlining", 1);
    }
    string msg = t.empty() ? "no exception escapes" : "";
    for (auto& [x, w] : t) msg += (msg.empty() ? "" : "; ") + (x == "ANY" ? string("any exception") : x == "EXT_STD" ? string("a standard exception") : dem(x).substr(dem(x).rfind("typeinfo for ", 0) == 0 ? 13 : 0)) + " may escape: " + w;
    R.ob(t.empty(), "no-exception-escapes", F->getName().str(), whereF(F), msg);
  }
  auto reach = reachable(*M, E.cha, roots);
  R.count("functions_reachable_from_api", reach.size());
  // exceptions that would end the process
  std::set<string> done;
  for (auto& [I, T] : E.terminates) {
    auto* F = I->getFunction();
    if (!reach.count(F)) continue;
    if (!inRepo(F)) continue;
    string msg; for (auto& [x, w] : T) msg += x + ": " + w + "; ";
    if (!done.insert(where(I) + msg).second) continue;
    R.ob(false, "no-terminate", fnName(F), where(I), "an exception here ends in std::terminate: " + msg);
  }
  return 0;
}
static Reg r1("A01", a01);
