#include "exc.h"
#include "typed.h"
#include "walk.h"
// JNI layer: facts for H01 (checked against the Java classes by lib/jni_check.py) and H02.

static bool isJni(const Function& G) { string n = fnName(&G); return n.rfind("JNIEnv_::", 0) == 0 || n.rfind("JavaVM_::", 0) == 0; }
static string jniOf(const CallBase* CB) {
  auto* f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  if (!f) return "";
  string d = fnName(f);
  if (d.rfind("JNIEnv_::", 0) == 0 || d.rfind("JavaVM_::", 0) == 0) return d.substr(9);
  return "";
}
static std::vector<Function*> jniRoots(Module& M) {
  std::vector<Function*> v;
  for (auto& F : M) if (!F.isDeclaration() && !F.hasLocalLinkage() && (F.getName().starts_with("Java_") || F.getName().starts_with("JNI_On"))) v.push_back(&F);
  return v;
}
static string tyName(const Type* T) {
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  if (auto* I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isFloatTy()) return "float";
  if (T->isDoubleTy()) return "double";
  return "?";
}
static int jnifacts(const std::map<string, string>& a) {
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  std::vector<Function*> roots = jniRoots(*M);
  json::Array natives, calls, stores;
  for (auto* F : roots) {
    json::Array ps; for (auto& p : F->args()) ps.push_back(tyName(p.getType()));
    natives.push_back(json::Object{{"name", F->getName().str()}, {"ret", tyName(F->getReturnType())}, {"params", std::move(ps)}, {"where", whereF(F)}});
  }
  // functions whose address is taken run natively too (callbacks)
  CHA cha(*M);
  std::set<Function*> all(roots.begin(), roots.end());
  std::vector<Function*> order = roots;
  for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F) && F.hasAddressTaken() && !all.count(&F)) order.push_back(&F);
  InlineOpts O; O.keep = [](const Function& G) { return isJni(G); };
  int id = 0;
  for (auto* F : order) {
    string root = F->getName().str();
    inlineAll(*F, O);
    std::map<const Value*, int> ids;
    for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (!jniOf(CB).empty()) ids[CB] = id++;
    std::function<json::Value(const Value*, int)> desc = [&](const Value* V, int depth) -> json::Value {
      V = V->stripPointerCasts();
      string ty = tyName(V->getType());
      if (isa<ConstantPointerNull>(V)) return json::Object{{"null", true}, {"type", ty}};
      if (auto* K = dyn_cast<ConstantInt>(V)) return json::Object{{"const", K->getSExtValue()}, {"type", ty}};
      if (auto* A = dyn_cast<Argument>(V)) return json::Object{{"arg", (int64_t)A->getArgNo()}, {"type", ty}};
      if (auto* G = dyn_cast<GlobalVariable>(V)) {
        if (G->isConstant() && G->hasInitializer())
          if (auto* S = dyn_cast<ConstantDataArray>(G->getInitializer())) if (S->isCString()) return json::Object{{"str", S->getAsCString().str()}, {"type", ty}};
        return json::Object{{"gaddr", G->getName().str()}, {"type", ty}};
      }
      if (ids.count(V)) return json::Object{{"call", ids[V]}, {"type", ty}};
      if (auto* L = dyn_cast<LoadInst>(V)) if (auto* G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())) return json::Object{{"global", G->getName().str()}, {"type", ty}};
      if (depth < 4) {
        if (auto* P = dyn_cast<PHINode>(V)) { json::Array x; for (auto& y : P->incoming_values()) x.push_back(desc(y, depth + 1)); return json::Object{{"any", std::move(x)}, {"type", ty}}; }
        if (auto* S = dyn_cast<SelectInst>(V)) { json::Array x; x.push_back(desc(S->getTrueValue(), depth + 1)); x.push_back(desc(S->getFalseValue(), depth + 1)); return json::Object{{"any", std::move(x)}, {"type", ty}}; }
      }
      return json::Object{{"unknown", true}, {"type", ty}};
    };
    for (auto& I : instructions(*F)) {
      if (auto* CB = dyn_cast<CallBase>(&I)) if (ids.count(CB)) {
        json::Array as; for (auto& x : CB->args()) as.push_back(desc(x, 0));
        bool always = true;      // no return is reachable around the call
        { std::set<const BasicBlock*> seen; std::vector<BasicBlock*> wl{&F->getEntryBlock()};
          while (!wl.empty() && always) { auto* B = wl.back(); wl.pop_back(); if (B == CB->getParent() || !seen.insert(B).second) continue; if (isa<ReturnInst>(B->getTerminator())) always = false;
            const BasicBlock* skip = nullptr;      // the edge on which a field just read is null
            if (auto* Br = dyn_cast<BranchInst>(B->getTerminator())) if (Br->isConditional()) if (auto* Ic = dyn_cast<ICmpInst>(Br->getCondition())) if (Ic->isEquality())
              if (auto* K = dyn_cast<Constant>(Ic->getOperand(1))) if (K->isNullValue()) {
                const Value* x = Ic->getOperand(0); while (auto* Z = dyn_cast<CastInst>(x)) x = Z->getOperand(0);
                if (auto* G = dyn_cast<CallBase>(x)) if (jniOf(G) == "GetLongField") skip = Br->getSuccessor(Ic->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1);
              }
            for (auto* s : successors(B)) if (s != skip) wl.push_back(s); } }
        calls.push_back(json::Object{{"id", ids[CB]}, {"root", root}, {"fn", jniOf(CB)}, {"args", std::move(as)}, {"ret", tyName(CB->getType())}, {"where", where(CB)}, {"always", always}});
      }
      if (auto* S = dyn_cast<StoreInst>(&I)) if (auto* G = dyn_cast<GlobalVariable>(S->getPointerOperand()->stripPointerCasts()))
        stores.push_back(json::Object{{"root", root}, {"global", G->getName().str()}, {"value", desc(S->getValueOperand(), 0)}, {"where", where(S)}});
    }
  }
  R.counts["natives"] = std::move(natives); R.counts["calls"] = std::move(calls); R.counts["stores"] = std::move(stores);
  return 0;
}
static Reg rf("jnifacts", jnifacts);

// ------------------------------------------------------------------ H02
static string pinKind(const string& j) {   // what a Get* function pins, "" if nothing
  if (j == "GetPrimitiveArrayCritical" || j == "GetStringCritical" || j == "GetStringChars" || j == "GetStringUTFChars") return j.substr(3);
  StringRef s(j);
  if (s.starts_with("Get") && s.ends_with("ArrayElements")) return j.substr(3);
  return "";
}
static int h02(const std::map<string, string>& a) {
  // 1. exceptions
  {
    LLVMContext C; auto M = loadModule(C, a.at("--bc"));
    ExcInfo E(*M); E.callbacks = true; E.assumeNothrow = [](const Function& G) { return isJni(G); };
    E.solve();
    auto roots = jniRoots(*M);
    if (roots.size() < 10) R.error("only " + std::to_string(roots.size()) + " native methods found");
    for (auto* F : roots) {
      auto t = E.out[F];
      if (!t.empty()) {      // second look, with function pointers and constants propagated
        LLVMContext C2; auto M2 = loadModule(C2, a.at("--bc"));
        InlineOpts O2; O2.keep = [](const Function& G) { return isJni(G); };
        auto* G = M2->getFunction(F->getName()); inlineAll(*G, O2);
        ExcInfo E2(*M2); E2.callbacks = true; E2.assumeNothrow = E.assumeNothrow; E2.solve();
        t = E2.out[G]; R.count("roots_refined_by_inlining", 1);
      }
      string msg = t.empty() ? "no C++ exception escapes" : "";
      for (auto& [x, w] : t) msg += (msg.empty() ? "" : "; ") + (x == "ANY" ? string("any exception") : x == "EXT_STD" ? string("a standard exception") : dem(x)) + " may escape: " + w;
      R.ob(t.empty(), "no-exception-into-VM", F->getName().str(), whereF(F), msg);
    }
    std::set<string> done;
    for (auto& [I, T] : E.terminates) {
      if (!inRepo(I->getFunction()) || !done.insert(where(I)).second) continue;
      string msg; for (auto& [x, w] : T) msg += x + ": " + w + "; ";
      R.ob(false, "no-terminate", fnName(I->getFunction()), where(I), "an exception here ends in std::terminate: " + msg);
    }
    R.count("functions_analysed", E.out.size());
  }
  // 2. handlers and pins, on the inlined natives
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  InlineOpts O; O.keep = [](const Function& G) { return isJni(G); };
  std::vector<Function*> order = jniRoots(*M);
  std::set<Function*> all(order.begin(), order.end());
  for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F) && F.hasAddressTaken() && !all.count(&F)) order.push_back(&F);
  for (auto* F : order) {
    string root = F->getName().str();
    inlineAll(*F, O);
    auto nothrow = [](const CallBase* CB) { return !jniOf(CB).empty(); };
    std::set<const BasicBlock*> seenPad;
    int pads = 0, pins = 0; std::set<string> bad;
    const bool hook = StringRef(root).starts_with("JNI_On");
    for (auto& B : *F) {
      auto* L = B.getLandingPadInst();
      if (!L || hook || !StringRef(root).starts_with("Java_")) continue;
      bool all_ = false;
      for (unsigned k = 0; k < L->getNumClauses(); ++k) if (L->isCatch(k)) {
        auto* V = L->getClause(k)->stripPointerCasts();
        if (isa<ConstantPointerNull>(V)) all_ = true;
        else if (auto* G = dyn_cast<GlobalVariable>(V)) if (!G->getName().contains("PendingJavaException") && G->getName() != "") all_ = all_ || G->getName().starts_with("_ZTISt") || G->getName().starts_with("_ZTIS");
      }
      if (!all_) continue;
      ++pads;
      Walker W(*F); W.nothrow = nothrow;
      W.visit = [&](WState& S, Instruction* I) {
        if (auto* CB = dyn_cast<CallBase>(I)) {
          string j = jniOf(CB);
          if (j == "Throw" || j == "ThrowNew" || j == "FatalError") S.flag[1] = 1;
        }
        return true;
      };
      W.onEdge = [&](WState& S, BranchInst* Br, bool t) {
        const Value* c = Br->getCondition(); bool inv = false; bool nul = false;
        // a handler for the project's own exception, which stands for a pending Java exception
        if (auto* I = dyn_cast<ICmpInst>(c)) if (I->isEquality()) for (int k = 0; k < 2; ++k)
          if (auto* T = dyn_cast<IntrinsicInst>(I->getOperand(k))) if (T->getIntrinsicID() == Intrinsic::eh_typeid_for)
            if (auto* G = dyn_cast<GlobalVariable>(T->getArgOperand(0)->stripPointerCasts()))
              if (!G->getName().starts_with("_ZTIS") && t == (I->getPredicate() == ICmpInst::ICMP_EQ)) S.flag[1] = 1;
        for (int n = 0; n < 10; ++n) {
          if (auto* I = dyn_cast<ICmpInst>(c)) {
            auto* K = dyn_cast<Constant>(I->getOperand(1));
            if (!K || !I->isEquality()) return;
            if (K->isNullValue()) { if (I->getPredicate() == ICmpInst::ICMP_EQ) inv = !inv; if (I->getOperand(0)->getType()->isPointerTy()) nul = true; }
            else if (auto* KI = dyn_cast<ConstantInt>(K)) { if (!KI->isOne()) return; if (I->getPredicate() == ICmpInst::ICMP_NE) inv = !inv; }
            c = I->getOperand(0);
          } else if (auto* Z = dyn_cast<CastInst>(c)) c = Z->getOperand(0);
          else if (auto* X = dyn_cast<BinaryOperator>(c)) {
            if (X->getOpcode() == Instruction::Xor) { inv = !inv; c = X->getOperand(0); } else return;
          } else break;
        }
        auto* CB = dyn_cast<CallBase>(c); if (!CB) return;
        string j = jniOf(CB); bool nz = t != inv;    // value is non-zero on this edge
        (void)nul;
        if ((j == "ExceptionCheck" || j == "ExceptionOccurred") && nz) S.flag[1] = 1;
        if ((j == "FindClass" || StringRef(j).starts_with("New") || j == "GetFieldID" || j == "GetMethodID") && !nz) S.flag[1] = 1;
        if ((j == "ThrowNew" || j == "Throw") && !nz) S.flag[1] = 1;
      };
      W.atEnd = [&](WState& S, Instruction* I) { if (isa<ReturnInst>(I) && !S.flag.count(1)) bad.insert(where(&*B.getFirstNonPHIIt())); };
      W.run(&*B.getFirstNonPHIIt(), WState());
    }
    if (pads) R.ob(bad.empty(), "handler-leaves-java-exception", root, whereF(F), bad.empty() ? std::to_string(pads) + " handlers: a Java exception is pending on every path to the return" : "the handler at " + *bad.begin() + " can return with no Java exception pending");
    for (auto& I : instructions(*F)) {
      auto* P = dyn_cast<CallBase>(&I); if (!P) continue;
      string kind = pinKind(jniOf(P)); if (kind.empty()) continue;
      ++pins;
      bool crit = StringRef(kind).ends_with("Critical");
      std::set<string> viol;
      Walker W(*F); W.nothrow = nothrow;
      W.visit = [&](WState& S, Instruction* J) {
        bool rel = S.flag.count(1);
        if (J == P) { if (!rel) viol.insert("the pin is taken again at " + where(J) + " before it is released"); return false; }
        auto isObj = [&](const Value* V) { return W.eval(S, V) == Sym::obj(1); };
        if (auto* CB = dyn_cast<CallBase>(J)) {
          string j = jniOf(CB);
          if (j == "Release" + kind) {
            if (CB->arg_size() > 2 && isObj(CB->getArgOperand(2))) {
              if (rel) viol.insert("released twice, at " + where(J));
              if (CB->getArgOperand(1)->stripPointerCasts() != P->getArgOperand(1)->stripPointerCasts()) viol.insert("released for another object at " + where(J));
              S.flag[1] = 1; return true;
            }
          } else if (StringRef(j).starts_with("Release") && CB->arg_size() > 2 && isObj(CB->getArgOperand(2))) { viol.insert("released with " + j + " at " + where(J)); S.flag[1] = 1; return true; }
          if (auto* II = dyn_cast<IntrinsicInst>(J)) { if (isa<DbgInfoIntrinsic>(II) || II->isLifetimeStartOrEnd()) return true; }
          if (rel) { for (auto& x : CB->args()) if (isObj(x)) viol.insert("used after its release at " + where(J)); return true; }
          if (crit) {
            if (!j.empty() && j != "GetPrimitiveArrayCritical" && j != "GetStringCritical" && j != "ReleasePrimitiveArrayCritical" && j != "ReleaseStringCritical")
              viol.insert("JNI function " + j + " called while an array is pinned at " + where(J));
            for (auto& x : CB->args()) if (auto* G = dyn_cast<Function>(x->stripPointerCasts())) if (!isJni(*G) && inRepo(G)) viol.insert("a callback may run Java code while an array is pinned at " + where(J));
          }
        } else if (rel) {
          const Value* p = getLoadStorePointerOperand(J);
          if (p && isObj(p)) viol.insert("memory used after its release at " + where(J));
        }
        return true;
      };
      W.atEnd = [&](WState& S, Instruction* J) { if (!S.flag.count(1)) viol.insert("not released on a path that ends at " + where(J)); };
      WState S0; S0.env[P] = Sym::obj(1);
      if (!W.run(P, S0)) R.error("H02: too many paths in " + root);
      string msg = "released once on every path (" + std::to_string(W.states) + " states)";
      if (!viol.empty()) { msg = jniOf(P) + ":"; for (auto& v : viol) msg += " " + v + ";"; }
      R.ob(viol.empty(), "pin-released", root + ":" + jniOf(P), where(P), msg);
    }
    R.count("handlers", pads); R.count("pins", pins); R.count("natives_analysed", 1);
  }
  return 0;
}
static Reg rh("H02", h02);
