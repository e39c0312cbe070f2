#include "core.h"
#include "llvm/Analysis/InlineCost.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"

Report R;
static const char* REPO() { const char* r = getenv("LG_REPO"); return r ? r : "/repo"; }

void Report::ob(bool ok, const string& rule, const string& key, const string& where, const string& msg) {
  ++total;
  if (!ok) ++failed;
  obligations.push_back(json::Object{{"ok", ok}, {"rule", rule}, {"key", key}, {"where", where}, {"msg", msg}});
}
void Report::error(const string& msg) {
  outs() << json::Value(json::Object{{"error", msg}}) << "\n";
  outs().flush();
  _exit(3);
}
void Report::print() {
  outs() << json::Value(json::Object{{"obligations", std::move(obligations)}, {"counts", std::move(counts)},
    {"notes", std::move(notes)}, {"total", total}, {"failed", failed}}) << "\n";
  outs().flush();
}

std::unique_ptr<Module> loadModule(LLVMContext& C, const string& path) {
  SMDiagnostic E;
  auto M = parseIRFile(path, E, C);
  if (!M) R.error("cannot read " + path + ": " + E.getMessage().str());
  // constructors and destructors of the same body are aliases: calls go to the body
  for (auto& A : M->aliases()) if (isa<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(cast<Constant>(A.getAliasee()->stripPointerCasts()));
  return M;
}
string dem(StringRef n) { return demangle(n.str()); }
string fnName(const Function* F) {
  if (!F) return "<indirect>";
  if (auto* S = F->getSubprogram()) {
    string q = diQualName(S->getScope());
    string n = S->getName().str();
    return q.empty() ? n : q + "::" + n;
  }
  string d = dem(F->getName());
  return d;
}
string shortSrc(const string& p) {
  string r = string(REPO()) + "/";
  if (p.rfind(r, 0) == 0) return p.substr(r.size());
  auto k = p.find("/build/gen/");
  if (k != string::npos) return "gen/" + p.substr(k + 11);
  return p;
}
static string diPath(const DIFile* f) {
  if (!f) return "";
  string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}
bool fileInRepo(StringRef f) { return f.starts_with(string(REPO()) + "/") || f.contains("/build/gen/") || (!f.starts_with("/") && f.contains("re_grammar")); }
bool inRepo(const Function* F) {
  auto* S = F->getSubprogram();
  return S && fileInRepo(diPath(S->getFile()));
}
string whereF(const Function* F) {
  if (auto* S = F->getSubprogram())
    return shortSrc(diPath(S->getFile())) + ":" + std::to_string(S->getLine()) + " (" + fnName(F) + ")";
  return fnName(F);
}
static string spName(const DILocation* L) {
  auto* S = L->getScope() ? L->getScope()->getSubprogram() : nullptr;
  if (!S) return "?";
  string q = diQualName(S->getScope());
  return q.empty() ? S->getName().str() : q + "::" + S->getName().str();
}
string where(const Instruction* I) {
  const DILocation* L = I->getDebugLoc();
  // nearest location in this block if the instruction has none
  if (!L || L->getLine() == 0) {
    for (auto& J : *I->getParent()) {
      const DILocation* K = J.getDebugLoc();
      if (K && K->getLine()) { L = K; if (J.comesBefore(I) || &J == I) continue; break; }
    }
  }
  const DILocation* best = nullptr;
  for (const DILocation* K = L; K; K = K->getInlinedAt())
    if (fileInRepo(diPath(K->getFile()))) { best = K; break; }
  if (!best) best = L;
  if (!best) return whereF(I->getFunction());
  return shortSrc(diPath(best->getFile())) + ":" + std::to_string(best->getLine()) + " (" + spName(best) + ")";
}

// ------------------------------------------------------------------ DI
const DIType* stripDI(const DIType* T) {
  while (auto* D = dyn_cast_or_null<DIDerivedType>(T)) {
    auto t = D->getTag();
    if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type ||
        t == dwarf::DW_TAG_restrict_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}
string diQualName(const DIScope* S) {
  if (!S || isa<DIFile>(S) || isa<DICompileUnit>(S)) return "";
  if (auto* LB = dyn_cast<DILexicalBlockBase>(S)) return diQualName(LB->getScope());
  string p = diQualName(S->getScope());
  string n = S->getName().str();
  if (n.empty()) n = isa<DINamespace>(S) ? "(anonymous namespace)" : "(anonymous)";
  return p.empty() ? n : p + "::" + n;
}
const DICompositeType* findClass(Module& M, const string& q) {
  DebugInfoFinder Fd; Fd.processModule(M);
  for (auto* T : Fd.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if (!C->isForwardDecl() && diQualName(C) == q) return C;
  return nullptr;
}
string fieldAt(const DIType* T, uint64_t off) {
  T = stripDI(T);
  auto* C = dyn_cast_or_null<DICompositeType>(T);
  if (!C) return off ? "+" + std::to_string(off) : "";
  for (auto* E : C->getElements()) {
    auto* D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember()) continue;
    if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
    uint64_t o = D->getOffsetInBits() / 8, s = D->getBaseType() ? stripDI(D->getBaseType())->getSizeInBits() / 8 : 0;
    if (!s) s = D->getSizeInBits() / 8;
    if (off >= o && off < o + std::max<uint64_t>(s, 1)) {
      string r = fieldAt(D->getBaseType(), off - o);
      if (D->getTag() == dwarf::DW_TAG_inheritance) { if (!r.empty()) return r; continue; }
      string n = D->getName().str();
      return r.empty() ? n : n + "." + r;
    }
  }
  return off ? "+" + std::to_string(off) : "";
}

// ------------------------------------------------------------------ CHA
CHA::CHA(Module& M) : M(M) {
  std::set<const Function*> inVT;
  for (auto& G : M.globals()) {
    if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
    auto* S = dyn_cast<ConstantStruct>(G.getInitializer());
    if (!S) continue;
    VT v; v.G = &G; v.cls = dem(G.getName());
    if (v.cls.rfind("vtable for ", 0) == 0) v.cls = v.cls.substr(11);
    for (auto& op : S->operands()) {
      std::vector<Function*> fs;
      if (auto* A = dyn_cast<ConstantArray>(op))
        for (unsigned i = 0; i < A->getNumOperands(); ++i) {
          auto* Fn = dyn_cast<Function>(A->getOperand(i)->stripPointerCasts());
          if (i >= 2) { fs.push_back(Fn); if (Fn) inVT.insert(Fn); }
        }
      v.arrays.push_back(fs);
    }
    vts.push_back(v);
  }
  for (auto& F : M) {
    bool taken = false;
    std::vector<const User*> wl(F.user_begin(), F.user_end());
    for (size_t i = 0; i < wl.size() && !taken; ++i) {
      auto* U = wl[i];
      if (auto* CB = dyn_cast<CallBase>(U)) {
        for (auto& a : CB->args()) if (a.get() == &F) taken = true;
      } else if (isa<Instruction>(U)) taken = true;
      else if (auto* G = dyn_cast<GlobalVariable>(U)) { if (!G->getName().starts_with("_ZTV")) taken = true; }
      else for (auto* UU : U->users()) wl.push_back(UU);
    }
    if (taken) addrTaken.push_back(&F);
  }
}
bool CHA::vcall(const CallBase* CB, int64_t* slot) {
  if (CB->getCalledFunction() || CB->isInlineAsm()) return false;
  auto* L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
  if (!L || CB->arg_size() < 1) return false;
  const Value* P = L->getPointerOperand();
  int64_t off = 0;
  if (auto* G = dyn_cast<GEPOperator>(P)) {
    APInt A(64, 0);
    if (!G->accumulateConstantOffset(CB->getModule()->getDataLayout(), A)) return false;
    off = A.getSExtValue();
    P = G->getPointerOperand();
  }
  auto* VL = dyn_cast<LoadInst>(P);
  if (!VL || off % 8) return false;
  if (!VL->getType()->isPointerTy()) return false;
  *slot = off / 8;
  return true;
}
std::vector<Function*> CHA::vtargets(const CallBase* CB, int64_t slot) const {
  // a type test on the vtable pointer, if present, narrows the classes
  std::set<string> cls; bool narrowed = false;
  if (auto* L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts())) {
    const Value* P = L->getPointerOperand();
    if (auto* G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand();
    for (auto* U : P->users())
      if (auto* C = dyn_cast<CallInst>(U))
        if (auto* Fn = C->getCalledFunction())
          if (Fn->getName().starts_with("llvm.type.test") || Fn->getName().starts_with("llvm.public.type.test")) {
            Metadata* MD = cast<MetadataAsValue>(C->getArgOperand(1))->getMetadata();
            narrowed = true;
            for (auto& v : vts) {
              SmallVector<MDNode*, 4> ts; v.G->getMetadata(LLVMContext::MD_type, ts);
              for (auto* t : ts) if (t->getNumOperands() > 1 && t->getOperand(1) == MD) cls.insert(v.cls);
            }
          }
  }
  std::set<Function*> out;
  for (auto& v : vts) {
    if (narrowed && !cls.count(v.cls)) continue;
    for (auto& a : v.arrays)
      if ((size_t)slot < a.size() && a[slot] && a[slot]->getFunctionType() == CB->getFunctionType() &&
          a[slot]->getName() != "__cxa_pure_virtual")
        out.insert(a[slot]);
  }
  return {out.begin(), out.end()};
}
std::vector<Function*> CHA::targets(const CallBase* CB, bool* resolved) const {
  *resolved = true;
  if (auto* F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) return {F};
  int64_t slot;
  if (vcall(CB, &slot)) {
    auto t = vtargets(CB, slot);
    if (!t.empty()) return t;
  }
  std::vector<Function*> out;
  for (auto* F : addrTaken)
    if (F->getFunctionType() == CB->getFunctionType()) out.push_back(F);
  if (out.empty()) *resolved = false;
  return out;
}

// ------------------------------------------------------------------ simplify / inline
namespace {
struct PM {
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PM() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  }
};
}
void simplify(Function& F, bool cse) {
  PM P; FunctionPassManager FPM;
  auto scfg = SimplifyCFGOptions().bonusInstThreshold(0).forwardSwitchCondToPhi(false).convertSwitchRangeToICmp(false)
    .convertSwitchToLookupTable(false).needCanonicalLoops(true).hoistCommonInsts(false).sinkCommonInsts(false)
    .setSimplifyCondBranch(true);
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(SCCPPass());
  FPM.addPass(SimplifyCFGPass(scfg));
  if (cse) {
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstCombinePass());
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false).setMemDep(true)));
    FPM.addPass(SCCPPass());
    FPM.addPass(ADCEPass());
    FPM.addPass(SimplifyCFGPass(scfg));
    FPM.addPass(InstCombinePass());
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  } else FPM.addPass(EarlyCSEPass(false));
  FPM.run(F, P.FAM);
}
// a result tested right after it was chosen: go straight to where it leads
void threadJumps(Function& F) { PM P; FunctionPassManager FPM; FPM.addPass(JumpThreadingPass()); FPM.addPass(InstCombinePass()); FPM.run(F, P.FAM); }
// a loop over a fixed handful of things is those things one after another
void unrollFixed(Function& F) {
  PM P; ScalarEvolution& SE = P.FAM.getResult<ScalarEvolutionAnalysis>(F); bool any = false; for (auto* L : P.FAM.getResult<LoopAnalysis>(F).getLoopsInPreorder()) { unsigned n = L->isInnermost() ? SE.getSmallConstantTripCount(L) : 0; if (n && n <= 8) any = true; } if (!any) return;
  FunctionPassManager FPM; FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass()); FPM.addPass(createFunctionToLoopPassAdaptor(LoopFullUnrollPass())); FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false).setMemDep(true))); FPM.run(F, P.FAM); simplify(F, true); }
size_t instCount(const Function& F) { size_t n = 0; for (auto& B : F) n += B.size(); return n; }

void inlineAll(Function& Root, const InlineOpts& O) {
  Module& M = *Root.getParent();
  if (O.stripEH) for (auto& F : M) {
    if (F.isDeclaration()) continue;
    for (auto& B : F) if (auto* I = dyn_cast<InvokeInst>(B.getTerminator())) changeToCall(I);
    removeUnreachableBlocks(F);
  }
  CHA cha(M);
  std::vector<std::pair<Function*, int>> hist;  // (callee, parent)
  // instantiations of one repository template count as the same function (template recursion)
  auto fam = [](Function* F) { string n = inRepo(F) ? fnName(F) : ""; auto k = n.find('<'); return k == string::npos ? "" : n.substr(0, k); };
  auto same = [&](Function* A, Function* B) { if (A == B) return true; string f = fam(A); return !f.empty() && f == fam(B); };
  auto inHist = [&](Function* F, int h) { for (; h >= 0; h = hist[h].second) if (same(hist[h].first, F)) return true; return same(F, &Root); };
  std::set<const Function*> never;
  for (int round = 0; round < 12; ++round) {
    std::vector<std::pair<WeakTrackingVH, int>> wl;
    // Histories do not survive simplification: a function seen to recurse is not inlined again.
    for (auto& I : instructions(Root)) if (auto* CB = dyn_cast<CallBase>(&I)) wl.push_back({CB, -1});
    bool changed = false;
    for (size_t i = 0; i < wl.size(); ++i) {
      Value* V = wl[i].first; if (!V) continue;
      auto* CB = dyn_cast<CallBase>(V); if (!CB) continue;
      auto* F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
      if (!F && O.devirtUnique) {
        int64_t slot;
        if (CHA::vcall(CB, &slot)) {
          auto t = cha.vtargets(CB, slot);
          Function* G = t.size() == 1 ? t[0] : O.devirt ? O.devirt(*CB, slot, cha) : nullptr;
          if (G) { CB->setCalledOperand(G); F = G; changed = true; }
        }
      }
      if (!F || F->isDeclaration() || F->isVarArg() || never.count(F)) continue;
      if (F->getFunctionType() != CB->getFunctionType()) continue;
      if (O.keep && O.keep(*F)) continue;
      if (O.keepSite && O.keepSite(*CB)) continue;
      if (inHist(F, wl[i].second)) { never.insert(F); continue; }
      if (instCount(Root) > O.maxInsts) { R.error("inlining " + Root.getName().str() + " exceeds the size limit"); }
      InlineFunctionInfo IFI;
      F->removeFnAttr(Attribute::NoInline);
      auto r = InlineFunction(*CB, IFI, false, nullptr, false);
      if (!r.isSuccess()) continue;
      changed = true;
      int h = hist.size(); hist.push_back({F, wl[i].second});
      for (auto& X : IFI.InlinedCallSites) wl.push_back({X, h});
    }
    // keep code with calls in one copy
    auto mark = [&](bool on) { for (auto& I : instructions(Root)) if (auto* CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) { if (on) CB->addFnAttr(Attribute::NoDuplicate); else CB->removeFnAttr(Attribute::NoDuplicate); } };
    mark(true); simplify(Root, O.cse); mark(false);
    if (!changed) break;
  }
}

// ------------------------------------------------------------------ access paths
string Path::str() const {
  string s;
  if (!root) s = "?";
  else if (root->hasName()) s = root->getName().str();
  else if (auto* I = dyn_cast<Instruction>(root)) s = string("%") + I->getOpcodeName();
  else s = "value";
  for (auto x : steps) s += x == DEREF ? "*" : x == IDX ? "[]" : "+" + std::to_string(x);
  return s;
}
static Path addStep(Path p, int64_t s) {
  auto& v = p.steps;
  if (s == Path::DEREF) { v.push_back(s); return p; }
  if (s == Path::IDX) {
    if (!v.empty() && v.back() != Path::DEREF && v.back() != Path::IDX) v.pop_back();
    if (v.empty() || v.back() != Path::IDX) v.push_back(s);
    return p;
  }
  if (s == 0) return p;
  if (!v.empty() && v.back() != Path::DEREF && v.back() != Path::IDX) { v.back() += s; if (v.back() == 0) v.pop_back(); return p; }
  v.push_back(s);
  return p;
}
std::set<Path> PathFinder::paths(const Value* V, unsigned depth) {
  auto it = cache.find(V);
  if (it != cache.end()) return it->second;
  std::set<Path> out;
  if (depth > 200) { out.insert(Path{V, {}}); return out; }
  if (active.count(V)) return out;      // cycle: contributes nothing new except via IDX (handled by caller)
  active.insert(V);
  bool cyc = false;
  auto ext = [&](const Value* B, int64_t s) {
    for (auto p : paths(B, depth + 1)) {
      p = addStep(p, s);
      if (p.steps.size() > maxSteps) p.steps.resize(maxSteps);
      out.insert(p);
    }
  };
  if (auto* G = dyn_cast<GEPOperator>(V)) {
    APInt A(64, 0);
    if (G->accumulateConstantOffset(DL, A)) ext(G->getPointerOperand(), A.getSExtValue());
    else ext(G->getPointerOperand(), Path::IDX);
  } else if (auto* L = dyn_cast<LoadInst>(V)) {
    ext(L->getPointerOperand(), Path::DEREF);
  } else if (auto* P = dyn_cast<PHINode>(V)) {
    std::set<Path> base;
    for (auto& o : P->incoming_values()) {
      if (active.count(o.get())) { cyc = true; continue; }
      for (auto& p : paths(o.get(), depth + 1)) base.insert(p);
    }
    // an in-loop pointer increment: base[IDX]
    bool inc = false;
    for (auto& o : P->incoming_values())
      if (auto* G = dyn_cast<GEPOperator>(o.get())) { if (G->getPointerOperand() == P) inc = true; }
    for (auto p : base) out.insert(inc ? addStep(p, Path::IDX) : p);
  } else if (auto* S = dyn_cast<SelectInst>(V)) {
    ext(S->getTrueValue(), 0); ext(S->getFalseValue(), 0);
  } else if (auto* C = dyn_cast<CastInst>(V)) {
    ext(C->getOperand(0), 0);
  } else if (auto* FZ = dyn_cast<FreezeInst>(V)) {
    ext(FZ->getOperand(0), 0);
  } else if (auto* B = dyn_cast<BinaryOperator>(V)) {
    if (B->getType()->isIntegerTy(64) && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub)) ext(B->getOperand(0), Path::IDX);
    else out.insert(Path{V, {}});
  } else out.insert(Path{V, {}});
  active.erase(V);
  (void)cyc;
  if (active.empty()) cache[V] = out;
  return out;
}

// ------------------------------------------------------------------ linear facts
unsigned valueId(const Value* V) { static DenseMap<const Value*, unsigned> m; auto r = m.try_emplace(V, m.size()); return r.first->second; }
Lin Lin::operator+(const Lin& o) const {
  Lin r = *this; r.ok = ok && o.ok; r.c += o.c;
  for (auto& [v, k] : o.t) { r.t[v] += k; if (!r.t[v]) r.t.erase(v); }
  return r;
}
Lin Lin::mul(int64_t k) const {
  Lin r; r.ok = ok; if (!k) return r; r.c = c * k;
  for (auto& [v, x] : t) r.t[v] = x * k;
  return r;
}
Lin Lin::operator-(const Lin& o) const { return *this + o.mul(-1); }
string Lin::str() const {
  string s;
  for (auto& [v, k] : t) {
    string n = v->hasName() ? v->getName().str() : "v" + std::to_string(((uintptr_t)v) % 99991);
    s += (k >= 0 ? " +" : " ") + std::to_string(k) + "*" + n;
  }
  return s + (c >= 0 ? " +" : " ") + std::to_string(c);
}
Lin LinCtx::lin(const Value* V, unsigned d) {
  Lin r;
  if (subst && subst(V, r)) return r;
  if (auto* C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() > 64) { r.t[V] = 1; return r; } r.c = C->getSExtValue(); return r; }
  if (isa<ConstantPointerNull>(V)) return r;
  if (d < 60) {
    if (auto* G = dyn_cast<GEPOperator>(V)) {
      Lin x = lin(G->getPointerOperand(), d + 1);
      unsigned bw = 64; MapVector<Value*, APInt> var; APInt c(bw, 0);
      if (G->collectOffset(DL, bw, var, c)) {
        x.c += c.getSExtValue();
        for (auto& [v, k] : var) x = x + lin(v, d + 1).mul(k.getSExtValue());
        return x;
      }
    } else if (auto* B = dyn_cast<BinaryOperator>(V)) {
      auto op = B->getOpcode();
      bool wide = B->getType()->isIntegerTy(64) || B->hasNoSignedWrap() || B->hasNoUnsignedWrap() || B->getType()->isIntegerTy(32);
      if (wide) {
        if (op == Instruction::Add) return lin(B->getOperand(0), d + 1) + lin(B->getOperand(1), d + 1);
        if (op == Instruction::Sub) return lin(B->getOperand(0), d + 1) - lin(B->getOperand(1), d + 1);
        if (op == Instruction::Mul) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) return lin(B->getOperand(0), d + 1).mul(C->getSExtValue());
        if (op == Instruction::Shl) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) if (C->getZExtValue() < 32) return lin(B->getOperand(0), d + 1).mul(1LL << C->getZExtValue());
        if (op == Instruction::Xor) if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) if (C->isMinusOne()) { Lin x = lin(B->getOperand(0), d + 1).mul(-1); x.c -= 1; return x; }
        if (op == Instruction::Or && cast<PossiblyDisjointInst>(B)->isDisjoint()) return lin(B->getOperand(0), d + 1) + lin(B->getOperand(1), d + 1);
      }
      if ((op == Instruction::SDiv || op == Instruction::AShr || op == Instruction::LShr || op == Instruction::UDiv) && B->isExact())
        if (auto* C = dyn_cast<ConstantInt>(B->getOperand(1))) {
          int64_t k = (op == Instruction::AShr || op == Instruction::LShr) ? (1LL << C->getZExtValue()) : C->getSExtValue();
          Lin x = lin(B->getOperand(0), d + 1); bool div = x.c % k == 0; for (auto& [v, q] : x.t) if (q % k) div = false;
          if (div) { x.c /= k; for (auto& [v, q] : x.t) q /= k; return x; }
          Lin self; self.t[V] = k; defs[V] = self - x;
        }
    } else if (isa<ZExtInst>(V) || isa<SExtInst>(V) || isa<PtrToIntInst>(V) || isa<IntToPtrInst>(V) || isa<FreezeInst>(V)) {
      const Value* s = cast<Instruction>(V)->getOperand(0);
      return lin(s, d + 1);
    }
  }
  const Value* A = V;
  auto it = canon.find(A); if (it != canon.end()) A = it->second;
  if (atomOf) A = atomOf(A);
  r.t[A] = 1;
  return r;
}
void LinCtx::condFacts(const Value* C, bool truth, std::vector<Lin>& out, unsigned d) {
  if (d > 20) return;
  if (auto* B = dyn_cast<BinaryOperator>(C)) {
    if (B->getOpcode() == Instruction::And && truth) { condFacts(B->getOperand(0), true, out, d + 1); condFacts(B->getOperand(1), true, out, d + 1); }
    if (B->getOpcode() == Instruction::Or && !truth) { condFacts(B->getOperand(0), false, out, d + 1); condFacts(B->getOperand(1), false, out, d + 1); }
    if (B->getOpcode() == Instruction::Xor) if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1))) if (K->isOne()) condFacts(B->getOperand(0), !truth, out, d + 1);
    return;
  }
  if (auto* S = dyn_cast<SelectInst>(C)) {   // logical and/or
    auto* T = dyn_cast<ConstantInt>(S->getTrueValue()); auto* E = dyn_cast<ConstantInt>(S->getFalseValue());
    if (E && E->isZero() && truth) { condFacts(S->getCondition(), true, out, d + 1); condFacts(S->getTrueValue(), true, out, d + 1); }
    if (T && T->isOne() && !truth) { condFacts(S->getCondition(), false, out, d + 1); condFacts(S->getFalseValue(), false, out, d + 1); }
    return;
  }
  auto* I = dyn_cast<ICmpInst>(C);
  if (!I) return;
  if (trust && !trust(I)) return;
  auto p = truth ? I->getPredicate() : I->getInversePredicate();
  if (!I->getOperand(0)->getType()->isIntegerTy() && !I->getOperand(0)->getType()->isPointerTy()) return;
  Lin a = lin(I->getOperand(0)), b = lin(I->getOperand(1));
  Lin one; one.c = 1;
  switch (p) {
    case ICmpInst::ICMP_EQ: out.push_back(a - b); out.push_back(b - a); break;
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: out.push_back(b - a - one); break;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: out.push_back(b - a); break;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: out.push_back(a - b - one); break;
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: out.push_back(a - b); break;
    default: break;
  }
}
std::vector<std::pair<const Value*, bool>> domConds(const BasicBlock* BB, DominatorTree& DT) {
  std::vector<std::pair<const Value*, bool>> out;
  auto* N = DT.getNode(BB);
  if (!N) return out;
  for (; N; N = N->getIDom()) {
    auto* P = N->getBlock();
    auto* Br = dyn_cast<BranchInst>(P->getTerminator());
    if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) {
      for (int s = 0; s < 2; ++s) {
        BasicBlockEdge E(P, Br->getSuccessor(s));
        if (DT.dominates(E, BB)) out.push_back({Br->getCondition(), s == 0});
      }
    }
  }
  return out;
}
std::vector<Lin> LinCtx::factsAt(const Instruction* I) {
  std::vector<Lin> out = extra;
  for (auto& [f, B] : extraAt) if (DT.dominates(B, I->getParent())) out.push_back(f);
  for (auto& [c, t] : domConds(I->getParent(), DT)) condFacts(c, t, out);
  return out;
}
// Fourier-Motzkin with a budget: facts and not(goal) contradictory?
bool LinCtx::prove(const std::vector<Lin>& facts, const Lin& goal) {
  typedef std::map<unsigned, int64_t> T;
  struct Row { T t; __int128 c; };
  std::vector<Row> rows;
  std::set<unsigned> sid; for (auto* v : signedAtoms) sid.insert(valueId(v));
  auto push = [&](const Lin& l) { if (!l.ok) return; Row r; r.c = l.c; for (auto& [v, k] : l.t) r.t[valueId(v)] = k; rows.push_back(r); };
  for (auto& [v, d] : defs) { push(d); push(d.mul(-1)); }
  for (auto& f : facts) push(f);
  { Lin n = goal.mul(-1); n.c -= 1; push(n); }
  // keep rows connected to the goal
  {
    std::set<unsigned> rel; for (auto& [v, k] : goal.t) rel.insert(valueId(v));
    std::vector<bool> in(rows.size(), false); in.back() = true;
    bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < rows.size(); ++i) if (!in[i]) {
        bool hit = rows[i].t.empty(); for (auto& [v, k] : rows[i].t) if (rel.count(v)) hit = true;
        if (hit) { in[i] = true; ch = true; for (auto& [v, k] : rows[i].t) rel.insert(v); }
      } }
    std::vector<Row> r2; for (size_t i = 0; i < rows.size(); ++i) if (in[i]) r2.push_back(rows[i]);
    rows.swap(r2);
    if (unsignedAtoms) { rel.clear(); for (auto& r : rows) for (auto& [v, k] : r.t) rel.insert(v); for (auto v : rel) if (!sid.count(v)) { Row r; r.c = 0; r.t[v] = 1; rows.push_back(r); } }
  }
  auto contra = [&]() { for (auto& r : rows) if (r.t.empty() && r.c < 0) return true; return false; };
  for (int it = 0; it < 60; ++it) {
    if (contra()) return true;
    std::map<unsigned, std::pair<int, int>> cnt;
    for (auto& r : rows) for (auto& [v, k] : r.t) (k > 0 ? cnt[v].first : cnt[v].second)++;
    if (cnt.empty()) return false;
    unsigned best = 0; long bc = -1;
    for (auto& [v, pn] : cnt) { long c = (long)pn.first * pn.second; if (bc < 0 || c < bc) { best = v; bc = c; } }
    std::vector<Row> nr, pos, neg;
    for (auto& r : rows) { auto f = r.t.find(best); if (f == r.t.end()) nr.push_back(r); else if (f->second > 0) pos.push_back(r); else neg.push_back(r); }
    if ((long)pos.size() * (long)neg.size() > 4000) return false;
    for (auto& p : pos) for (auto& n : neg) {
      int64_t a = p.t[best], b = -n.t[best];
      Row x; x.c = p.c * b + n.c * a;
      for (auto& [v, k] : p.t) if (v != best) x.t[v] += k * b;
      for (auto& [v, k] : n.t) if (v != best) { x.t[v] += k * a; }
      for (auto i = x.t.begin(); i != x.t.end();) if (!i->second) i = x.t.erase(i); else ++i;
      nr.push_back(x);
    }
    if (nr.size() > 6000) return false;
    rows.swap(nr);
  }
  return false;
}

bool LinCtx::refutes(const std::vector<Lin>& facts, const Value* cond, bool truth, const BasicBlock* splitAt) {
  std::vector<Lin> nw; condFacts(cond, truth, nw);
  auto f = facts; for (auto& x : nw) f.push_back(x);
  for (auto& g : nw) { Lin n = g.mul(-1); n.c -= 1; if (prove(f, n) || (splitAt && proveSplit(f, n, splitAt))) return true; }
  return false;
}
std::vector<Lin> LinCtx::factsOnEdge(const BasicBlock* From, const BasicBlock* To) {
  std::vector<Lin> out = extra;
  for (auto& [f, B] : extraAt) if (DT.dominates(B, From)) out.push_back(f);
  for (auto& [c, t] : domConds(From, DT)) condFacts(c, t, out);
  if (auto* Br = dyn_cast<BranchInst>(From->getTerminator()))
    if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1)) condFacts(Br->getCondition(), Br->getSuccessor(0) == To, out);
  return out;
}
bool LinCtx::proveSplit(const std::vector<Lin>& facts, const Lin& goal, const BasicBlock* at, unsigned depth) {
  if (prove(facts, goal)) return true;
  if (depth >= 4) return false;
  // candidate atoms: selects and non-loop phis in the goal, then in the facts
  std::vector<const Value*> cand;
  auto add = [&](const Lin& l) {
    for (auto& [v, k] : l.t) {
      if (noSplit.count(v)) continue;
      bool ok = isa<SelectInst>(v);
      if (auto* P = dyn_cast<PHINode>(v)) {
        ok = true;
        for (auto* B : P->blocks()) if (DT.dominates(P->getParent(), B)) ok = false;
      }
      if (ok && !DT.dominates(cast<Instruction>(v)->getParent(), at)) ok = false;
      if (ok && std::find(cand.begin(), cand.end(), v) == cand.end()) cand.push_back(v);
    }
  };
  add(goal);
  for (auto& f : facts) add(f);
  for (auto* v : cand) {
    bool all = true;
    Lin self; self.t[v] = 1;
    noSplit.insert(v);
    if (auto* S = dyn_cast<SelectInst>(v)) {
      for (int arm = 0; arm < 2 && all; ++arm) {
        auto f = facts; condFacts(S->getCondition(), arm == 0, f);
        Lin e = lin(arm == 0 ? S->getTrueValue() : S->getFalseValue()) - self;
        f.push_back(e); f.push_back(e.mul(-1));
        all = proveSplit(f, goal, at, depth + 1);
      }
    } else {
      auto* P = cast<PHINode>(v);
      for (unsigned i = 0; i < P->getNumIncomingValues() && all; ++i) {
        auto f = facts; for (auto& x : factsOnEdge(P->getIncomingBlock(i), P->getParent())) f.push_back(x);
        Lin e = lin(P->getIncomingValue(i)) - self;
        f.push_back(e); f.push_back(e.mul(-1));
        all = proveSplit(f, goal, at, depth + 1);
      }
    }
    noSplit.erase(v);
    if (all) return true;
  }
  return false;
}
LinCtx::Located LinCtx::ivFacts() {
  Located out;
  for (auto& B : F) {
    struct IV { PHINode* P; Lin init; int64_t step; }; std::vector<IV> ivs;
    for (auto& P : B.phis()) {
      if (!P.getType()->isPointerTy() && !P.getType()->isIntegerTy()) continue;
      Lin self; self.t[&P] = 1; IV v{&P, Lin(), 0}; bool ok = true, back = false, in = false;
      for (unsigned i = 0; i < P.getNumIncomingValues() && ok; ++i) {
        if (DT.dominates(&B, P.getIncomingBlock(i))) {
          Lin d = lin(P.getIncomingValue(i)) - self;
          if (!d.ok || !d.t.empty() || (back && d.c != v.step)) ok = false;
          v.step = d.c; back = true;
        } else { if (in) { Lin o = lin(P.getIncomingValue(i)); Lin d = o - v.init; if (!d.t.empty() || d.c) ok = false; } else v.init = lin(P.getIncomingValue(i)); in = true; }
      }
      if (ok && back && in && v.step) ivs.push_back(v);
    }
    for (size_t i = 1; i < ivs.size(); ++i) {
      Lin a, b; a.t[ivs[0].P] = 1; b.t[ivs[i].P] = 1;
      Lin e = (a - ivs[0].init).mul(ivs[i].step) - (b - ivs[i].init).mul(ivs[0].step);
      if (e.t.empty()) continue;
      out.push_back({e, &B}); out.push_back({e.mul(-1), &B});
    }
  }
  return out;
}
LinCtx::Located LinCtx::loopFacts() {
  Located out;
  for (auto& B : F) for (auto& P : B.phis()) {
    if (!P.getType()->isPointerTy() && !P.getType()->isIntegerTy()) continue;
    // incoming values: from outside, or phi + nonnegative constant
    bool grow = false, ok = true; const Value* init = nullptr; bool multi = false;
    for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) {
      if (DT.dominates(&B, P.getIncomingBlock(i))) {
        Lin d = lin(P.getIncomingValue(i)); Lin self; self.t[&P] = 1; d = d - self;
        if (d.t.empty() && d.c >= 0) grow = true; else ok = false;
      } else { if (init && init != P.getIncomingValue(i)) multi = true; init = P.getIncomingValue(i); }
    }
    if (grow && ok && init && !multi) { Lin self; self.t[&P] = 1; out.push_back({self - lin(init), &B}); }
  }
  return out;
}

// ------------------------------------------------------------------ main
static std::map<string, CheckFn>& reg() { static std::map<string, CheckFn> r; return r; }
void registerCheck(const string& n, CheckFn f) { reg()[n] = f; }
int main(int argc, char** argv) {
  if (argc < 2) { for (auto& [n, f] : reg()) outs() << n << "\n"; return 2; }
  std::map<string, string> a;
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto it = reg().find(argv[1]);
  if (it == reg().end()) R.error(string("no such check: ") + argv[1]);
  int r = it->second(a);
  R.print();
  return r;
}
