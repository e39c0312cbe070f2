#include "core.h"
#include "beval.h"
#include "exc.h"
// A03: everything handed to the caller is released by its release function, in the form it was allocated in; nothing is left behind
// by a function that fails half-way. Every path from an allocation is followed until the object is released, owned or handed out.
namespace {
bool freeName(StringRef n) { return n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free"; }
string formOf(StringRef n) { return n.starts_with("_Znwm") || n.starts_with("_ZdlPv") ? "single object" : n.starts_with("_Znam") || n.starts_with("_ZdaPv") ? "array" : n == "malloc" || n == "free" || n == "calloc" || n == "strdup" || n == "realloc" ? "malloc" : ""; }
bool allocName(StringRef n) { return (n.starts_with("_Znwm") || n.starts_with("_Znam") || n == "malloc" || n == "calloc" || n == "strdup"); }
struct Ev { enum K { Freed, Returned, Out, Owned, LeakRet, LeakThrow, LeakOwner, Handed } k; string what; const Instruction* at; int argNo = -1; };
bool smart(const Function* f, const CallBase* CB, unsigned an); bool container(const Function* f); bool outParam(const Argument* A); const DIType* argType(const Argument* A, bool ret, const Function* F); const DIType* pointee(const DIType* T);
struct Explore {
  Function& F; const CHA& cha; const DataLayout& DL; std::map<const Value*, std::pair<const Value*, int64_t>> bases; size_t states = 0; bool over = false;
  std::function<bool(const Function*)> releases; std::function<bool(const Function*, unsigned)> takes; std::function<bool(const CallBase*)> mayThrow; const Argument* arg = nullptr;
  string slotKey(const Value* p) { p = p->stripPointerCasts(); if (auto* G = dyn_cast<GEPOperator>(p)) if (auto* T = dyn_cast<StructType>(G->getSourceElementType())) { APInt c(64, 0); if (G->accumulateConstantOffset(DL, c)) { string n = T->getName().str(); size_t d = n.find_last_of('.'); if (d != string::npos && d > 7 && isdigit(n[d + 1])) n = n.substr(0, d); return n + "+" + std::to_string(c.getSExtValue()); } }
    if (auto* A = dyn_cast<AllocaInst>(p)) if (auto* T = dyn_cast<StructType>(A->getAllocatedType())) return T->getName().str() + "+0";
    if (auto* G = dyn_cast<GEPOperator>(p)) if (auto* T = dyn_cast<StructType>(G->getSourceElementType())) { // an element of an array of T, or a member of one
      uint64_t off = 0; std::vector<Value*> ix(G->idx_begin(), G->idx_end()); bool ok = true; const Type* c = T; for (size_t i = 1; i < ix.size() && ok; ++i) { auto* S2 = dyn_cast<StructType>(const_cast<Type*>(c)); auto* K = dyn_cast<ConstantInt>(ix[i]); if (!S2 || !K) { ok = false; break; } off += DL.getStructLayout(S2)->getElementOffset(K->getZExtValue()); c = S2->getElementType(K->getZExtValue()); } if (ok) { string n = T->getName().str(); return n + "+" + std::to_string(off); } }
    for (auto* U : const_cast<Value*>(p)->users()) if (auto* G = dyn_cast<GEPOperator>(U)) if (auto* St = dyn_cast<StructType>(G->getSourceElementType())) if (G->getPointerOperand() == p) return St->getName().str() + "+0";
    if (auto* Ag = dyn_cast<Argument>(p)) if (auto* T = pointee(argType(Ag, false, nullptr)); T && isa<DICompositeType>(T)) return "struct." + T->getName().str() + "+0"; return "?"; }
  Explore(Function& F, const CHA& cha) : F(F), cha(cha), DL(F.getParent()->getDataLayout()) {}
  std::pair<const Value*, int64_t> base(const Value* p) { int64_t off = 0; for (;;) { p = p->stripPointerCasts(); if (auto* G = dyn_cast<GEPOperator>(p)) { APInt c(64, 0); if (G->accumulateConstantOffset(DL, c)) off += c.getSExtValue(); else off = INT64_MIN / 2; p = G->getPointerOperand(); continue; } return {p, off}; } }
  typedef std::pair<const Value*, int64_t> Slot;
  struct St { std::map<const Value*, bool> facts; const BasicBlock* bb; std::set<const Value*> A; std::set<Slot> S; const Value* owner; Slot oslot; bool out; string outWhat; bool operator<(const St& o) const { return std::tie(bb, A, S, owner, oslot, out, facts) < std::tie(o.bb, o.A, o.S, o.owner, o.oslot, o.out, o.facts); } };
  std::vector<Ev> run(const CallBase* alloc, int64_t slotArg = -1) {
    std::vector<Ev> out; std::set<St> seen; std::vector<std::pair<St, const Instruction*>> wl;
    St s0{{}, alloc ? alloc->getParent() : &F.getEntryBlock(), {}, {}, nullptr, {nullptr, 0}, false, ""}; if (!alloc) s0.A.insert(arg); else if (slotArg < 0) s0.A.insert(alloc); else { auto* p = alloc->getArgOperand(slotArg); auto [b, o] = base(p); if (!isa<AllocaInst>(b)) { if (auto* Ag = dyn_cast<Argument>(b); Ag && o == 0 && outParam(Ag)) { s0.out = true; s0.outWhat = Ag->getName().str(); out.push_back({Ev::Out, std::to_string(Ag->getArgNo()), alloc}); } else return out; } else s0.S.insert({b, o}); }
    auto push = [&](St s, const BasicBlock* from, const BasicBlock* to) { { std::map<const Value*, bool> nf; for (auto& P : to->phis()) if (P.getType()->isIntegerTy(1)) { auto* v = P.getIncomingValueForBlock(from); if (auto* K = dyn_cast<ConstantInt>(v)) nf[&P] = K->isOne(); else { auto it = s.facts.find(v); if (it != s.facts.end()) nf[&P] = it->second; else nf.erase(&P); } } for (auto& P : to->phis()) if (P.getType()->isIntegerTy(1)) { s.facts.erase(&P); } for (auto& [v, b] : nf) s.facts[v] = b; } std::set<const Value*> add, del; for (auto& P : to->phis()) { auto* v = P.getIncomingValueForBlock(from)->stripPointerCasts(); if (s.A.count(v)) add.insert(&P); else if (s.A.count(&P)) del.insert(&P); } for (auto* d : del) s.A.erase(d); for (auto* d : add) s.A.insert(d); s.bb = to; if (seen.insert(s).second) wl.push_back({s, nullptr}); };
    if (!alloc) wl.push_back({s0, nullptr}); else if (auto* II = dyn_cast<InvokeInst>(alloc)) push(s0, alloc->getParent(), II->getNormalDest()); else wl.push_back({s0, alloc->getNextNode()});
    while (!wl.empty()) {
      auto [s, from] = wl.back(); wl.pop_back(); if (++states > 400000) { over = true; return out; }
      bool done = false; auto isA = [&](const Value* v) { return s.A.count(v->stripPointerCasts()) > 0; };
      for (auto it = from ? from->getIterator() : s.bb->getFirstNonPHIIt(); it != s.bb->end() && !done; ++it) { auto& I = const_cast<Instruction&>(*it);
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (s.out && isa<LandingPadInst>(I)) { out.push_back({Ev::LeakOwner, s.outWhat, &I}); done = true; break; }
        if (auto* S = dyn_cast<StoreInst>(&I)) { auto [b, o] = base(S->getPointerOperand()); bool a = isA(S->getValueOperand());
          if (!a) { s.S.erase({b, o}); if (s.owner == b && s.oslot.second == o) s.owner = nullptr; continue; }
          if (isa<AllocaInst>(b)) { s.S.insert({b, o}); continue; }
          if (auto* CB = dyn_cast<CallBase>(b); CB && CB->getCalledFunction() && allocName(CB->getCalledFunction()->getName())) { s.owner = b; s.oslot = {b, o}; continue; }
          if (s.A.count(b)) continue;
          if (auto* Ag = dyn_cast<Argument>(b); Ag && o == 0 && outParam(Ag)) { s.out = true; s.outWhat = Ag->getName().str(); out.push_back({Ev::Out, std::to_string(Ag->getArgNo()), &I}); continue; }
          string key = slotKey(S->getPointerOperand());
          out.push_back({Ev::Owned, key, &I}); done = true; break; }
        if (auto* L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isPointerTy()) continue; auto [b, o] = base(L->getPointerOperand()); if (s.S.count({b, o}) || (s.owner && s.owner == b && s.oslot.second == o)) s.A.insert(&I); else s.A.erase(&I); if (s.out) if (auto* Ag = dyn_cast<Argument>(b)) if (Ag->getName().str() == s.outWhat && o == 0) s.A.insert(&I); continue; }
        if (auto* Mt = dyn_cast<MemTransferInst>(&I)) { auto [db, dof] = base(Mt->getRawDest()); auto [sb, so] = base(Mt->getRawSource()); auto* K = dyn_cast<ConstantInt>(Mt->getLength()); uint64_t n = K ? K->getZExtValue() : 1 << 20; std::vector<int64_t> hit; for (auto& x : s.S) if (x.first == sb && x.second >= so && x.second < so + (int64_t)n) hit.push_back(x.second - so); if (!hit.empty()) { if (isa<AllocaInst>(db)) for (auto h : hit) s.S.insert({db, dof + h}); else { out.push_back({Ev::Owned, "copied", &I}); done = true; } } continue; }
        if (isa<SelectInst>(I)) { if (isA(I.getOperand(1)) || isA(I.getOperand(2))) s.A.insert(&I); else s.A.erase(&I); continue; }
        if (isa<ReturnInst>(I)) { auto* v = cast<ReturnInst>(I).getReturnValue(); bool in = v && (isA(v)); if (in) out.push_back({Ev::Returned, "", &I}); else if (!s.out && !s.owner) { bool ret = false; for (auto& [b, o] : s.S) ret |= isa<Argument>(b); if (!ret) out.push_back({Ev::LeakRet, "", &I}); } done = true; break; }
        if (isa<ResumeInst>(I)) { if (s.owner && !s.out) { done = true; break; } out.push_back({Ev::LeakThrow, "", &I}); done = true; break; }
        if (isa<UnreachableInst>(I)) { done = true; break; }
        if (auto* CB = dyn_cast<CallBase>(&I)) {
          auto* f = CB->getCalledFunction(); if (CB == alloc) { done = true; break; }   // the next one
          if (f && f->isIntrinsic()) { if (auto* II = dyn_cast<IntrinsicInst>(CB); II && II->getIntrinsicID() == Intrinsic::lifetime_end) { auto* b = base(II->getArgOperand(1)).first; for (auto i2 = s.S.begin(); i2 != s.S.end();) if (i2->first == b) i2 = s.S.erase(i2); else ++i2; } continue; }
          bool arg = false; unsigned an = 0; for (auto& x : CB->args()) if (x->getType()->isPointerTy() && isA(x)) { arg = true; an = CB->getArgOperandNo(&x); }
          if (f && freeName(f->getName())) { auto* x = CB->getArgOperand(0)->stripPointerCasts(); if (isA(x)) { out.push_back({Ev::Freed, f->getName().str(), &I}); done = true; break; } if (s.owner && base(x).first == s.owner && !s.out) { out.push_back({Ev::LeakOwner, "", &I}); done = true; break; } }
          else if (arg && f && releases && releases(f)) { out.push_back({Ev::Freed, f->getName().str(), &I}); done = true; break; }
          else if (arg && f && (f->getName() == "strcpy" || f->getName() == "strncpy" || f->getName() == "memcpy" || f->getName() == "memmove" || f->getName() == "memset") && an == 0) s.A.insert(&I);
          else if (arg && f && takes && takes(f, an)) { out.push_back({Ev::Owned, "smart pointer", &I, (int)an}); done = true; break; }
          else if (f && container(f)) { bool in = false; for (auto& x : CB->args()) if (x->getType()->isPointerTy() && CB->getArgOperandNo(&x) > 0) { auto b = base(x).first; for (auto& sl : s.S) if (sl.first == b) { in = true; string k = "container"; if (auto* A = dyn_cast<AllocaInst>(b)) if (auto* T = dyn_cast<StructType>(A->getAllocatedType())) k = T->getName().str() + "+" + std::to_string(sl.second); out.push_back({Ev::Owned, k, &I}); } } if (in) { if (auto* II = dyn_cast<InvokeInst>(CB)) push(s, s.bb, II->getUnwindDest()); else if (mayThrow && mayThrow(CB) && !arg) out.push_back({Ev::LeakThrow, "", &I}); done = true; break; } }
          else if (arg && f && smart(f, CB, an)) { out.push_back({Ev::Owned, "smart pointer", &I}); done = true; break; }
          else if (arg && f && inRepo(f) && !f->isDeclaration()) { out.push_back({Ev::Handed, fnName(f), &I}); }
          else if (arg && !f) { int64_t slot; if (CHA::vcall(CB, &slot)) { bool r; auto ts = cha.targets(CB, &r); bool all = !ts.empty(); for (auto* t : ts) all &= fnName(t).find('~') != string::npos; if (all && an == 0) { out.push_back({Ev::Freed, "a virtual destructor", &I}); done = true; break; } }
            else { auto* L = dyn_cast<LoadInst>(CB->getCalledOperand()); bool rel = false; if (L) { auto [b, o] = base(L->getPointerOperand()); for (auto& J : instructions(F)) if (auto* S2 = dyn_cast<StoreInst>(&J)) if (base(S2->getPointerOperand()) == std::make_pair(b, o)) if (auto* g = dyn_cast<Function>(S2->getValueOperand()->stripPointerCasts())) rel |= releases && releases(g); } if (rel) { out.push_back({Ev::Freed, "its deleter", &I}); done = true; break; } } }
          if (auto* II = dyn_cast<InvokeInst>(CB)) { push(s, s.bb, II->getNormalDest()); if (!mayThrow || mayThrow(CB)) push(s, s.bb, II->getUnwindDest()); done = true; break; }
          if (!s.owner && mayThrow && mayThrow(CB)) out.push_back({s.out ? Ev::LeakOwner : Ev::LeakThrow, f ? dem(f->getName()) : "a call", &I});
          if (CB->doesNotReturn()) { done = true; break; }
          continue; }
        if (auto* Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { if (auto it = s.facts.find(Br->getCondition()); it != s.facts.end()) { push(s, s.bb, Br->getSuccessor(it->second ? 0 : 1)); done = true; break; } if (auto* C = dyn_cast<ICmpInst>(Br->getCondition()); C && C->isEquality()) { auto *x = C->getOperand(0), *y = C->getOperand(1); if (isa<ConstantPointerNull>(x)) std::swap(x, y); if (isa<ConstantPointerNull>(y) && isA(x)) { push(s, s.bb, Br->getSuccessor(C->getPredicate() == ICmpInst::ICMP_EQ ? 1 : 0)); done = true; break; } }
            push(s, s.bb, Br->getSuccessor(0)); if (Br->getSuccessor(1) != Br->getSuccessor(0)) push(s, s.bb, Br->getSuccessor(1)); }
          else push(s, s.bb, Br->getSuccessor(0)); done = true; break; }
        if (auto* Sw = dyn_cast<SwitchInst>(&I)) { std::set<const BasicBlock*> u; for (auto* t : successors(Sw->getParent())) if (u.insert(t).second) push(s, s.bb, t); done = true; break; }
      } }
    return out; }
};

bool smart(const Function* f, const CallBase* CB, unsigned an) {   // is the argument taken over by a smart pointer?
  string n = fnName(f); if (!StringRef(n).starts_with("std::")) return false; StringRef s(n);
  bool owner = s.starts_with("std::unique_ptr<") || s.starts_with("std::shared_ptr<") || s.starts_with("std::__shared_ptr<"); if (!owner || an != 1) return false;
  return s.ends_with("::reset") || s.contains("::unique_ptr") || s.contains("::shared_ptr<") || s.contains("::__shared_ptr<") || s.contains("::reset<"); }
bool container(const Function* f) { string n = fnName(f); StringRef s(n); if (!s.starts_with("std::")) return false; size_t k = n.rfind("::"); string m = n.substr(k + 2); if (size_t lt = m.find('<'); lt != string::npos) m = m.substr(0, lt); return m == "push_back" || m == "emplace_back" || m == "insert" || m == "emplace" || m == "push" || m == "push_front" || m == "emplace_front"; }
const DIType* argType(const Argument* A, bool ret, const Function* F) { if (A) F = A->getParent(); auto* S = F->getSubprogram(); if (!S || !S->getType()) return nullptr; auto T = S->getType()->getTypeArray(); unsigned n = 0; if (!ret) { n = A->getArgNo() + 1; if (F->arg_size() && F->getArg(0)->hasStructRetAttr()) --n; } return n < T.size() ? stripDI(T[n]) : nullptr; }
const DIType* pointee(const DIType* T) { auto* D = dyn_cast_or_null<DIDerivedType>(T); return D && (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) ? stripDI(D->getBaseType()) : nullptr; }
bool isPtrType(const DIType* T) { auto* D = dyn_cast_or_null<DIDerivedType>(T); return D && D->getTag() == dwarf::DW_TAG_pointer_type; }
string typeName(const DIType* T) { if (!T) return "void"; if (auto* C = dyn_cast<DICompositeType>(T)) if (C->getName().empty()) { return "struct#" + std::to_string(C->getSizeInBits()); } return T->getName().str(); }
bool outParam(const Argument* A) { auto* P = pointee(argType(A, false, nullptr)); return P && isPtrType(P); }
int run(const std::map<string, string>& args) {
  bool dbg = getenv("LGSA_DBG") != nullptr; LLVMContext C; auto M = loadModule(C, args.at("--bc")); ExcInfo X(*M); X.solve(); CHA& cha = X.cha; const DataLayout& DL = M->getDataLayout();
  std::vector<Function*> fs; for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F) && F.getName() != "_Z7yyparsePN12_GLOBAL__N_17ContextE") fs.push_back(&F);
  std::map<const CallBase*, bool> throws;
  for (auto* F : fs) simplify(*F, false);
  std::set<const Function*> rel; std::vector<Function*> rels; for (auto* F : fs) if (F->getName().starts_with("lg_destroy_") || F->getName().starts_with("lg_free_")) { rel.insert(F); rels.push_back(F); }
  // -- what a release function does with its argument
  std::map<const Function*, string> relForm;
  for (auto* F : rels) { if (F->arg_size() != 1) { R.ob(false, "a release function releases its argument", fnName(F), whereF(F), "it does not take one argument"); continue; }
    std::set<string> forms; bool bad = false; string why; { InlineOpts O; O.keep = [](const Function& g) { return fnName(&g).find('~') != string::npos || !inRepo(&g); }; inlineAll(*F, O); }
    // every way through it, from its entry: either the argument is null or it is released exactly once
    be::Eval E(*F); E.args[F->getArg(0)] = be::ptr("arg"); E.stable = {"arg"}; size_t nul = 0, full = 0; struct Rec { std::vector<std::pair<string, string>> freed; };
    E.record = [&](const CallBase* CB) { auto* f = CB->getCalledFunction(); return f && (freeName(f->getName())); };
    // a loop is judged by one turn
    DominatorTree DT(*F); LoopInfo LI(DT);
    if (LI.empty()) { if (auto* T = dyn_cast_or_null<DICompositeType>(pointee(argType(F->getArg(0), false, nullptr)))) for (auto* e : T->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e); d && d->getTag() == dwarf::DW_TAG_member && pointee(stripDI(d->getBaseType())) == T) { bool self = false; for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) self |= CB->getCalledFunction() == F; if (!self) { bad = true; why = "it releases the first entry of a list only"; } }
      std::vector<be::Out> os; try { os = E.all(); } catch (be::Stuck& st) { why = st.why; bad = true; }
      for (auto& o : os) { bool isNull = false; for (auto& [q, v] : o.asg) if ((q == "eq arg null" || q == "eq null arg") && v == 1) isNull = true; size_t n = 0; bool other = false; for (auto& c : o.calls) { if (!c.args.empty() && c.args[0] == be::ptr("arg")) { ++n; forms.insert(formOf(c.call->getCalledFunction()->getName())); } else if (!c.args.empty()) other = true; }
        if (isNull) { ++nul; if (n) { } } else { ++full; if (n != 1 && !(n == 0 && false)) { bad = true; why = n ? "on some way the object is released " + std::to_string(n) + " times" : "on some way the object is not released"; } } }
      if (!bad && !full) { bad = true; why = "no way releases the object"; }
      // a null argument is harmless: nothing is read through it
      if (!bad && !nul) { for (auto& I : instructions(*F)) { if (auto* L = dyn_cast<LoadInst>(&I)) bad |= Explore(*F, cha).base(L->getPointerOperand()).first == F->getArg(0); if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction(); f && !f->isIntrinsic() && !freeName(f->getName())) for (auto& a : CB->args()) bad |= a->stripPointerCasts() == F->getArg(0); } if (bad) why = "a null argument is not excluded"; }
      R.ob(!bad, "a release function releases its argument", fnName(F), whereF(F), why);
      // destructors run
      if (auto* T = dyn_cast_or_null<DICompositeType>(pointee(argType(F->getArg(0), false, nullptr)))) { string cn = diQualName(T); bool triv = true; Function* D = nullptr; for (auto& G : *M) { string n = fnName(&G); if (n == cn + "::~" + T->getName().str()) { D = &G; triv = false; } } bool called = false; for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) called |= fnName(f) == cn + "::~" + T->getName().str(); (void)D; R.ob(triv || called, "a release function destroys what the handle owns", fnName(F), whereF(F), "the destructor of " + cn + " is not called"); } }
    else if (true) { // a list
      auto* T = dyn_cast_or_null<DICompositeType>(pointee(argType(F->getArg(0), false, nullptr))); auto* L = *LI.begin(); std::map<int64_t, string> texts; int64_t next = -1; if (T) for (auto* e : T->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e); d && d->getTag() == dwarf::DW_TAG_member) { auto* P = pointee(stripDI(d->getBaseType())); if (!isPtrType(stripDI(d->getBaseType()))) continue; if (P == T) next = d->getOffsetInBits() / 8; else texts[d->getOffsetInBits() / 8] = d->getName().str(); }
      const PHINode* node = nullptr; for (auto& P : L->getHeader()->phis()) if (P.getType()->isPointerTy() && L->getLoopPredecessor() && P.getIncomingValueForBlock(L->getLoopPredecessor())->stripPointerCasts() == F->getArg(0)) node = &P;
      if (!T || next < 0 || !node) { bad = true; why = "the list is not understood"; }
      else { be::Eval B(*F); B.args[F->getArg(0)] = be::ptr("arg"); B.stable = {"node", "arg"}; B.startAt = L->getHeader(); B.stopAt = L->getHeader(); B.within = L; B.env0[node] = be::ptr("node"); B.keepEnv = true; B.record = E.record; size_t turns = 0; std::map<int64_t, std::set<string>> tf; 
        std::vector<be::Out> os; try { os = B.all(); } catch (be::Stuck& st) { why = st.why; bad = true; }
        for (auto& o : os) { bool isNull = false; for (auto& [q, v] : o.asg) if ((q == "eq node null" || q == "eq null node") && v == 1) isNull = true; if (o.left) { if (!isNull) { bad = true; why = "it may stop before the end of the list"; } continue; } if (isNull) continue; ++turns;
          size_t self = 0, selfAt = 0; std::set<int64_t> got; size_t k = 0; for (auto& c : o.calls) { ++k; auto a = c.args.empty() ? be::V() : c.args[0]; string fm = formOf(c.call->getCalledFunction()->getName()); if (a == be::ptr("node")) { ++self; selfAt = k; forms.insert(fm); } else for (auto& [off, nm] : texts) if (a == be::ptr("load(node" + (off ? "+" + std::to_string(off) : string()) + ")")) { got.insert(off); tf[off].insert(fm); if (selfAt) { bad = true; why = nm + " is read from an entry that has been released"; } } }
          for (auto& [off, nm] : texts) if (!got.count(off)) { string p = "load(node" + (off ? "+" + std::to_string(off) : string()) + ")"; bool isn = false; for (auto& [q, v] : o.asg) if (v == 1 && (q == "eq " + p + " null" || q == "eq null " + p)) isn = true; if (!isn) { bad = true; why = nm + " is not released"; } }
          if (self != 1) { bad = true; why = "an entry of the list is released " + std::to_string(self) + " times"; }
          auto nx = o.at.find(node); if (nx == o.at.end() || !(nx->second == be::ptr("load(node+" + std::to_string(next) + ")"))) { bad = true; why = "it does not go on with the next entry"; }
          for (auto& J : instructions(*F)) if (auto* Ld = dyn_cast<LoadInst>(&J)) { auto [b2, o2] = Explore(*F, cha).base(Ld->getPointerOperand()); if (b2 == node && o2 == next) for (auto& c : o.calls) if (!c.args.empty() && c.args[0] == be::ptr("node") && DT.dominates(c.call, Ld)) { bad = true; why = "the next entry is read from a released one"; } } }
        if (!turns && !bad) { bad = true; why = "no entry is released"; }
        for (auto& [off, f2] : tf) for (auto& fm : f2) relForm[F] = "", R.ob(fm == "array", "texts are released in the form they are allocated in", fnName(F) + " " + texts[off], whereF(F), texts[off] + " is released as a " + fm); }
      R.ob(!bad, "a release function releases its argument", fnName(F), whereF(F), why); }
    if (forms.size() == 1) relForm[F] = *forms.begin(); else if (!bad) R.ob(false, "a release function releases its argument", fnName(F) + " form", whereF(F), "it uses different forms"); R.count("release functions", 1); }
  // -- summaries: which functions hand out what they allocated, which take over an argument
  std::map<const Function*, string> givesRet; std::map<const Function*, std::map<unsigned, string>> givesOut; std::set<std::pair<const Function*, unsigned>> takes; 
  struct Src { const CallBase* CB; string form; int64_t slotArg = -1; };
  auto sources = [&](Function* F) { std::vector<Src> v; for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) { auto* f = CB->getCalledFunction();
      if (f && allocName(f->getName())) v.push_back({CB, formOf(f->getName())});
      else if (f && givesRet.count(f)) v.push_back({CB, givesRet[f]});
      else if (f && StringRef(fnName(f)).starts_with("std::unique_ptr<") && StringRef(fnName(f)).ends_with("::release")) v.push_back({CB, fnName(f).find("[]") != string::npos ? "array" : ""});
      else if (!f && CB->getType()->isPointerTy()) { int64_t slot; if (CHA::vcall(CB, &slot)) { bool r; auto ts = cha.targets(CB, &r); bool all = !ts.empty(); for (auto* t : ts) all &= givesRet.count(t) > 0; if (all) v.push_back({CB, givesRet[ts[0]]}); } }
      if (f && givesOut.count(f)) for (auto& [k, form] : givesOut[f]) if (k < CB->arg_size()) v.push_back({CB, form, (int64_t)k}); }
    return v; };
  auto setup = [&](Explore& E) { E.releases = [&](const Function* f) { return rel.count(f) > 0; }; E.takes = [&](const Function* f, unsigned k) { return takes.count({f, k}) > 0; }; E.mayThrow = [&](const CallBase* CB) { return !X.ofCall(CB).empty(); }; };
  auto must = [&](Function* F, const std::vector<Ev>& es) { // every normal return comes after one of the stores
    std::set<const BasicBlock*> cut; for (auto& e : es) if (e.k == Ev::Out) cut.insert(e.at->getParent()); std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl{&F->getEntryBlock()}; while (!wl.empty()) { auto* b = wl.back(); wl.pop_back(); if (cut.count(b) || !seen.insert(b).second) continue; if (isa<ReturnInst>(b->getTerminator())) return false; for (auto* t : successors(b)) wl.push_back(t); } return true; };
  for (int round = 0; round < 6; ++round) { size_t before = givesRet.size() + givesOut.size() + takes.size();
    for (auto* F : fs) { for (auto& src : sources(F)) { Explore E(*F, cha); setup(E); auto es = E.run(src.CB, src.slotArg); for (auto& e : es) { if (e.k == Ev::Returned) givesRet.emplace(F, src.form); if (e.k == Ev::Out && must(F, es)) givesOut[F].emplace(std::stoul(e.what), src.form); } }
      for (auto& A : F->args()) if (A.getType()->isPointerTy() && !takes.count({F, A.getArgNo()}) && !A.hasStructRetAttr() && !A.hasByValAttr()) { bool stored = false; for (auto* U : A.users()) stored |= isa<StoreInst>(U) || isa<CallBase>(U) || isa<PHINode>(U); if (!stored || rel.count(F)) continue; Explore E(*F, cha); setup(E); E.arg = &A; auto es = E.run(nullptr); bool any = false, all = true; for (auto& e : es) { if (e.k == Ev::Owned || e.k == Ev::Freed || e.k == Ev::Out) any = true; if (e.k == Ev::LeakRet || e.k == Ev::Returned) all = false; } if (any && all && !E.over) { bool self = A.getArgNo() == 0 && !es.empty(); (void)self; takes.insert({F, A.getArgNo()}); } } }
    if (givesRet.size() + givesOut.size() + takes.size() == before) break; }
  if (dbg) { for (auto& [f, x] : givesRet) errs() << "gives " << fnName(f) << " " << x << "\n"; for (auto& [f, m] : givesOut) for (auto& [k, x] : m) errs() << "gives out " << fnName(f) << " " << k << " " << x << "\n"; for (auto& [f, k] : takes) errs() << "takes " << fnName(f) << " " << k << "\n"; }
  // which plain-pointer slots an argument ends up in
  std::map<std::pair<const Function*, unsigned>, std::set<string>> tslots; auto isSlot = [](const string& w) { return w.find('+') != string::npos; };
  auto slotsOf = [&](const Ev& e) { std::set<string> r; if (e.k != Ev::Owned) return r; if (isSlot(e.what)) r.insert(e.what); else if (auto* CB = dyn_cast<CallBase>(e.at)) if (auto* f = CB->getCalledFunction()) for (unsigned k = 0; k < CB->arg_size(); ++k) if (auto it = tslots.find({f, k}); it != tslots.end() && e.argNo == (int)k) r.insert(it->second.begin(), it->second.end()); return r; };
  for (int round = 0; round < 3; ++round) for (auto& [f, k] : takes) { Explore E(*const_cast<Function*>(f), cha); setup(E); E.arg = f->getArg(k); for (auto& e : E.run(nullptr)) for (auto& x : slotsOf(e)) tslots[{f, k}].insert(x); }
  // -- nothing allocated is left behind
  std::map<std::pair<string, string>, string> slots; std::set<std::pair<const Function*, string>> ownedArgAt; std::set<string> holders;
  for (auto* F : fs) { std::map<string, int> ord; for (auto& src : sources(F)) { Explore E(*F, cha); setup(E); auto es = E.run(src.CB, src.slotArg); auto* f = src.CB->getCalledFunction(); string what = f ? StringRef(f->getName()).starts_with("_Z") ? fnName(f) : f->getName().str() : "clone"; string key = fnName(F) + ": " + what + " #" + std::to_string(ord[what]++);
      string why; for (auto& e : es) { 
        if (e.k == Ev::LeakRet) why = "it may still be held by nobody when the function returns";
        if (e.k == Ev::LeakThrow) why = "it is lost if an exception leaves at " + where(e.at);
        if (e.k == Ev::LeakOwner) why = "what holds it is released without it, or the function fails after storing it for its caller (" + where(e.at) + ")";
        for (auto& x : slotsOf(e)) if (!isSlot(e.what)) if (auto* T = cast<CallBase>(e.at)->getCalledFunction()) ownedArgAt.insert({T, F->getName().str()});
        for (auto& x : slotsOf(e)) slots.insert({{x, src.form}, where(e.at)});
        if (e.k == Ev::Freed && !src.form.empty()) { string ff; for (auto* g : rels) if (g->getName() == e.what) ff = relForm[g]; if (ff.empty()) ff = formOf(e.what); if (!ff.empty() && ff != src.form) why = "it is allocated as " + src.form + " but released as " + ff; } }
      if (src.CB->getType()->isVoidTy() == false && src.slotArg < 0 && f && StringRef(fnName(f)).ends_with("::release") && src.CB->use_empty()) { // given up after its value was handed to somebody
        why = "it is given up but nobody has taken it over"; auto* obj = src.CB->getArgOperand(0)->stripPointerCasts(); DominatorTree DT(*F); for (auto& J : instructions(*F)) if (auto* G = dyn_cast<CallBase>(&J); G && G->getCalledFunction() && StringRef(fnName(G->getCalledFunction())).ends_with("::get") && G->arg_size() && G->getArgOperand(0)->stripPointerCasts() == obj) for (auto* U : G->users()) if (auto* T = dyn_cast<CallBase>(U); T && T->getCalledFunction()) for (auto& a : T->args()) if (a->stripPointerCasts() == G && takes.count({T->getCalledFunction(), T->getArgOperandNo(&a)}) && DT.dominates(T, src.CB)) { why = ""; for (auto& x : tslots[{T->getCalledFunction(), T->getArgOperandNo(&a)}]) { slots.insert({{x, src.form}, where(T)}); ownedArgAt.insert({T->getCalledFunction(), F->getName().str()}); } }
        if (!why.empty()) for (auto& J : instructions(*F)) if (auto* G = dyn_cast<CallBase>(&J); G && G->getCalledFunction() && StringRef(fnName(G->getCalledFunction())).ends_with("::get") && G->arg_size() && G->getArgOperand(0)->stripPointerCasts() == obj) for (auto* U : G->users()) if (auto* S = dyn_cast<StoreInst>(U); S && S->getValueOperand() == G) { auto* b = E.base(S->getPointerOperand()).first; for (auto& J2 : instructions(*F)) if (auto* T = dyn_cast<CallBase>(&J2); T && T->getCalledFunction() && container(T->getCalledFunction()) && DT.dominates(T, src.CB) && DT.dominates(S, T)) for (auto& a : T->args()) if (a->getType()->isPointerTy() && E.base(a).first == b) { why = ""; string n = fnName(F); if (size_t c = n.rfind("::"); c != string::npos) holders.insert(n.substr(0, c)); } } }
      R.ob(why.empty() && !E.over, "what is allocated is released, owned or handed out on every path", key, where(src.CB), E.over ? "too many ways" : why); R.count("allocations and results followed", 1); if (dbg && !why.empty()) errs() << "BAD " << key << " " << why << "\n"; if (dbg && !why.empty()) for (auto& e : es) errs() << "  " << e.k << " " << e.what << " " << where(e.at) << "\n"; } }
  // -- what the API hands out has a release function of the same form
  for (auto* F : fs) { if (!F->getName().starts_with("lg_") || rel.count(F)) continue;
    if (auto it = givesRet.find(F); it != givesRet.end()) { auto* T = pointee(argType(nullptr, true, F)); bool ok = false; string why = "no release function takes it"; for (auto* g : rels) if (g->arg_size() == 1 && pointee(argType(g->getArg(0), false, nullptr)) == T) { ok = it->second.empty() || relForm[g] == it->second; why = "it is allocated as " + it->second + " but " + fnName(g) + " releases it as " + relForm[g]; } R.ob(ok, "what the API hands out has a release function of the same form", fnName(F), whereF(F), why); } }
  std::map<const Function*, std::map<unsigned, std::set<string>>> outs; for (auto* F : fs) for (auto& src : sources(F)) { Explore E(*F, cha); setup(E); for (auto& e : E.run(src.CB, src.slotArg)) if (e.k == Ev::Out) outs[F][std::stoul(e.what)].insert(src.form); }
  for (auto& [F, m] : outs) for (auto& [k, forms] : m) { auto* T = pointee(pointee(argType(F->getArg(k), false, nullptr))); bool found = false; for (auto* g : rels) if (g->arg_size() == 1) { auto* P = pointee(argType(g->getArg(0), false, nullptr)); if (P && T && (P == T || (typeName(P) == typeName(T)))) { found = true; for (auto& fm : forms) R.ob(fm.empty() || fm == relForm[g], "what the API hands out has a release function of the same form", fnName(F) + " argument " + std::to_string(k), whereF(F), "it is allocated as " + fm + " but " + fnName(g) + " releases it as " + relForm[g]); } } R.ob(found, "what the API hands out has a release function of the same form", fnName(F) + " argument " + std::to_string(k), whereF(F), "no release function takes it"); }
  // -- plain pointers that own something
  for (auto* F : fs) if (fnName(F).find("::~") != string::npos) { InlineOpts O; O.stripEH = true; inlineAll(*F, O); }
  std::map<string, std::set<string>> freedSlots; for (auto* F : fs) for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction(); f && freeName(f->getName())) if (auto* L = dyn_cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts())) { Explore E(*F, cha); freedSlots[E.slotKey(L->getPointerOperand())].insert(formOf(f->getName())); }
  if (dbg) for (auto& [k, f] : freedSlots) errs() << "freed slot " << k << "\n";
  for (auto& [kf, at] : slots) { auto& [k, form] = kf; auto it = freedSlots.find(k); bool ok = it != freedSlots.end() && (form.empty() || it->second == std::set<string>{form}); R.ob(ok, "a pointer that owns something is released in the form it was allocated in", k, at, it == freedSlots.end() ? "nothing releases what it points to" : "it is allocated as " + form + " but released differently"); }
  // -- deleting through a base class runs the destructor of what is there
  for (auto& F : *M) { string n = fnName(&F); if (F.isDeclaration() || n.find("std::default_delete<") != 0 || n.find("::operator()") == string::npos || F.arg_size() != 2) continue;
    auto* T = dyn_cast_or_null<DICompositeType>(pointee(argType(F.getArg(1), false, nullptr))); if (!T) continue; string cn = diQualName(T); bool poly = false, derived = false; for (auto& v : cha.vts) { if (v.cls == cn) poly = true; }
    for (auto* e : T->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) poly |= d->getName().starts_with("_vptr"); for (auto* e : T->getElements()) if (auto* sp = dyn_cast<DISubprogram>(e)) poly |= sp->getVirtuality() != 0; (void)derived;
    if (!poly) continue; bool virt = false; for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) { int64_t slot; virt |= CHA::vcall(CB, &slot); }
    R.ob(virt, "deleting through a base class runs the right destructor", cn, whereF(&F), "the destructor of " + cn + " is not virtual"); R.count("deleted base classes", 1); }
  // -- what a container of plain pointers or texts holds is released with it
  std::map<string, std::set<int64_t>> need; for (auto& [kf, at] : slots) { auto& [k, form] = kf; size_t p = k.rfind('+'); need[k.substr(0, p)].insert(std::stoll(k.substr(p + 1))); }
  std::map<const Function*, std::set<string>> freesIn; for (auto* F : fs) for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction(); f && freeName(f->getName())) if (auto* L = dyn_cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts())) { string k = Explore(*F, cha).slotKey(L->getPointerOperand()); freesIn[F].insert(k.substr(0, k.rfind('+'))); }
  auto reaches = [&](const Function* F, const string& T) { std::set<const Function*> seen; std::vector<const Function*> wl{F}; while (!wl.empty()) { auto* f = wl.back(); wl.pop_back(); if (!seen.insert(f).second) continue; auto it = freesIn.find(f); if (it != freesIn.end() && it->second.count(T)) return true; for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction(); g && !g->isDeclaration()) wl.push_back(g); } return false; };
  struct Flag { string cls; int64_t off; bool skip; }; std::vector<std::pair<string, Flag>> flags;
  for (auto& [T, offs] : need) { bool byRel = false; for (auto* g : rels) byRel |= reaches(g, T); std::vector<Function*> ds; for (auto* F : fs) if (fnName(F).find("::~") != string::npos && reaches(F, T)) ds.push_back(F);
    if (byRel) { if (ds.empty()) continue; bool direct = false; for (auto* g : rels) if (freesIn.count(g) && freesIn[g].count(T)) direct = true; if (direct) continue; }
    R.ob(!ds.empty(), "what a class owns is released by its destructor", T, "", "no destructor releases it"); std::set<string> seenCls;
    for (auto* D : ds) { string cls = fnName(D).substr(0, fnName(D).find("::~")); if (!seenCls.insert(cls).second) continue; DominatorTree DT(*D); LoopInfo LI(DT); Explore E(*D, cha); std::map<int64_t, std::vector<const CallBase*>> sites;
      for (auto& I : instructions(*D)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction(); f && freeName(f->getName())) if (auto* L = dyn_cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts())) { string k = E.slotKey(L->getPointerOperand()); size_t p = k.rfind('+'); if (p != string::npos && k.substr(0, p) == T) sites[std::stoll(k.substr(p + 1))].push_back(CB); }
      for (auto off : offs) { string key = cls + ": " + T + "+" + std::to_string(off); if (sites[off].empty()) { R.ob(false, "what a class owns is released by its destructor", key, whereF(D), "it is never released"); continue; } auto* CB = sites[off][0]; auto* Ld = cast<LoadInst>(CB->getArgOperand(0)->stripPointerCasts()); auto* p = Ld->getPointerOperand(); auto* L = LI.getLoopFor(CB->getParent()); string why;
        if (L) { auto* H = L->getHeader(); std::set<const BasicBlock*> freed; for (auto* c : sites[off]) freed.insert(c->getParent()); auto nullEdge = [&](const BasicBlock* b, const BasicBlock* t) { auto* Br = dyn_cast<BranchInst>(b->getTerminator()); if (!Br || !Br->isConditional()) return false; auto* C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C || !C->isEquality()) return false; auto *x = C->getOperand(0), *y = C->getOperand(1); if (isa<ConstantPointerNull>(x)) std::swap(x, y); if (!isa<ConstantPointerNull>(y)) return false; auto* l = dyn_cast<LoadInst>(x); if (!l || E.base(l->getPointerOperand()) != E.base(p)) return false; return Br->getSuccessor(C->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1) == t; };
          std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> wl{H}; while (!wl.empty() && why.empty()) { auto* b = wl.back(); wl.pop_back(); if (!seen.insert(b).second || freed.count(b)) continue; for (auto* t : successors(b)) { if (!L->contains(t) || nullEdge(b, t)) continue; if (t == H) why = "some entries keep it"; else wl.push_back(t); } }
          // the loop starts at the first entry and goes on one by one
          auto* b = E.base(p).first; if (auto* P = dyn_cast<PHINode>(b); P && P->getParent() == H) { for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) { auto [b2, o2] = E.base(P->getIncomingValue(i)); if (L->contains(P->getIncomingBlock(i))) { auto* G = dyn_cast<GEPOperator>(P->getIncomingValue(i)->stripPointerCasts()); if (b2 == P && G && isa<StructType>(G->getSourceElementType()) && o2 != (int64_t)D->getParent()->getDataLayout().getTypeAllocSize(G->getSourceElementType())) why = "it does not go on with the next entry"; } else if (o2 != 0) why = "it does not start with the first entry"; }
            for (auto* U : P->users()) if (auto* C = dyn_cast<ICmpInst>(U)) if (C->isEquality()) { auto* o = C->getOperand(0) == P ? C->getOperand(1) : C->getOperand(0); if (auto* G = dyn_cast<GEPOperator>(o->stripPointerCasts()); G && isa<LoadInst>(E.base(G).first) && E.base(G).second != 0) why = "it stops before the last entry"; } }
          SmallVector<BasicBlock*, 4> ex; L->getExitingBlocks(ex); if (ex.size() > 1) why = "it may stop before the last entry";
          for (const Value* q = p; q; ) { q = q->stripPointerCasts(); auto* G = dyn_cast<GEPOperator>(q); if (!G) break; for (auto& ix : G->indices()) { const Value* i = ix; while (isa<CastInst>(i)) i = cast<CastInst>(i)->getOperand(0); if (auto* P2 = dyn_cast<PHINode>(i); P2 && P2->getParent() == H) for (unsigned k = 0; k < P2->getNumIncomingValues(); ++k) if (!L->contains(P2->getIncomingBlock(k))) if (auto* K = dyn_cast<ConstantInt>(P2->getIncomingValue(k)); K && !K->isZero()) why = "it does not start with the first entry"; } q = G->getPointerOperand(); }
          // what skips the loop
          auto* pre = L->getLoopPredecessor(); std::set<const BasicBlock*> s2; std::vector<const BasicBlock*> w2{&D->getEntryBlock()}; if (pre) while (!w2.empty()) { auto* b = w2.back(); w2.pop_back(); if (!s2.insert(b).second || b == H) continue; for (auto* t : successors(b)) if (!L->contains(t)) w2.push_back(t); else if (t != H) {} }
          bool skips = false; for (auto* b : s2) skips |= isa<ReturnInst>(b->getTerminator()) && !DT.dominates(H, b);
          if (skips && pre) { bool known = false; for (auto* N = DT.getNode(H)->getIDom(); N; N = N->getIDom()) { auto* Br = dyn_cast<BranchInst>(N->getBlock()->getTerminator()); if (!Br || !Br->isConditional()) continue; const Value* c = Br->getCondition(); bool neg = false; for (;;) { if (auto* T2 = dyn_cast<TruncInst>(c)) c = T2->getOperand(0); else if (auto* Z = dyn_cast<ZExtInst>(c)) c = Z->getOperand(0); else if (auto* B2 = dyn_cast<BinaryOperator>(c); B2 && B2->getOpcode() == Instruction::And && isa<ConstantInt>(B2->getOperand(1))) c = B2->getOperand(0); else if (auto* B3 = dyn_cast<BinaryOperator>(c); B3 && B3->getOpcode() == Instruction::Xor) { neg = !neg; c = B3->getOperand(0); } else if (auto* C = dyn_cast<ICmpInst>(c); C && C->isEquality() && isa<ConstantInt>(C->getOperand(1))) { bool z = cast<ConstantInt>(C->getOperand(1))->isZero(); if ((C->getPredicate() == ICmpInst::ICMP_EQ) == z) neg = !neg; c = C->getOperand(0); } else break; }
              auto* l = dyn_cast<LoadInst>(c); if (!l || !l->getType()->isIntegerTy(8)) continue; auto [fb, fo] = E.base(l->getPointerOperand()); if (fb != D->getArg(0)) continue; bool toLoop0 = DT.dominates(Br->getSuccessor(0), H); known = true; flags.push_back({T, {cls, fo, toLoop0 == neg}}); }
            (void)known; } }
        else { auto* H = CB->getParent(); (void)H; }
        R.ob(why.empty(), "what a class owns is released by its destructor", key, where(CB), why); } } }
  for (auto& cls : holders) { bool ok = false; string w; for (auto* D : fs) if (fnName(D).compare(0, cls.size() + 3, cls + "::~") == 0) { w = whereF(D); std::set<const Function*> seen; std::vector<const Function*> wl{D}; while (!wl.empty()) { auto* f = wl.back(); wl.pop_back(); if (!seen.insert(f).second) continue; for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) { int64_t slot; bool r; if (!CB->getCalledFunction() && CHA::vcall(CB, &slot)) { auto ts = cha.targets(CB, &r); for (auto* t : ts) ok |= fnName(t).find("~") != string::npos; } else if (auto* g = CB->getCalledFunction()) { ok |= fnName(g).compare(0, 20, "std::default_delete<") == 0 && fnName(g).find("::operator()") != string::npos; if (!g->isDeclaration()) wl.push_back(g); } } } }
    R.ob(ok, "what a class owns is released by its destructor", cls + " (the pointers it collects)", w, "its destructor does not release what it has collected"); }
  // -- what is only borrowed is never released: the flag that keeps it says so wherever something borrowed is stored
  std::set<string> seenFlag; for (auto& [T, fl] : flags) { if (!seenFlag.insert(T + fl.cls + std::to_string(fl.off) + (fl.skip ? "1" : "0")).second) continue; size_t n = 0; 
    for (auto* G : fs) for (auto& I : instructions(*G)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) { bool t = false; for (unsigned k = 0; k < CB->arg_size(); ++k) if (auto it = tslots.find({f, k}); it != tslots.end()) for (auto& x : it->second) t |= x.substr(0, x.rfind('+')) == T; if (!t) continue; if (fnName(G).compare(0, fl.cls.size() + 2, fl.cls + "::") != 0) continue; bool selfTake = false; for (unsigned k = 0; k < G->arg_size(); ++k) selfTake |= takes.count({G, k}) > 0; if (selfTake) continue;
        bool owned = ownedArgAt.count({f, G->getName().str()}) > 0; bool setSkip = false, setOther = false; for (auto& J : instructions(*G)) if (auto* S = dyn_cast<StoreInst>(&J)) if (auto* K = dyn_cast<ConstantInt>(S->getValueOperand()); K && K->getType()->isIntegerTy(8)) if (auto* Gp = dyn_cast<GEPOperator>(S->getPointerOperand())) if (auto* St = dyn_cast<StructType>(Gp->getSourceElementType()); St && St->getName().ends_with(fl.cls) && Explore(*G, cha).base(Gp).second == fl.off) ((!K->isZero()) == fl.skip ? setSkip : setOther) = true;
        ++n; R.ob(owned ? !setSkip : setSkip, "what is only borrowed is never released", fnName(G) + ": " + fnName(f), where(CB), owned ? "what is owned here is marked as borrowed" : "what is borrowed here is not marked as borrowed"); }
    R.count("places that lend or give", n); }
  return 0;
}
Reg r("A03", run);
}
