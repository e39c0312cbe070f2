#include "exc.h"
#include "typed.h"
#include "walk.h"
// C03: lg_add_pattern_list tries every line and reports every failure.
static const DIType* ptee(Types& Ty, const DIType* t) { t = t ? Ty.canon(t) : nullptr; return t ? Types::pointee(t) : nullptr; }
static int c03(const std::map<string, string>& args) {
  LLVMContext C; auto M = loadModule(C, args.at("--bc")); Types Ty(*M);
  Function* F = M->getFunction("lg_add_pattern_list");
  auto* FE = M->getFunction("lg_free_error");
  if (!F || !FE || F->isDeclaration()) R.error("C03: lg_add_pattern_list not found");
  auto* ET = dyn_cast_or_null<DICompositeType>(Ty.canon(ptee(Ty, Ty.argType(*FE, 0))));
  std::map<string, int64_t> fld; if (ET) for (auto* E : ET->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) fld[D->getName().str()] = D->getOffsetInBits() / 8;
  for (auto n : {"Next", "Index", "Source"}) if (!fld.count(n)) R.error("C03: LG_Error has no " + string(n));
  auto isErr = [&](const DIType* t) { auto* p = ptee(Ty, t); return p && Ty.canon(p) == ET; };
  // functions that make an error: return LG_Error*, not inlined
  std::set<const Function*> makers;
  for (auto& G : *M) if (!G.isDeclaration() && inRepo(&G) && G.getSubprogram() && G.getSubprogram()->getType()) { auto a = G.getSubprogram()->getType()->getTypeArray(); if (a.size() && a[0] && isErr(a[0])) {
      bool takesErr = false; for (unsigned i = 0; i < G.arg_size(); ++i) { auto* t = Ty.argType(G, i); auto* p = t ? ptee(Ty, t) : nullptr; if (p && (isErr(p) || Ty.canon(p) == ET)) takesErr = true; if (p) if (auto* pc = dyn_cast_or_null<DICompositeType>(Ty.canon(p))) for (auto* e : pc->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) if (d->getTag() == dwarf::DW_TAG_member && isErr(d->getBaseType())) takesErr = true; }
      if (!takesErr) makers.insert(&G); } }
  std::set<string> copiers;      // functions that copy a string: (const char*, ...) -> char*
  InlineOpts O; O.keep = [&](const Function& G) {
    if (makers.count(&G) || G.getName().starts_with("lg_")) return true;
    if (StringRef(whereF(&G)).contains("c_api")) {
      if (G.arg_size() && G.arg_size() <= 2 && G.getReturnType()->isPointerTy() && G.getSubprogram() && G.getSubprogram()->getType()) { auto a = G.getSubprogram()->getType()->getTypeArray(); auto* p = a.size() ? ptee(Ty, a[0]) : nullptr; auto* b = p ? dyn_cast_or_null<DIBasicType>(Ty.canon(p)) : nullptr; if (b && b->getSizeInBits() == 8) return true; }
      return false;
    }
    return instCount(G) > 14;
  };
  std::set<const Function*> silent;
  { ExcInfo E(*M); E.solve(); for (auto& G : *M) if (E.ofCallee(&G).empty()) silent.insert(&G); }
  inlineAll(*F, O); lowerSelects(*F);
  if (getenv("LGSA_IR")) errs() << *F;
  R.count("instructions_analysed", instCount(*F));
  // loops: over lines (calls the parser), over encodings (adds)
  DominatorTree DT(*F); LoopInfo LI(DT);
  std::set<const Loop*> lineLoops, encLoops; std::vector<CallBase*> parses, adds;
  for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) {
    if (g->getName().starts_with("lg_parse_pattern")) parses.push_back(CB);
    if (g->getName() == "lg_add_pattern") adds.push_back(CB);
  }
  if (parses.empty() || adds.empty()) R.error("C03: no call of lg_parse_pattern or lg_add_pattern in lg_add_pattern_list");
  for (auto* p : parses) { const Loop* L = LI.getLoopFor(p->getParent()); if (!L) R.ob(false, "every-line-tried", "lines", where(p), "the pattern is not parsed in a loop over the lines"); else { while (L->getParentLoop()) L = L->getParentLoop(); lineLoops.insert(L); } }
  for (auto* p : adds) { const Loop* L = LI.getLoopFor(p->getParent()); if (!L || lineLoops.count(L)) R.ob(false, "every-encoding-tried", "encodings", where(p), "the pattern is not added in a loop over the encodings"); else encLoops.insert(L); }
  if (lineLoops.size() != 1) { R.ob(false, "every-line-tried", "lines", whereF(F), "there is not one loop over the lines"); return 0; }
  const Loop* LL = *lineLoops.begin();
  R.count("loops_over_encodings", encLoops.size());
  // the line counter: starts at 0, one more on every way round
  std::map<const PHINode*, int64_t> counters;
  for (auto& P : LL->getHeader()->phis()) if (P.getType()->isIntegerTy()) {
    bool ok = true, any = false; std::optional<int64_t> start;
    for (unsigned i = 0; i < P.getNumIncomingValues(); ++i) {
      auto* v = P.getIncomingValue(i);
      if (!LL->contains(P.getIncomingBlock(i))) { auto* k = dyn_cast<ConstantInt>(v); ok &= k && k->getBitWidth() <= 64 && (!start || *start == k->getSExtValue()); if (k && k->getBitWidth() <= 64) start = k->getSExtValue(); continue; }
      std::set<const Value*> seen; std::function<bool(const Value*)> inc = [&](const Value* x) -> bool {
        if (auto* Ph = dyn_cast<PHINode>(x)) { if (Ph == &P) return false; if (!seen.insert(Ph).second) return true; for (auto& y : Ph->incoming_values()) if (!inc(y)) return false; return true; }
        auto* B = dyn_cast<BinaryOperator>(x); if (!B || B->getOpcode() != Instruction::Add) return false;
        auto* k = dyn_cast<ConstantInt>(B->getOperand(1)); return k && k->isOne() && B->getOperand(0) == &P;
      };
      ok &= inc(v); any = true;
    }
    if (ok && any && start && *start >= -1 && *start <= 0) counters[&P] = *start;
  }
  R.ob(!counters.empty(), "lines-counted", "lg_add_pattern_list", where(&*LL->getHeader()->getFirstNonPHIIt()), counters.empty() ? "no counter starts at 0 and grows by one with every line, whatever becomes of the line" : "the line number starts at 0 and grows by one on every way round the loop");
  std::vector<const Loop*> loops(encLoops.begin(), encLoops.end()); loops.push_back(LL);
  std::vector<const BasicBlock*> exiting; std::set<BasicBlock*> marks;
  for (auto* L : loops) { SmallVector<BasicBlock*, 8> ex; L->getExitingBlocks(ex); for (auto* b : ex) { if (std::find(exiting.begin(), exiting.end(), b) == exiting.end()) exiting.push_back(b); marks.insert(b); for (auto* x : successors(b)) marks.insert(x); } marks.insert(L->getHeader()); }
  for (auto* b : marks) if (b->getFirstNonPHIOrDbg()->isTerminator()) BinaryOperator::Create(Instruction::Add, ConstantInt::get(Type::getInt32Ty(C), 0), ConstantInt::get(Type::getInt32Ty(C), 0), "mark", b->getFirstNonPHIOrDbg());
  auto unwindTo = [](const BasicBlock* A, const BasicBlock* B) { auto* II = dyn_cast<InvokeInst>(A->getTerminator()); return II && II->getUnwindDest() == B; };
  // objects
  enum { FIRST = 1, LAST = 2, NEW = 3, INNER = 4, SLOT = 5, SRC = 6, MANY = 7, AL = 20 };
  enum { LINE = 1, SRCCOPY = 2, PARSE = 3, ADD = 4, SLOTVAL = 5, PTR = 1000 };
  enum { KIND = 1, FAILED, PENDING, CAUGHT, CUR, INLOOP, STATUS, SLOTSET, EVENTS, FREED, RES, INITER, PARSEOK, INENC, ENCEV, SOBJ, SOFF, FROM, FLYING };
  static std::vector<std::unique_ptr<Argument>> dummies;
  std::map<int, const Value*> cell;
  for (int k = 1; k <= 7; ++k) { dummies.push_back(std::make_unique<Argument>(PointerType::get(C, 0))); cell[k] = dummies.back().get(); }
  std::map<const Value*, int> allocaId; int na = AL;
  for (auto& I : instructions(*F)) if (isa<AllocaInst>(&I)) { allocaId[&I] = na; cell[na] = &I; ++na; }
  // the locals that may hold errors, or places for them
  std::set<const Value*> hot, hv;
  auto root = [&](const Value* P) { for (int k = 0; k < 30; ++k) { P = P->stripPointerCasts(); if (auto* G = dyn_cast<GEPOperator>(P)) P = G->getPointerOperand(); else break; } return P; };
  for (size_t before = ~size_t(0); before != hot.size() + hv.size();) {
    before = hot.size() + hv.size();
    auto mark = [&](const Value* P, auto& self) -> void {
      P = root(P);
      if (isa<AllocaInst>(P)) hot.insert(P);
      else if (auto* L = dyn_cast<LoadInst>(P)) { if (!hv.count(L)) { hv.insert(L); self(L->getPointerOperand(), self); } }
      else if (auto* Ph = dyn_cast<PHINode>(P)) { if (hv.insert(Ph).second) for (auto& x : Ph->incoming_values()) self(x, self); }
    };
    for (auto& I : instructions(*F)) {
      if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* g = CB->getCalledFunction()) {
        if (makers.count(g)) hv.insert(CB);
        if (g->getName().starts_with("lg_parse_pattern") || g->getName() == "lg_add_pattern") mark(CB->getArgOperand(CB->arg_size() - 1), mark);
        if (g->getName() == "lg_free_error") mark(CB->getArgOperand(0), mark);
      }
      if (auto* St = dyn_cast<StoreInst>(&I)) if (hv.count(root(St->getValueOperand()))) mark(St->getPointerOperand(), mark);
      if (auto* L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy() && hot.count(root(L->getPointerOperand()))) hv.insert(L);
    }
  }
  R.count("locals_with_errors", hot.size());
  const unsigned errArg = F->arg_size() - 1; const unsigned srcArg = 2;
  std::set<std::pair<string, string>> bad[6]; enum { LINES, ENCS, LOST, TAGGED, RESULT, LIST };
  struct ExitSeen { std::set<int> st; string at; const Loop* L; };
  std::map<std::pair<const BasicBlock*, const BasicBlock*>, ExitSeen> exits;
  int ends = 0; bool sawFail[2] = {false, false};
  for (int variant = 0; variant < 4; ++variant) {
    // error memory available?  error slot and source given?
    const bool mem = !(variant & 1), given = !(variant & 2);
    Walker W(*F); W.ints = true; W.maxStates = 600000;
    W.relevant = [](const Sym& s) { return s.k != Sym::Unknown && s.k != Sym::Fn; };
    W.nothrow = [&](const CallBase* CB) { auto* g = CB->getCalledFunction(); return g && (silent.count(g) || g->getName().starts_with("lg_")); };
    W.liveOnly = true; W.memKeep = [&](const Value* b) { return isa<Argument>(b) || hot.count(b); };
    WState S0;
    for (auto& [a, id] : allocaId) S0.env[a] = Sym::obj(id);
    for (auto& a : F->args()) if (a.getType()->isPointerTy()) { if (a.getArgNo() == errArg) S0.env[&a] = given ? Sym::obj(SLOT) : Sym::null(); else if (a.getArgNo() == srcArg) S0.env[&a] = given ? Sym::obj(SRC) : Sym::null(); }
    auto flag = [](WState& S, int k) { auto it = S.flag.find(k); return it == S.flag.end() ? 0 : it->second; };
    auto resolve = [&](WState& S, const Value* P, int& obj, int64_t& o) {
      o = 0;
      for (int k = 0; k < 30; ++k) {
        P = P->stripPointerCasts();
        Sym s; auto a = allocaId.find(P);
        if (a != allocaId.end()) s = Sym::obj(a->second); else { auto it = S.env.find(P); if (it != S.env.end()) s = it->second; }
        if (s.k == Sym::Val && s.id >= PTR) { obj = s.id / PTR; o += s.id % PTR; return true; }
        if (s.k == Sym::Obj) { obj = s.id; return cell.count(obj) > 0; }
        if (s.k == Sym::Null) { obj = 0; return true; }
        if (auto* G = dyn_cast<GEPOperator>(P)) { APInt x(64, 0); if (!G->accumulateConstantOffset(W.DL, x)) return false; o += x.getSExtValue(); P = G->getPointerOperand(); continue; }
        return false;
      }
      return false;
    };
    auto at = [&](WState& S, int ob, int64_t o) { auto it = S.mem.find({cell[ob], o}); return it == S.mem.end() ? Sym() : it->second; };
    auto rename = [&](WState& S, int from, int to) {
      auto ch = [&](Sym& s) { if (s.k == Sym::Obj && s.id == from) s.id = to; else if (s.k == Sym::Val && s.id >= PTR && s.id / PTR == from) s.id = to * PTR + s.id % PTR; };
      for (auto& [k, s] : S.env) ch(s);
      for (auto& [k, s] : S.mem) ch(s);
      if (flag(S, CUR) == from) S.flag[CUR] = to;
      std::map<int64_t, Sym> mv; for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == cell[from]) { mv[it->first.second] = it->second; it = S.mem.erase(it); } else ++it;
      for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == cell[to]) it = S.mem.erase(it); else ++it;
      if (to != INNER) for (auto& [o, s] : mv) S.mem[{cell[to], o}] = s;
    };
    auto boundary = [&](WState& S, Instruction* I) {
      if (flag(S, RES)) bad[RESULT].insert({where(I), "the result of lg_parse_pattern or lg_add_pattern is not looked at"});
      if (flag(S, PENDING)) {
        if (flag(S, KIND) == 0) { S.flag[KIND] = 1; rename(S, NEW, FIRST); }      // the first error: where it is kept is seen at the end
        else bad[LOST].insert({where(I), "the error of a failure is dropped"});
      }
      if (flag(S, CAUGHT)) bad[LOST].insert({where(I), "an exception is caught without an error being recorded"});
      int c = flag(S, CUR);
      if (c && flag(S, INLOOP)) {
        if (!(at(S, c, fld["Index"]) == Sym::val(LINE))) bad[TAGGED].insert({where(I), "an error does not carry the number of its line"});
        if (given && !(at(S, c, fld["Source"]) == Sym::val(SRCCOPY))) bad[TAGGED].insert({where(I), "an error does not carry the name of the source"});
      }
      S.flag.erase(CUR); S.flag.erase(PENDING); S.flag.erase(CAUGHT); S.flag.erase(RES);
    };
    auto newError = [&](WState& S) {      // an error object comes into being
      S.flag[PENDING] = 1; S.flag[CUR] = NEW; S.flag.erase(CAUGHT);
      for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == cell[NEW]) it = S.mem.erase(it); else ++it;
      S.mem[{cell[NEW], fld["Next"]}] = Sym::null(); S.mem[{cell[NEW], fld["Source"]}] = Sym::null();
    };
    auto fail = [&](WState& S, Instruction* I) { S.flag[FAILED] = 1; S.flag[STATUS] = 2; if (LL->contains(I->getParent())) S.flag[INLOOP] = 1; else S.flag.erase(INLOOP); };
    auto classify = [&](const BranchInst* Br, bool taken, bool parse, WState& N, bool& canOk, bool& canFail) {
      canOk = canFail = true;
      const Value* c = Br->getCondition(); bool t = taken;
      while (auto* B = dyn_cast<BinaryOperator>(c)) { if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { t = !t; c = B->getOperand(0); } else break; }
      auto* Ic = dyn_cast<ICmpInst>(c); auto* k = Ic ? dyn_cast<ConstantInt>(Ic->getOperand(1)) : nullptr;
      if (!k) return;
      auto sat = [&](int v) { return ICmpInst::compare(APInt(64, (int64_t)v, true), APInt(64, k->getSExtValue(), true), Ic->getPredicate()) == t; };
      if (parse) { canOk = sat(1); canFail = sat(0); } else { canOk = sat(0) || sat(1) || sat(70000); canFail = sat(-1) || sat(-2) || sat(-3); if (canOk && !(sat(0) && sat(1))) canOk = true; }
    };
    std::map<const Value*, const CallBase*> resOf; for (auto* p : parses) resOf[p] = p; for (auto* p : adds) resOf[p] = p;
    auto slotOf = [&](const CallBase* CB) { return CB->getArgOperand(CB->arg_size() - 1); };
    W.visit = [&](WState& S, Instruction* I) {
      int obj; int64_t o;
      if (isa<LandingPadInst>(I)) { if (flag(S, RES)) S.flag.erase(RES); S.flag[FLYING] = 1; }
      if (I == I->getParent()->getFirstNonPHIOrDbg()) {
        const BasicBlock* BB = I->getParent();
        if (int fr = flag(S, FROM)) {
          const BasicBlock* E = exiting[fr - 1];
          for (auto* L : loops) if (L->contains(E) && !L->contains(BB) && !unwindTo(E, BB) && !flag(S, FLYING)) { auto& x = exits[{E, BB}]; x.L = L; x.at = where(E->getTerminator()); x.st.insert(flag(S, STATUS)); }
          S.flag.erase(FROM);
        }
        for (auto* L : encLoops) if (BB == L->getHeader()) { if (flag(S, INENC) && !flag(S, ENCEV)) bad[ENCS].insert({where(I), "an encoding may be passed over"}); S.flag.erase(ENCEV); S.flag[INENC] = 1; S.flag.erase(PARSEOK); }
        bool inE = false; for (auto* L : encLoops) inE |= L->contains(BB); if (!inE) { S.flag.erase(INENC); S.flag.erase(ENCEV); }
        if (BB == LL->getHeader()) {
          if (flag(S, INITER) && !flag(S, EVENTS)) bad[LINES].insert({where(I), "a line may be passed over"});
          if (flag(S, PARSEOK)) bad[ENCS].insert({where(I), "a pattern may be parsed but not added"});
          S.flag.erase(PARSEOK); boundary(S, I); for (auto& [P, st] : counters) { if (st == 0) S.env[P] = Sym::val(LINE); else S.env.erase(P); } S.flag.erase(INLOOP); S.flag.erase(EVENTS); S.flag[INITER] = 1;
        }
        auto ex = std::find(exiting.begin(), exiting.end(), BB); if (ex != exiting.end()) S.flag[FROM] = int(ex - exiting.begin()) + 1;
      }
      if (auto* G = dyn_cast<GetElementPtrInst>(I)) { S.env.erase(G); if (resolve(S, G, obj, o) && obj && o >= 0 && o < 900) S.env[G] = o == 0 ? Sym::obj(obj) : Sym::val(obj * PTR + o); return true; }
      if (auto* B = dyn_cast<BinaryOperator>(I)) {
        S.env.erase(B);
        auto* P = dyn_cast<PHINode>(B->getOperand(0)); auto c = P ? counters.find(P) : counters.end(); auto* k = dyn_cast<ConstantInt>(B->getOperand(1));
        if (c != counters.end() && c->second && k && B->getOpcode() == Instruction::Add && k->getSExtValue() == -c->second) S.env[B] = Sym::val(LINE);
        return true;
      }
      if (auto* L = dyn_cast<LoadInst>(I)) {
        const Value* b; int64_t bo;
        if (!resolve(S, L->getPointerOperand(), obj, o)) return true;
        if (!obj) { if (L->getType()->isPointerTy()) bad[LIST].insert({where(I), "reads through a null error"}); return false; }
        Sym r = at(S, obj, o); if (obj == INNER && o == fld["Next"]) r = Sym::obj(MANY);
        if (Walker::strip(W.DL, L->getPointerOperand(), b, bo)) { if (r.k != Sym::Unknown) S.mem[{b, bo}] = r; else S.mem.erase({b, bo}); }
        return true;
      }
      if (auto* St = dyn_cast<StoreInst>(I)) {
        const bool known = resolve(S, St->getPointerOperand(), obj, o);
        if (!known || obj == MANY) {      // somewhere further down the list
          if (W.eval(S, St->getValueOperand()) == Sym::obj(NEW) && flag(S, PENDING) && flag(S, KIND)) { S.flag.erase(PENDING); if (flag(S, KIND) == 2) rename(S, LAST, INNER); S.flag[KIND] = 2; rename(S, NEW, LAST); }
          return true;
        }
        if (!obj) { bad[LIST].insert({where(I), "writes through a null pointer (" + string(given ? "error slot given" : "no error slot") + ")"}); return false; }
        Sym v = W.eval(S, St->getValueOperand());
        if (St->getValueOperand()->getType()->isPointerTy()) {
          int vo; int64_t oo; if (resolve(S, St->getValueOperand(), vo, oo) && vo && oo < 900) v = oo ? Sym::val(vo * PTR + oo) : Sym::obj(vo);
        } else { auto* x = St->getValueOperand(); while (auto* Ca = dyn_cast<CastInst>(x)) x = Ca->getOperand(0); Sym e = W.eval(S, x); if (e == Sym::val(LINE)) v = e; }
        if (obj == SLOT && o == 0) S.flag[SLOTSET] = 1;
        int kind = flag(S, KIND), last = kind == 0 ? 0 : kind == 1 ? FIRST : LAST;
        if (obj <= INNER && o == fld["Next"] && !(obj == NEW && v.k == Sym::Null)) {
          if (!(obj == last && v == Sym::obj(NEW))) bad[LIST].insert({where(I), v == Sym::obj(NEW) ? "a new error is not put behind the last one: errors are lost" : "the list of errors is cut"});
        }
        if (v.k == Sym::Unknown) S.mem.erase({cell[obj], o}); else S.mem[{cell[obj], o}] = v;
        // linked?
        if (v == Sym::obj(NEW) && flag(S, PENDING) == 1) {
          if (obj <= INNER && o == fld["Next"] && kind) {
            S.flag.erase(PENDING);
            if (kind == 2) rename(S, LAST, INNER);
            S.flag[KIND] = 2; rename(S, NEW, LAST);
          } else if (obj == SLOT && kind) bad[LIST].insert({where(I), "the errors collected before are overwritten"});
        }
        return true;
      }
      if (auto* CB = dyn_cast<CallBase>(I)) {
        auto* g = CB->getCalledFunction();
        if (!g) return true;
        StringRef n = g->getName();
        if (n == "__cxa_begin_catch") { S.flag[CAUGHT] = 1; S.flag.erase(FLYING); S.flag.erase(RES); return true; }
        if (n == "lg_free_error") { if (W.eval(S, CB->getArgOperand(0)) == Sym::obj(FIRST)) S.flag[FREED] = 1; return true; }
        bool isP = n.starts_with("lg_parse_pattern"), isA = n == "lg_add_pattern";
        if (isP || isA) {
          boundary(S, I);
          S.flag[EVENTS] = 1; S.flag[RES] = isP ? 1 : 2; if (isA) { S.flag[ENCEV] = 1; S.flag.erase(PARSEOK); }
          S.env[CB] = Sym::val(isP ? PARSE : ADD);
          if (resolve(S, CB->getArgOperand(CB->arg_size() - 1), obj, o) && obj) { S.flag[SOBJ] = obj; S.flag[SOFF] = (int)o; S.mem[{cell[obj], o}] = Sym::val(SLOTVAL); }
          else { S.flag.erase(SOBJ); if (mem && given) bad[LOST].insert({where(I), "errors are not asked for"}); }
          return true;
        }
        if (makers.count(g)) {
          S.flag.erase(CAUGHT); boundary(S, I); fail(S, I); S.flag[EVENTS] = 1;
          if (!mem) { S.env[CB] = Sym::null(); return true; }
          newError(S); S.env[CB] = Sym::obj(NEW);
          for (auto& a : CB->args()) { if (W.eval(S, a) == Sym::obj(SRC)) S.mem[{cell[NEW], fld["Source"]}] = Sym::val(SRCCOPY); if (a->getType()->isIntegerTy() && W.eval(S, a) == Sym::val(LINE)) S.mem[{cell[NEW], fld["Index"]}] = Sym::val(LINE); }
          return true;
        }
        if (CB->getType()->isPointerTy()) { S.env.erase(CB); for (auto& a : CB->args()) if (W.eval(S, a) == Sym::obj(SRC)) { S.env[CB] = Sym::val(SRCCOPY); } }
        return true;
      }
      return true;
    };
    auto outcome = [&](WState& N, Instruction* I, bool parse, bool ok) {
      N.flag.erase(RES);
      replaceSym(N, Sym::val(parse ? PARSE : ADD), Sym());
      for (auto* m : {&N.env}) for (auto it = m->begin(); it != m->end();) if (it->second.k == Sym::Unknown) it = m->erase(it); else ++it;
      for (auto it = N.mem.begin(); it != N.mem.end();) if (it->second.k == Sym::Unknown) it = N.mem.erase(it); else ++it;
      if (ok) { N.flag[STATUS] = 1; if (parse) N.flag[PARSEOK] = 1; replaceSym(N, Sym::val(SLOTVAL), Sym::null()); return; }
      fail(N, I);
      if (!mem || !flag(N, SOBJ)) { replaceSym(N, Sym::val(SLOTVAL), Sym::null()); return; }
      newError(N);
      replaceSym(N, Sym::val(SLOTVAL), Sym::obj(NEW));
      int so = flag(N, SOBJ), kind = flag(N, KIND);
      if (so <= INNER && flag(N, SOFF) == fld["Next"]) { if (kind && so == (kind == 1 ? FIRST : LAST)) { N.flag.erase(PENDING); if (kind == 2) rename(N, LAST, INNER); N.flag[KIND] = 2; rename(N, NEW, LAST); } }
    };
    W.onEdge = [&](WState& N, BranchInst* Br, bool taken) {
      const Value* c = Br->getCondition(); bool t = taken;
      while (auto* B = dyn_cast<BinaryOperator>(c)) { if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { t = !t; c = B->getOperand(0); } else break; }
      auto* Ic = dyn_cast<ICmpInst>(c); if (!Ic) return;
      Sym v = W.eval(N, Ic->getOperand(0));
      if (flag(N, RES) && (v == Sym::val(PARSE) || v == Sym::val(ADD))) {
        bool p = v == Sym::val(PARSE), canOk, canFail; classify(Br, taken, p, N, canOk, canFail);
        if (canOk && canFail) bad[RESULT].insert({where(Br), "the test does not tell success from failure"});
        outcome(N, Br, p, canOk && !canFail);
        return;
      }
      const Value* V; bool isNull;
      if (nullTest(Br, taken, V, isNull) && W.eval(N, V) == Sym::val(SLOTVAL) && flag(N, RES) && mem) outcome(N, Br, flag(N, RES) == 1, isNull);
    };
    W.atEnd = [&](WState& S, Instruction* I) {
      auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return;
      ++ends; boundary(S, I);
      Sym v = W.eval(S, Rt->getReturnValue()); bool f = flag(S, FAILED); sawFail[f] = true;
      if (f && !(v.k == Sym::Int && v.id < 0)) bad[RESULT].insert({where(I), "something failed but success may be reported"});
      if (!f && v.k != Sym::Null) bad[RESULT].insert({where(I), "nothing failed but failure may be reported"});
      if (given && mem && f && flag(S, KIND)) {
        if (!(at(S, SLOT, 0) == Sym::obj(FIRST))) bad[LIST].insert({where(I), "the error slot does not receive the list of errors from its first one"});
        else if (flag(S, FREED)) bad[LIST].insert({where(I), "the errors handed out have been freed"});
      }
      if (!f && flag(S, SLOTSET) && at(S, SLOT, 0).k != Sym::Null) bad[RESULT].insert({where(I), "the error slot is set though nothing failed"});
    };
    if (!W.run(nullptr, S0)) R.error("C03: too many paths");
    R.count("path_states", W.states);
  }
  for (auto& [e, x] : exits) if (!(x.st.count(1) && x.st.count(2))) bad[x.L == LL ? LINES : ENCS].insert({x.at, string("the loop over the ") + (x.L == LL ? "lines" : "encodings") + " is left only after " + (x.st.count(2) ? "a failure" : x.st.count(1) ? "a success" : "nothing") + ": what follows is not tried"});
  auto rep = [&](int k, const char* rule, const char* key, bool have, const char* good) {
    for (auto& [w, m] : bad[k]) R.ob(false, rule, key, w, m);
    if (bad[k].empty()) R.ob(have, rule, key, whereF(F), have ? good : "nothing was found to check");
  };
  rep(LINES, "every-line-tried", "lines", ends && !exits.empty(), "the loop over the lines ends only where the lines do, and each time round a pattern is parsed or an error recorded");
  rep(ENCS, "every-encoding-tried", "encodings", ends && !encLoops.empty(), "after a successful parse every encoding is added, whatever became of the others");
  rep(LOST, "no-failure-lost", "errors", sawFail[1], "every failed call and every handled exception has its own error, which joins the list before the next is made");
  rep(TAGGED, "error-names-line-and-source", "errors", sawFail[1], "each error made for a line carries the line counter and a copy of the source name");
  rep(LIST, "list-kept-whole", "errors", sawFail[1], "errors are linked behind the last one, and the slot receives the first");
  rep(RESULT, "result-tells-failure", "result", sawFail[0] && sawFail[1], "failure is returned exactly on the paths on which something failed");
  return 0;
}
static Reg r1("C03", c03);
