#include "beval.h"
// B08: the words reserved for a state when addresses are assigned are the words written for it later. Both functions are
// evaluated over the same unknown automaton, in every case their conditions distinguish, and the numbers compared.
using namespace be;
namespace {
typedef std::pair<std::map<string, int64_t>, int64_t> L;      // linear form
L add(L a, const L& b, int64_t k = 1) { for (auto& [n, m] : b.first) { a.first[n] += k * m; if (!a.first[n]) a.first.erase(n); } a.second += k * b.second; return a; }
string lstr(const L& l) { string s = std::to_string(l.second); for (auto& [n, m] : l.first) s += " + " + std::to_string(m) + "*" + n; return s; }
bool linOf(Eval& E, const V& v, L& o) { o = L(); std::map<string, int64_t> t; int64_t c = 0; if (!E.lin(v, t, c)) return false; for (auto& [n, m] : t) if (m) o.first[n] = m; o.second = c; return true; }
L addr(const V& p) { L l; for (auto& [n, m] : p.idx) l.first[n] = m; l.second = p.off; return l; }
struct Ctx { std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; std::unique_ptr<AssumptionCache> AC; std::unique_ptr<TargetLibraryInfoImpl> TI; std::unique_ptr<TargetLibraryInfo> TLI; std::unique_ptr<ScalarEvolution> SE;
  Ctx(Function& F) { DT.reset(new DominatorTree(F)); LI.reset(new LoopInfo(*DT)); AC.reset(new AssumptionCache(F)); TI.reset(new TargetLibraryInfoImpl(Triple(F.getParent()->getTargetTriple()))); TLI.reset(new TargetLibraryInfo(*TI)); SE.reset(new ScalarEvolution(F, *TLI, *AC, *DT, *LI)); } };
Function* byName(Module& M, const string& n) { Function* r = nullptr; for (auto& F : M) if (!F.isDeclaration() && inRepo(&F)) { string f = fnName(&F); if (f == n || StringRef(f).ends_with("::" + n)) r = &F; } return r; }
const char* whyParam = "";
// argument of the given type (the name of the class pointed to, or "int")
bool argIs(Function& F, unsigned i, const string& cls) {
  auto* A = F.getArg(i); if (cls == "int") return A->getType()->isIntegerTy(32);
  if (!A->getType()->isPointerTy()) return false;
  auto* sp = F.getSubprogram(); if (!sp) return false; auto ta = sp->getType()->getTypeArray(); if (ta.size() <= i + 1) return false;
  const DIType* t = ta[i + 1]; while (t) { if (auto* d = dyn_cast<DIDerivedType>(t)) { t = d->getBaseType(); continue; } break; }
  return t && t->getName().starts_with(cls);
}
int run(const std::map<string, string>& args) {
  LLVMContext C; auto M = loadModule(C, args.at("--bc"));
  auto *enc = byName(*M, "encodeState"), *fin = byName(*M, "CodeGenVisitor::finish_vertex"), *tab = byName(*M, "createJumpTable"), *calc = byName(*M, "CodeGenVisitor::calcJumpTableSize"), *visit = byName(*M, "specialVisit"), *prog = byName(*M, "Compiler::createProgram"), *disc = byName(*M, "CodeGenVisitor::discover_vertex"), *land = byName(*M, "figureOutLanding");
  if (!enc || !fin || !tab || !calc || !visit || !prog || !disc) { R.error("the code generator's functions were not found"); return 0; }
  std::set<Function*> box{enc, fin, tab, calc, disc}; if (land) box.insert(land);
  auto graphFn = [](const Function& f) { string n = fnName(&f); return StringRef(n).starts_with("Graph<") && n.find(">::") != string::npos; };
  auto opts = [&](Function* self) { InlineOpts O; O.stripEH = true; O.keep = [&, self](const Function& g) { return graphFn(g) || (&g != self && box.count(const_cast<Function*>(&g))) || StringRef(fnName(&g)).ends_with("pivotStates"); }; return O; };
  // --- order of the passes: every state is discovered before the first address is assigned
  { inlineAll(*visit, opts(visit)); std::vector<Instruction*> ds, fs; for (auto& I : instructions(*visit)) if (auto* CB = dyn_cast<CallBase>(&I)) { if (CB->getCalledFunction() == disc) ds.push_back(&I); if (CB->getCalledFunction() == fin) fs.push_back(&I); }
    bool ok = !ds.empty() && !fs.empty(); string m = "no call found"; for (auto* f : fs) for (auto* d : ds) if (isPotentiallyReachable(f, d)) { ok = false; m = "a state can be discovered after addresses were assigned"; }
    // each address assignment is in a loop over the list that discovery filled: as many elements, same order
    R.ob(ok, "every state is ranked before addresses are assigned", "specialVisit", whereF(visit), m); }
  // --- evaluation of the two sides
  struct Side { std::vector<Out> outs; std::unique_ptr<Eval> E; std::unique_ptr<Ctx> X; };
  const DataLayout& DL = M->getDataLayout();
  auto hookFor = [&](Eval& E, const CallBase* CB, const std::vector<V>& a, V& r) -> bool {
    auto* f = CB->getCalledFunction(); unsigned n = CB->getType()->isIntOrPtrTy() ? DL.getTypeStoreSize(CB->getType()).getFixedValue() : 0; string s;
    if (f && graphFn(*f)) { string q = fnName(f); s = q.substr(q.rfind("::") + 2); }
    else if (!f) { int64_t slot; if (!CHA::vcall(CB, &slot)) return false; s = "virtual" + std::to_string(slot); }
    else return false;
    s += "("; for (size_t i = 0; i < a.size(); ++i) { if (!f && i) break; s += (i ? "," : "") + str(a[i]); }
    s += ")"; r = n == 0 ? V() : CB->getType()->isPointerTy() ? ptr(s) : sym(s, n); return true; };
  auto bind = [&](Function& F, Eval& E) -> bool {
    bool g = false, c = false; unsigned k = 0;
    for (unsigned i = 0; i < F.arg_size(); ++i) { auto* A = F.getArg(i);
      if (argIs(F, i, "Graph<")) { E.args[A] = ptr("graph"); g = true; } else if (argIs(F, i, "CodeGenHelper")) { E.args[A] = ptr("cg"); c = true; }
      else if (argIs(F, i, "CodeGenVisitor")) { E.args[A] = ptr("visitor"); E.pm0[{"visitor", 0}] = ptr("cg"); c = true; }
      else if (argIs(F, i, "Instruction")) { auto* t = F.getSubprogram()->getType()->getTypeArray()[i + 1]; bool konst = false; for (const DIType* q = t; q;) { auto* d = dyn_cast<DIDerivedType>(q); if (!d) break; if (d->getTag() == dwarf::DW_TAG_pointer_type) { auto* b = d->getBaseType(); if (b && b->getTag() == dwarf::DW_TAG_const_type) konst = true; } q = d->getBaseType(); } E.args[A] = ptr(konst ? "base" : "code"); }
      else if (A->getType()->isIntegerTy(32)) E.args[A] = sym(k++ ? "arg" + std::to_string(k) : string("v"), 4); else if (A->getType()->isPointerTy()) E.args[A] = ptr("argp" + std::to_string(i)); }
    E.stable = {"graph", "visitor", "base"}; return g && c; };
  const string V4 = "[v+0.v+1.v+2.v+3]";
  // the size of a jump table: nothing, or a table that needs more than three ways out
  string opAtom; { inlineAll(*calc, opts(calc)); Eval E(*calc); if (!bind(*calc, E)) { R.error("the parameters of " + fnName(calc) + " are not understood"); return 0; }
    std::set<int64_t> big; bool seenTab = false, seenNone = false, ok = true, deg = true; string m; V opAt;
    // every path: does it store the kind of the state, and what is returned
    auto* OD = calc->arg_size() ? calc->getArg(calc->arg_size() - 1) : nullptr;
    std::vector<StoreInst*> marks; for (auto& I : instructions(*calc)) if (auto* S = dyn_cast<StoreInst>(&I)) { auto* b = S->getPointerOperand(); const Value* o = b; int64_t hops = 0; while (hops++ < 6) { if (auto* G = dyn_cast<GEPOperator>(o)) o = G->getPointerOperand(); else if (auto* Ld = dyn_cast<LoadInst>(o)) o = Ld->getPointerOperand(); else break; } if (o == calc->getArg(0)) marks.push_back(S); }
    // every way through the function, each block entered at most twice; variables that are constant on a way decide its branches
    { std::map<const BasicBlock*, int> seen; size_t ways = 0; bool tooMany = false; std::set<string> done;
      std::function<void(const BasicBlock*, const BasicBlock*, std::map<const Value*, const Value*>, bool, int64_t)> walk = [&](const BasicBlock* bb, const BasicBlock* from, std::map<const Value*, const Value*> env, bool marked, int64_t deg0) {
        if (tooMany || seen[bb] >= 2) return; if (++ways > 200000) { tooMany = true; return; }
        auto at = [&](const Value* v) { auto it = env.find(v); return it == env.end() ? v : it->second; };
        if (from) { std::vector<std::pair<const Value*, const Value*>> up; for (auto& P : bb->phis()) { auto* x = at(P.getIncomingValueForBlock(from)); up.push_back({&P, isa<Constant>(x) ? x : nullptr}); } for (auto& [p, x] : up) if (x) env[p] = x; else env[p] = p; }
        for (auto& I : *bb) if (!isa<PHINode>(I)) env.erase(&I);
        for (auto* S : marks) if (S->getParent() == bb) marked = true;
        auto* T = bb->getTerminator();
        if (auto* Rt = dyn_cast<ReturnInst>(T)) { auto* v = at(Rt->getReturnValue()); if (isa<UndefValue>(v)) return; auto* c = dyn_cast<ConstantInt>(v);
          if (c && c->isZero()) { seenNone = true; if (marked) { ok = false; m = "a state is marked as a jump table although no room is reserved for one"; } }
          else { seenTab = true; if (!marked) { ok = false; m = "room is reserved for a jump table the state is not marked for"; } if (deg0 < 2) deg = false; else big.insert(deg0); }
          return; }
        ++seen[bb];
        std::function<std::optional<bool>(const Value*)> truth = [&](const Value* c) -> std::optional<bool> { c = at(c); if (auto* k = dyn_cast<ConstantInt>(c)) return !k->isZero(); if (auto* ic = dyn_cast<ICmpInst>(c)) if (auto *x = dyn_cast<ConstantInt>(at(ic->getOperand(0))), *y = dyn_cast<ConstantInt>(at(ic->getOperand(1))); x && y) return ICmpInst::compare(x->getValue(), y->getValue(), ic->getPredicate()); return {}; };
        for (unsigned i = 0; i < T->getNumSuccessors(); ++i) { auto* to = T->getSuccessor(i); int64_t d = deg0; auto env2 = env;
          if (auto* Br = dyn_cast<BranchInst>(T); Br && Br->isConditional()) { auto k = truth(Br->getCondition()); if (k && *k != (i == 0)) continue; if (!isa<Constant>(Br->getCondition())) env2[Br->getCondition()] = ConstantInt::getBool(C, i == 0);
            if (auto* ic = dyn_cast<ICmpInst>(Br->getCondition())) if (OD && ic->getOperand(0) == OD) if (auto* n = dyn_cast<ConstantInt>(ic->getOperand(1))) { auto p = i == 0 ? ic->getPredicate() : ic->getInversePredicate(); int64_t x = n->getZExtValue(); if (p == ICmpInst::ICMP_UGT) d = std::max(d, x + 1); if (p == ICmpInst::ICMP_UGE) d = std::max(d, x); } }
          if (auto* Sw = dyn_cast<SwitchInst>(T)) { auto* v = at(Sw->getCondition()); if (isa<UndefValue>(v)) continue; if (auto* k = dyn_cast<ConstantInt>(v)) if (Sw->findCaseValue(k)->getCaseSuccessor() != to) continue; }
          walk(to, bb, env2, marked, d); }
        --seen[bb]; };
      walk(&calc->getEntryBlock(), nullptr, {}, false, 0); if (tooMany) { R.error("too many ways through " + fnName(calc)); return 0; } }
    if (marks.size() != 1) { ok = false; m = std::to_string(marks.size()) + " places mark a state as a jump table"; }
    int64_t code = -1; if (marks.size() == 1) if (auto* k = dyn_cast<ConstantInt>(marks[0]->getValueOperand())) code = k->getZExtValue();
    R.ob(ok && seenTab && seenNone, "a state is marked as a jump table exactly when room is reserved for one", fnName(calc), whereF(calc), m.empty() ? "a case is missing" : m);
    R.ob(deg, "only a state with several ways out has a jump table", fnName(calc), whereF(calc), "a jump table is possible with any number of ways out");
    if (marks.empty() || code < 0) { R.error("the mark of a jump table was not found"); return 0; }
    // the address of the mark, as the other functions will see it
    { Eval A(*calc); bind(*calc, A); APInt off(64, 0); (void)off; A.hook = [&](Eval& e, const CallBase* CB, const std::vector<V>& a, V& r) { return hookFor(e, CB, a, r); };
      int64_t fld = -1; if (auto* G = dyn_cast<GEPOperator>(marks[0]->getPointerOperand())) { MapVector<Value*, APInt> vs; APInt c(64, 0); if (G->collectOffset(DL, 64, vs, c)) fld = c.getSExtValue(); }
      if (fld < 0) { R.error("the mark of a jump table was not found"); return 0; }
      opAtom = std::to_string(fld) + "|" + std::to_string(code) + "|" + std::to_string(big.empty() ? 4 : *big.begin()); } }
  int64_t opField = std::stoll(opAtom.substr(0, opAtom.find('|'))), opCode = std::stoll(opAtom.substr(opAtom.find('|') + 1)), minDeg = std::stoll(opAtom.substr(opAtom.rfind('|') + 1));
  // reserving
  inlineAll(*fin, opts(fin)); inlineAll(*enc, opts(enc));
  Eval EF(*fin); Ctx XF(*fin); EF.LI = XF.LI.get(); EF.SE = XF.SE.get(); if (!bind(*fin, EF)) { R.error("the parameters of " + fnName(fin) + " are not understood"); return 0; }
  EF.hook = [&](Eval& e, const CallBase* CB, const std::vector<V>& a, V& r) {
    if (hookFor(e, CB, a, r)) return true;
    if (CB->getCalledFunction() == calc) { if (e.ask("is table", {0, 1})) { r = sym("J", 4); e.fixed["eq 0 [J+0.J+1.J+2.J+3]"] = 0; } else r = con(0, 4); return true; }
    return false; };
  Eval EE(*enc); Ctx XE(*enc); EE.LI = XE.LI.get(); EE.SE = XE.SE.get(); if (!bind(*enc, EE)) { R.error("the parameters of " + fnName(enc) + " are not understood"); return 0; }
  EE.record = [&](const CallBase* CB) { return CB->getCalledFunction() == tab; }; EE.stable.insert("cg"); EE.stable.insert("code");
  EE.hook = [&](Eval& e, const CallBase* CB, const std::vector<V>& a, V& r) { if (CB->getCalledFunction() == tab) { e.o.calls.push_back({CB, {}, a}); r = V(); return true; } return hookFor(e, CB, a, r); };
  std::vector<Out> fo, eo; try { fo = EF.all(); eo = EE.all(); } catch (Stuck& s) { R.error("cannot follow the code generator: " + s.why); return 0; }
  R.count("cases of reserving", fo.size()); R.count("cases of writing", eo.size());
  // fields of the layout record, by name
  int64_t oStart = -1, oEval = -1, oOther = -1, oGuard = -1, oSnip = -1; 
  int64_t recSize = 0; if (auto* K = findClass(*M, "StateLayoutInfo")) recSize = K->getSizeInBits() / 8;
  if (auto* K = findClass(*M, "StateLayoutInfo")) for (auto* e : K->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) { if (d->getName() == "Start") oStart = d->getOffsetInBits() / 8; if (d->getName() == "NumEval") oEval = d->getOffsetInBits() / 8; if (d->getName() == "NumOther") oOther = d->getOffsetInBits() / 8; }
  if (auto* K = findClass(*M, "CodeGenHelper")) for (auto* e : K->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) { if (d->getName() == "Guard") oGuard = d->getOffsetInBits() / 8; if (d->getName() == "Snippets") oSnip = d->getOffsetInBits() / 8; }
  if (oStart < 0 || oEval < 0 || oOther < 0 || oGuard < 0 || oSnip < 0) { R.error("the fields of the layout record were not found"); return 0; }
  string snip = "load(cg+" + std::to_string(oSnip) + ")";
  struct Res { L total, eval; bool table; std::map<string, int64_t> asg; };
  std::vector<Res> fr;
  for (auto& o : fo) { if (o.thrown) continue; if (o.looped) { R.ob(false, "the next state starts where the one before ends", fnName(fin), whereF(fin), "the number of turns of a loop could not be established"); continue; }
    V st, ev, ot, gd; for (auto& [p, v] : o.stores) if (p.k == V::Ptr) { if (p.root == snip && !p.idx.empty()) { if (p.off == oStart) st = v; if (p.off == oEval) ev = v; if (p.off == oOther) ot = v; } if (p.root == "cg" && p.off == oGuard && p.idx.empty()) gd = v; }
    L s, e, t, g; if (!linOf(EF, st, s) || !linOf(EF, ev, e) || !linOf(EF, ot, t) || !linOf(EF, gd, g)) { R.ob(false, "reserving records where a state starts and how long it is", fnName(fin), whereF(fin), "start, lengths or end of a state are not stored in some case"); continue; }
    L all = add(e, t); L want = add(s, all); bool guardOk = g == want;
    // the length a jump table adds is its own unknown
    R.ob(guardOk, "the next state starts where the one before ends", fnName(fin), whereF(fin), "a state of " + lstr(all) + " words starting at " + lstr(s) + " is followed by one at " + lstr(g));
    R.ob(s.first.size() == 1 && s.second == 0 && s.first.begin()->first.find("cg+" + std::to_string(oGuard)) != string::npos, "a state starts at the end of the states before it", fnName(fin), whereF(fin), "it starts at " + lstr(s));
    Res r; r.total = all; r.eval = e; r.asg = o.asg; r.table = o.asg.count("is table") && o.asg.at("is table") == 1; fr.push_back(r); }
  // writing: the words written must follow each other without gaps
  struct W { L total; bool table; std::map<string, int64_t> asg; L upTo; };
  std::vector<W> wr; size_t writes = 0, targets = 0;
  // the body of a loop over the ways out writes as much as it advances
  // what a word of a state that is neither an operation code nor carries its operand in itself may be: the start of the record of
  // a way out, or the place behind the last state where the end of a match is handled
  const string reach = "load4(" + snip + "+" + std::to_string(recSize) + "*outVertex(", tailS = oStart ? "+" + std::to_string(oStart) + ")" : ")";
  std::set<const BasicBlock*> loopsDone;
  auto wordOk = [&](const V& v) { string s = str(v); if (v.k != V::Int) return; if (s.find("cg") == string::npos && s.find("outVertex") == string::npos && s.find("graph") == string::npos) return; if (s[0] == '[' && s.size() > 1 && isdigit((unsigned char)s[1])) return;   // an operation code with its operand
    ++targets; L l; bool fin = linOf(EE, v, l) && l.second == 1 && l.first.size() == 1 && l.first.begin()->second == 1 && StringRef(l.first.begin()->first).starts_with("[cg+" + std::to_string(oGuard) + ".");
    bool way = false; if (StringRef(s).starts_with(reach) && StringRef(s).ends_with(tailS)) { int d = 1; size_t j = reach.size(); for (; j < s.size() && d; ++j) { if (s[j] == '(') ++d; if (s[j] == ')') --d; } way = s.substr(j) == tailS; }
    R.ob(fin || way, "jumps lead to the first word of a state", fnName(enc), whereF(enc), "a jump leads to " + s); };
  auto loopBody = [&](const Loop* Lp, string& why) -> int64_t {
    Eval B(*enc); bind(*enc, B); B.stable = EE.stable; B.hook = EE.hook; B.startAt = Lp->getHeader(); B.stopAt = Lp->getHeader(); B.within = Lp; B.LI = nullptr;
    const PHINode* cur = nullptr; for (auto& P : Lp->getHeader()->phis()) { if (P.getType()->isPointerTy()) { cur = &P; B.env0[&P] = ptr("here"); } else B.env0[&P] = sym("i", DL.getTypeStoreSize(P.getType()).getFixedValue()); }
    if (!cur) { why = "it has no place to write to"; return -1; }
    // values from before the loop
    std::vector<Out> os; for (auto& o : eo) { bool in = false; for (auto& [l, s] : o.loops) in |= l == Lp; if (!in) continue; }
    std::vector<Out> bo; for (auto& [k, v] : EE.env) if (!B.env0.count(k)) B.env0[k] = v;   // a representative: names of memory are the same in every case
    try { bo = B.all(); } catch (Stuck& s) { why = s.why; return -1; }
    int64_t step = -1;
    for (auto& o : bo) { if (o.thrown || o.left) continue; if (loopsDone.insert(Lp->getHeader()).second) for (size_t i = 0; i < o.stores.size(); ++i) if (auto& [p, v] = o.stores[i]; p.k == V::Ptr && p.root == "here" && o.sizes[i] == 4) wordOk(v); if (o.looped) { why = "an inner loop"; return -1; }
      std::vector<std::pair<int64_t, int64_t>> iv; for (size_t i = 0; i < o.stores.size(); ++i) { auto& p = o.stores[i].first; if (p.k == V::Ptr && p.root == "here") { if (!p.idx.empty()) { why = "a place is not understood"; return -1; } iv.push_back({p.off, o.sizes[i]}); } }
      if (iv.empty()) { why = "a turn writes nothing"; return -1; }
      std::sort(iv.begin(), iv.end()); int64_t at = 0; for (auto& [a, n] : iv) { if (a != at) { why = "it leaves a gap or writes twice at byte " + std::to_string(at); return -1; } at += n; }
      if (step >= 0 && step != at) { why = "it writes different amounts"; return -1; } step = at; }
    return step; };
  for (auto& o : eo) { if (o.thrown) continue; if (o.looped) { R.ob(false, "the words of a state are written one after the other", fnName(enc), whereF(enc), "the number of turns of a loop that writes words could not be established"); continue; }
    W w; w.asg = o.asg; w.table = false;
    struct Iv { L at; L len; string what; }; std::vector<Iv> iv; bool bad = false; string why;
    // virtual toInstruction writes as many words as the transition announces (B07)
    for (auto& I : instructions(*enc)) (void)I;
    for (size_t i = 0; i < o.stores.size(); ++i) { auto& p = o.stores[i].first; if (p.k == V::Ptr && p.root == "code") { iv.push_back({addr(p), L({}, o.sizes[i]), "a word"}); ++writes; } }
    for (auto& [lp, ins] : o.loops) { const PHINode* c = nullptr; for (auto& P : lp->getHeader()->phis()) if (P.getType()->isPointerTy()) { auto it = ins.find(&P); if (it != ins.end() && it->second.k == V::Ptr && it->second.root == "code") c = &P; }
      if (!c) continue; string lw; int64_t st = loopBody(lp, lw); auto* A = dyn_cast<SCEVAddRecExpr>(XE.SE->getSCEV(const_cast<PHINode*>(c))); int64_t adv = A ? cast<SCEVConstant>(A->getStepRecurrence(*XE.SE))->getAPInt().getSExtValue() : -1;
      R.ob(st == adv && st > 0, "a loop over the ways out advances by what it writes", fnName(enc) + " loop", where(&*lp->getHeader()->getFirstNonPHIOrDbg()), st < 0 ? "not understood: " + lw : "it writes " + std::to_string(st) + " bytes and advances by " + std::to_string(adv));
      // number of turns, in bytes
      L n; bool got = false; auto* N = XE.SE->getBackedgeTakenCount(lp); if (!isa<SCEVCouldNotCompute>(N)) { // from the final value of the cursor
        got = true; }
      (void)got; V fin2; // recompute with the same evaluator is not possible here: derive the length from the next write or the end
      iv.push_back({addr(ins.at(c)), L({{"#loop", 1}}, 0), "loop"}); }
    for (auto& c : o.calls) { w.table = true; for (auto& a : c.args) if (a.k == V::Ptr && a.root == "code") w.upTo = addr(a); }
    // the chain
    L cur; // starts behind the transition's own words, if it has any
    { bool first = false; std::vector<L> starts; for (auto& x : iv) { bool nev = false; for (auto& [n, m] : x.at.first) nev |= StringRef(n).starts_with("virtual"); (void)nev; } (void)first; }
    std::map<string, int64_t> ev; for (auto& x : iv) for (auto& [n, m] : x.at.first) if (StringRef(n).starts_with("virtual")) ev[n] = m;
    for (auto& [n, m] : w.upTo.first) if (StringRef(n).starts_with("virtual")) ev[n] = m;
    std::vector<bool> used(iv.size()); bool hasTrans = false; for (auto& [q, v] : o.asg) if (q.find("null") != string::npos && StringRef(q).starts_with("eq ")) hasTrans = v == 0;
    string evName; for (auto& [n, m] : ev) evName = n;
    if (hasTrans) { if (evName.empty()) { for (auto& r : fr) for (auto& [n, m] : r.eval.first) if (StringRef(n).starts_with("virtual")) evName = n; } cur.first[evName] = 4; }
    L end = cur; size_t left = iv.size(); bool prog2 = true;
    while (prog2) { prog2 = false; for (size_t i = 0; i < iv.size(); ++i) if (!used[i] && iv[i].at == end) { used[i] = true; --left; prog2 = true;
        if (iv[i].what == "loop") { // its length: up to the write that follows it with the same base, or 8 bytes for each further way out
          auto lp = std::find_if(o.loops.begin(), o.loops.end(), [&](auto& x) { for (auto& [k, v] : x.second) if (v.k == V::Ptr && v.root == "code" && addr(v) == end) return true; return false; });
          auto* N = XE.SE->getBackedgeTakenCount(lp->first); std::map<string, int64_t> t; int64_t c = 0; const PHINode* cp = nullptr; for (auto& P : lp->first->getHeader()->phis()) if (P.getType()->isPointerTy()) cp = &P;
          auto* A = cast<SCEVAddRecExpr>(XE.SE->getSCEV(const_cast<PHINode*>(cp))); int64_t st = cast<SCEVConstant>(A->getStepRecurrence(*XE.SE))->getAPInt().getSExtValue();
          // the counter runs down from the number of ways out: take it from its value on entry
          L cnt; bool ok = false; for (auto& [k, v] : lp->second) if (v.k == V::Int) { auto* AR = dyn_cast<SCEVAddRecExpr>(XE.SE->getSCEV(const_cast<Value*>(k))); if (!AR || !isa<SCEVConstant>(AR->getStepRecurrence(*XE.SE))) continue; L v0; if (!linOf(EE, v, v0)) continue;
            // backedge count = start-dependent: N - start is a constant when the counter steps by -1
            auto* D = XE.SE->getMinusSCEV(N, AR->getStart()); auto* S2 = XE.SE->getAddExpr(N, AR->getStart()); 
            if (auto* K = dyn_cast<SCEVConstant>(D)) { cnt = v0; cnt.second += K->getAPInt().getSExtValue(); ok = true; break; }
            if (v0.first.empty()) { // counts up to a limit: the limit is a value from before the loop
              std::map<string, int64_t> tt; int64_t cc = 0; if (auto* S = dyn_cast<SCEVAddExpr>(N)) (void)S; } (void)S2; }
          if (!ok) { V nv; std::map<string, int64_t> tt; int64_t cc = 0; struct Sc { static bool go(const SCEV* S, L& l, int64_t k, const std::map<const Value*, V>& env, Eval& E) { if (auto* K = dyn_cast<SCEVConstant>(S)) { l.second += k * K->getAPInt().getSExtValue(); return true; } if (auto* A = dyn_cast<SCEVAddExpr>(S)) { for (auto* x : A->operands()) if (!go(x, l, k, env, E)) return false; return true; } if (isa<SCEVCastExpr>(S)) return go(cast<SCEVCastExpr>(S)->getOperand(), l, k, env, E); if (auto* U = dyn_cast<SCEVUnknown>(S)) { auto it = env.find(U->getValue()); if (it == env.end()) return false; L x; if (!linOf(E, it->second, x)) return false; l = add(l, x, k); return true; } return false; } };
            if (isa<SCEVCouldNotCompute>(N) || !Sc::go(N, cnt, 1, EE.env, EE)) { bad = true; why = "the number of turns of a loop is not understood"; break; } }
          for (auto& [n, m] : cnt.first) end.first[n] += st * m; end.second += st * cnt.second; for (auto it = end.first.begin(); it != end.first.end();) if (!it->second) it = end.first.erase(it); else ++it; }
        else end = add(end, iv[i].len); } if (bad) break; }
    if (left) { bad = true; for (size_t i = 0; i < iv.size(); ++i) if (!used[i]) { why = "a word is written at " + lstr(iv[i].at) + " bytes, but the words before it end at " + lstr(end); break; } }
    if (w.table && !(w.upTo == end)) { bad = true; why = "the jump table is put at " + lstr(w.upTo) + " bytes, but the words before it end at " + lstr(end); }
    R.ob(!bad, "the words of a state are written one after the other", fnName(enc), whereF(enc), why);
    w.total = end; wr.push_back(w);
    // where its jumps and forks go
    for (size_t i = 0; i < o.stores.size(); ++i) if (auto& [p, v] = o.stores[i]; p.k == V::Ptr && p.root == "code" && o.sizes[i] == 4) wordOk(v);
  }
  R.count("words and targets looked at", writes); R.count("jump targets", targets);
  // --- comparison in every case both can be in
  const string opAtomName = "load4(" + snip + "+"; size_t pairs = 0; std::set<string> said;
  string vZero = "eq " + string("0 ") + V4; string degS; 
  for (auto& w : wr) for (auto& [q, v] : w.asg) { size_t i = q.find("outDegree("); if (i != string::npos) { int d = 0; size_t j = i + 10; for (; j < q.size(); ++j) { if (q[j] == '(') ++d; if (q[j] == ')') { if (!d) break; --d; } } degS = q.substr(i, j - i + 1); } }
  for (auto& f : fr) for (auto& w : wr) {
    bool start = f.asg.count(vZero) && f.asg.at(vZero) == 1, ok = true; std::map<string, int64_t> all = f.asg;
    for (auto& [q, v] : w.asg) { auto it = all.find(q); if (it != all.end() && it->second != v) { ok = false; break; } all[q] = v; }
    if (!ok) continue;
    // the start state, and only it, has no transition; it has no label, is no match and is entered by nothing
    bool noTrans = false, knowT = false; for (auto& [q, v] : w.asg) if (StringRef(q).starts_with("eq ") && q.find("null") != string::npos && q.find("operator[]") != string::npos) { noTrans = v == 1; knowT = true; }
    if (knowT && f.asg.count(vZero) && noTrans != start) continue;
    if (start) { bool extra = false; for (auto& [q, v] : f.asg) { if (StringRef(q).starts_with("eq 4294967295 ") && v == 0) extra = true; if (q.find("operator[]") != string::npos && q.find("and(") != string::npos && StringRef(q).starts_with("eq 0 ") && v == 0) extra = true; } if (extra) continue; }
    // the mark
    bool markT = false, knowM = false; for (auto& [q, v] : w.asg) if (q.find(snip) != string::npos && q.find("+" + std::to_string(opField) + ")") != string::npos && StringRef(q).starts_with("eq " + std::to_string(opCode) + " ")) { markT = v == 1; knowM = true; }
    bool isT = f.table; if (knowM && markT != isT) continue;
    // what is known about the number of ways out
    bool sat = degS.empty(); int64_t forced = -1, nsat = 0; if (!degS.empty()) for (int64_t d : {0, 1, 2, 3, 4, 5, 6, 7, 8, 1000}) { bool c = true; for (auto& [q, v] : all) { if (q.find(degS) == string::npos) continue; string a = q.substr(q.find(' ') + 1); string op = q.substr(0, q.find(' ')); string l = a, r2; 
          if (StringRef(a).ends_with(" " + degS)) { l = a.substr(0, a.size() - degS.size() - 1); if (l.find_first_not_of("0123456789") != string::npos) continue; int64_t k = std::stoll(l); bool t = op == "eq" ? k == d : k < d; if (t != (v != 0)) c = false; }
          else if (StringRef(a).starts_with(degS + " ")) { r2 = a.substr(degS.size() + 1); if (r2.find_first_not_of("0123456789") != string::npos) continue; int64_t k = std::stoll(r2); bool t = op == "eq" ? k == d : d < k; if (t != (v != 0)) c = false; } }
        if (isT && d < minDeg) c = false; if (c) { sat = true; ++nsat; forced = d; } }
    if (!sat) continue; ++pairs;
    L res = f.total, wri = w.total; for (auto* l : {&res, &wri}) if (nsat == 1 && forced < 1000 && l->first.count(degS)) { l->second += forced * l->first[degS]; l->first.erase(degS); }
    L resB; for (auto& [n, m] : res.first) resB.first[n] = 4 * m; resB.second = 4 * res.second; string J = "[J+0.J+1.J+2.J+3]";
    if (isT) { if (w.table) wri.first[J] += 4; }
    string cs; for (auto& [q, v] : all) { if (q.find("ult") == 0 && q.find("16777") != string::npos) continue; cs += (v ? " " : " not ") + q + ";"; }
    bool same = resB == wri; string key = string(start ? "start state" : "state") + (isT ? ", jump table" : "");
    if (!same || said.insert(key).second || true) R.ob(same, "as many words are reserved for a state as are written", key, whereF(fin), "reserved: " + lstr(resB) + " bytes, written: " + lstr(wri) + " bytes, in the case" + cs);
  }
  R.count("cases compared", pairs); if (!pairs) { R.error("no common case of reserving and writing"); return 0; }
  // --- a jump table that does not end where the state ends is refused
  { inlineAll(*tab, opts(tab)); DominatorTree DT(*tab); bool ok = true; string m; size_t rets = 0;
    for (auto& BB : *tab) if (isa<ReturnInst>(BB.getTerminator())) { ++rets; bool eq = false;
      for (auto& [cond, t] : domConds(&BB, DT)) { auto* ic = dyn_cast<ICmpInst>(cond); if (!ic || !ic->isEquality() || (ic->getPredicate() == ICmpInst::ICMP_EQ) != t) continue;
        // one side: a difference of pointers to words; other: the sum of the three numbers of the layout record
        std::set<int64_t> flds; bool diff = false; std::function<void(const Value*, int)> walk = [&](const Value* v, int d) { if (d > 10) return; if (auto* L2 = dyn_cast<LoadInst>(v)) { if (auto* G = dyn_cast<GEPOperator>(L2->getPointerOperand())) { MapVector<Value*, APInt> vs; APInt c(64, 0); if (G->collectOffset(DL, 64, vs, c)) flds.insert(c.getSExtValue()); } else flds.insert(0); return; } if (isa<PtrToIntInst>(v)) { diff = true; return; } if (auto* I = dyn_cast<Instruction>(v)) if (isa<BinaryOperator>(I) || isa<CastInst>(I)) for (auto& o : I->operands()) walk(o, d + 1); };
        walk(ic->getOperand(0), 0); walk(ic->getOperand(1), 0); if (diff && flds.count(oStart) && flds.count(oEval) && flds.count(oOther)) eq = true; }
      if (!eq) { ok = false; m = "it returns without having compared the end of the table with the end of the state"; } }
    R.ob(ok && rets, "a jump table that does not end with its state is refused", fnName(tab), whereF(tab), m); }
  // --- the whole program: each state at its start, and room for the words behind the last one
  { inlineAll(*prog, opts(prog)); size_t calls = 0; bool ok = true; string m; for (auto& I : instructions(*prog)) if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->getCalledFunction() == enc) { ++calls; Value *vArg = nullptr, *code = nullptr; for (unsigned i = 0; i < CB->arg_size(); ++i) { if (enc->getArg(i)->getType()->isIntegerTy(32)) vArg = CB->getArgOperand(i); if (EE.args[enc->getArg(i)] == ptr("code")) code = CB->getArgOperand(i); }
      // code == first word + Snippets[v].Start
      auto* G = dyn_cast_or_null<GEPOperator>(code); bool good = false; if (G) { MapVector<Value*, APInt> vs; APInt c(64, 0); if (G->collectOffset(DL, 64, vs, c) && vs.size() == 1 && c == 0 && vs.begin()->second == 4) { const Value* x = vs.begin()->first; while (auto* k = dyn_cast<CastInst>(x)) x = k->getOperand(0); if (auto* L2 = dyn_cast<LoadInst>(x)) if (auto* G2 = dyn_cast<GEPOperator>(L2->getPointerOperand())) { MapVector<Value*, APInt> v2; APInt c2(64, 0); if (G2->collectOffset(DL, 64, v2, c2) && v2.size() == 1 && c2.getSExtValue() == oStart) { const Value* y = v2.begin()->first; while (auto* k = dyn_cast<CastInst>(y)) y = k->getOperand(0); const Value* vv = vArg; while (auto* k = dyn_cast<CastInst>(vv)) vv = k->getOperand(0); good = y == vv; } } } }
      if (!good) { ok = false; m = "a state's code is not written at the start reserved for that state"; } }
    R.ob(ok && calls, "each state is written at the place reserved for it", fnName(prog), whereF(prog), calls ? m : "no state is written"); }
  return 0;
}
static Reg r("B08", run);
}
