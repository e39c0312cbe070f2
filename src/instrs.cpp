#include "beval.h"
#include "vmmodel.h"
// B07: what the compiler writes for an instruction is what the search engine reads. Every kind of instruction is followed
// from the function that makes it to the functions that execute it, byte by byte.
using namespace be;
namespace {
bool isDispatch(const Function& F) {   // switches on a byte reached through a pointer that is itself loaded (the thread's program counter)
  for (auto& I : instructions(F)) if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
    const Value* v = Sw->getCondition(); while (auto* c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
    if (auto* L = dyn_cast<LoadInst>(v)) if (L->getType()->isIntegerTy(8)) { APInt o(64, 0); auto* b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(F.getParent()->getDataLayout(), o, true); if (auto* P = dyn_cast<LoadInst>(b)) if (o == 0 && isa<Argument>(P->getPointerOperand()->stripInBoundsOffsets())) return true; }
  }
  return false;
}
std::set<Function*> reach(Module& M, const CHA& cha, std::vector<Function*> wl, std::map<Function*, std::set<Function*>>* callers = nullptr) {
  std::set<Function*> seen(wl.begin(), wl.end());
  while (!wl.empty()) { auto* f = wl.back(); wl.pop_back();
    for (auto& I : instructions(*f)) if (auto* CB = dyn_cast<CallBase>(&I)) { bool r; for (auto* g : cha.targets(CB, &r)) { if (callers) (*callers)[g].insert(f); if (seen.insert(g).second) wl.push_back(g); } } }
  return seen;
}
struct Kind {                 // one instruction word as a maker leaves it, with the words that follow
  string name, where; int code = -1; unsigned words = 0; std::map<int64_t, B> mem; std::vector<Alias> alias; std::map<string, int64_t> asg;
  std::vector<std::vector<B>> params; bool bounded = true; };
struct Disp { Function* F; Argument *thread = nullptr; int64_t pcOff = 0; };
string hexs(const std::map<int64_t, B>& m) { string s; for (auto& [o, b] : m) s += (s.empty() ? "" : " ") + (b.c >= 0 ? std::to_string(b.c) : b.s.empty() ? "?" : b.s); return s; }
// the functions reachable from searching in which an instruction is taken apart, by name
std::set<string> dispatchers(const string& path, std::vector<Function*> (*rootsOf)(Module&, const CHA&)) {
  LLVMContext C; auto M = loadModule(C, path); CHA cha(*M); std::set<string> out; auto fns = reach(*M, cha, rootsOf(*M, cha));
  std::set<Function*> cand, rec; for (auto* f : fns) if (!f->isDeclaration()) for (auto& I : instructions(*f)) if (isa<SwitchInst>(I)) cand.insert(f);
  for (auto* f : fns) if (!f->isDeclaration()) for (auto* g : reach(*M, cha, {f})) if (cand.count(g)) { rec.insert(f); break; }
  for (auto* f : cand) { InlineOpts O; O.stripEH = true; O.keep = [&](const Function& g) { return &g != f && rec.count(const_cast<Function*>(&g)); }; inlineAll(*f, O); if (isDispatch(*f)) out.insert(f->getName().str()); }
  return out;
}
std::vector<Function*> engineRoots(Module& M, const CHA& cha) {
  VmModel VM(M); auto r = VM.searchRoots;
  if (VM.vm) for (auto& vt : cha.vts) if (vt.cls == diQualName(VM.vm)) for (auto& a : vt.arrays) for (auto* f : a) if (f && !f->isDeclaration()) r.push_back(f);
  return r;
}
int run(const std::map<string, string>& args) {
  LLVMContext C; auto M = loadModule(C, args.at("--bc"));
  std::vector<Function*> searchRoots; Function* create = M->getFunction("lg_create_program");
  for (auto* n : {"lg_search", "lg_starts_with", "lg_search_resolve", "lg_closeout_search"}) if (auto* f = M->getFunction(n)) searchRoots.push_back(f);
  if (!create || searchRoots.empty()) { R.error("the API functions were not found"); return 0; }
  CHA cha(*M); searchRoots = engineRoots(*M, cha); auto dispNames = dispatchers(args.at("--bc"), engineRoots);
  std::map<Function*, std::set<Function*>> callers;
  auto searchFns = reach(*M, cha, searchRoots), createFns = reach(*M, cha, {create}, &callers);
  // --- the functions that execute instructions
  std::vector<Function*> cand; for (auto& F : *M) if (!F.isDeclaration() && searchFns.count(&F)) if (dispNames.count(F.getName().str())) cand.push_back(&F);
  std::set<Function*> recursive;   // functions that can run another instruction
  for (auto* f : searchFns) { if (f->isDeclaration()) continue; for (auto* g : reach(*M, cha, {f})) if (std::find(cand.begin(), cand.end(), g) != cand.end()) { recursive.insert(f); break; } }
  std::vector<Disp> disp;
  for (auto* f : cand) {
    InlineOpts O; O.stripEH = true; O.keep = [&](const Function& g) { return &g != f && recursive.count(const_cast<Function*>(&g)); };
    inlineAll(*f, O);
    if (!isDispatch(*f)) continue;
    Disp D; D.F = f;
    for (auto& I : instructions(*f)) if (auto* Sw = dyn_cast<SwitchInst>(&I)) { const Value* v = Sw->getCondition(); while (auto* c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
      auto* L = dyn_cast<LoadInst>(v); if (!L) continue; auto* P = dyn_cast<LoadInst>(L->getPointerOperand()->stripPointerCasts()); if (!P) continue;
      APInt o(64, 0); auto* b = P->getPointerOperand()->stripAndAccumulateConstantOffsets(M->getDataLayout(), o, true); if (auto* A = dyn_cast<Argument>(b)) { D.thread = const_cast<Argument*>(A); D.pcOff = o.getSExtValue(); } }
    if (D.thread && f->getReturnType()->isIntegerTy(1)) disp.push_back(D);
  }
  R.count("functions that execute instructions", disp.size());
  if (disp.size() < 2) { R.error("the functions that execute instructions were not found"); return 0; }
  // --- the kinds of instruction that are made
  std::vector<Kind> kinds; std::vector<string> stuckAt;
  auto allRanks = [](std::set<int64_t> cs, unsigned n) { std::set<int64_t> r; std::vector<int64_t> s(cs.begin(), cs.end()); s.insert(s.begin(), -1); s.push_back(256); for (size_t i = 0; i + 1 < s.size(); ++i) { if (s[i] >= 0) r.insert(s[i]); for (unsigned k = 1; k <= n && s[i] + k < s[i + 1]; ++k) r.insert(s[i] + k); } return std::vector<int64_t>(r.begin(), r.end()); };
  auto byteConsts = [](const Function& F, std::set<int64_t>& cs) { for (auto& I : instructions(F)) if (isa<ICmpInst>(I) || isa<SwitchInst>(I)) for (auto& op : I.operands()) if (auto* c = dyn_cast<ConstantInt>(op)) if (c->getBitWidth() >= 8 && c->getZExtValue() < 256 && (c->getBitWidth() > 8 || true)) { if (isa<ICmpInst>(I)) { auto* o = I.getOperand(0); while (auto* cc = dyn_cast<CastInst>(o)) o = cc->getOperand(0); if (o->getType()->isIntegerTy(8)) cs.insert(c->getZExtValue() & 255); } } };
  struct Trans { string cls; Function *make, *allowed, *num; };
  std::vector<Trans> trans; std::set<Function*> transMakers;
  for (auto& vt : cha.vts) for (auto& arr : vt.arrays) {
    Trans t{vt.cls, nullptr, nullptr, nullptr};
    for (auto* f : arr) if (f) { string n = fnName(f); n = n.substr(n.rfind("::") == string::npos ? 0 : n.rfind("::") + 2); if (n == "toInstruction") t.make = f; else if (n == "allowed") t.allowed = f; else if (n == "numInstructions") t.num = f; }
    if (t.make && t.allowed && t.num && !t.make->isDeclaration()) { trans.push_back(t); transMakers.insert(t.make); } }
  R.count("kinds of transition", trans.size());
  if (trans.empty()) { R.error("the transition classes were not found"); return 0; }
  // the sizes first (not yet inlined into anything else)
  auto argVals = [&](Function& F, Eval& E, std::vector<string> names) { unsigned i = 0; for (auto& A : F.args()) { string n = i < names.size() ? names[i] : "arg" + std::to_string(i); ++i; if (A.getType()->isPointerTy()) E.args[&A] = ptr(n); else if (A.getType()->isIntegerTy()) E.args[&A] = sym(n, std::max(1u, A.getType()->getIntegerBitWidth() / 8)); } };
  InlineOpts O; O.stripEH = true;
  // makers outside the transitions
  std::vector<Function*> makers;
  { auto isMaker = [&](Function* g) { if (g->isDeclaration()) return false; auto* sp = g->getSubprogram(); if (!sp || !sp->getType() || !g->getReturnType()->isIntegerTy(32)) return false; auto ta = sp->getType()->getTypeArray(); auto* rt = ta.size() && ta[0] ? stripDI(ta[0]) : nullptr; return rt && rt->getName() == "Instruction"; };
    for (auto* g : createFns) if (isMaker(g)) for (auto* c : callers[g]) if (!isMaker(c) && !transMakers.count(c)) { makers.push_back(g); break; } }
  std::sort(makers.begin(), makers.end(), [](Function* a, Function* b) { return a->getName() < b->getName(); });
  R.count("functions that make instructions", makers.size());
  if (makers.empty()) { R.error("no function that makes an instruction is called by the compiler"); return 0; }
  for (auto* g : makers) {
    inlineAll(*g, O); Eval E(*g); std::set<int64_t> cs; byteConsts(*g, cs); E.ranks = allRanks(cs, 3);
    argVals(*g, E, {"op0", "op1", "op2", "op3", "op4"}); string dst; Kind proto; proto.name = fnName(g); proto.where = whereF(g);
    unsigned i = 0; std::vector<std::vector<B>> ps; for (auto& A : g->args()) { string n = "op" + std::to_string(i++); if (A.getType()->isPointerTy()) dst = n; else ps.push_back(sym(n, std::max(1u, A.getType()->getIntegerBitWidth() / 8)).b); }
    bool defNeg = false; (void)defNeg;
    std::vector<Out> outs; try { outs = E.all(); } catch (Stuck& s) { R.error("cannot follow " + proto.name + ": " + s.why); return 0; }
    for (auto& o : outs) { if (o.thrown) continue;
      if (o.looped || o.ret.k != V::Int || o.ret.b.size() != 4) { R.error("cannot follow " + proto.name); return 0; }
      Kind k = proto; k.params = ps; k.asg = o.asg; k.words = 1; for (int j = 0; j < 4; ++j) k.mem[j] = o.ret.b[j];
      for (auto& [at, b] : o.mem) if (at.first == dst && !dst.empty()) k.mem[at.second] = b;
      // contiguous words
      int64_t top = 4; for (auto& [at, b] : k.mem) top = std::max(top, at + 1); k.words = (top + 3) / 4; bool full = true; for (int64_t j = 0; j < top; ++j) full &= k.mem.count(j) && (k.mem[j].c >= 0 || !k.mem[j].s.empty());
      R.ob(full && top % 4 == 0 && k.mem.begin()->first == 0, "every byte of an instruction is written", proto.name, proto.where, "bytes left unwritten: " + hexs(k.mem));
      k.code = k.mem[0].c;
      // a number stored in fewer bytes than it has is refused when it does not fit
      for (auto& p : ps) if (p.size() > 1) { size_t used = 0; for (auto& b : p) for (auto& [at, m] : k.mem) if (m == b) { ++used; break; }
        if (used < p.size() && used) { bool ok = false; V pv; pv.k = V::Int; pv.b = p; uint64_t lim = 1ULL << (8 * used);
          auto a = o.asg.find("ult " + str(pv) + " " + std::to_string(lim)), b2 = o.asg.find("ult " + std::to_string(lim - 1) + " " + str(pv));
          ok = (a != o.asg.end() && a->second == 1) || (b2 != o.asg.end() && b2->second == 0); k.bounded &= ok;
          R.ob(ok, "a number that does not fit its field is refused", proto.name, proto.where, proto.name + " keeps only " + std::to_string(used) + " of the " + std::to_string(p.size()) + " bytes of its argument without refusing larger values"); }
        else R.ob(used == p.size(), "every operand is stored", proto.name, proto.where, proto.name + " does not store its argument"); }
      kinds.push_back(k); }
  }
  struct TPath { size_t t; std::map<int64_t, B> mem; std::vector<Alias> alias; std::map<string, int64_t> asg; unsigned words; };
  std::vector<TPath> tpaths; std::map<int, std::set<string>> codeOf;
  std::vector<std::set<int64_t>> tconst(trans.size());
  std::set<int64_t> dispConst; for (auto& D : disp) byteConsts(*D.F, dispConst);
  for (size_t ti = 0; ti < trans.size(); ++ti) {
    auto& t = trans[ti]; inlineAll(*t.make, O); inlineAll(*t.allowed, O); inlineAll(*t.num, O);
    byteConsts(*t.make, tconst[ti]); byteConsts(*t.allowed, tconst[ti]);
    Eval N(*t.num); argVals(*t.num, N, {"this"}); unsigned words = 0;
    try { auto o = N.all(); if (o.size() == 1 && o[0].ret.k == V::Int) { uint64_t n = 0; bool c = true; for (size_t i = 0; i < o[0].ret.b.size() && i < 8; ++i) { c &= o[0].ret.b[i].c >= 0; n |= (uint64_t)std::max(0, o[0].ret.b[i].c) << (8 * i); } if (c) words = n; } } catch (Stuck& s) {}
    if (!words) { R.error("the number of words of a " + t.cls + " is not a constant"); return 0; }
    Eval E(*t.make); E.ranks = allRanks(tconst[ti], 3); argVals(*t.make, E, {"this", "addr"}); E.stable = {"this"};
    std::vector<Out> outs; try { outs = E.all(); } catch (Stuck& s) { R.error("cannot follow " + fnName(t.make) + ": " + s.why); return 0; }
    std::set<string> seen; bool sizeOk = true, full = true; string got;
    for (auto& o : outs) { if (o.thrown) continue; if (o.looped) { R.error("cannot follow " + fnName(t.make)); return 0; }
      TPath p; p.t = ti; p.words = words; p.asg = o.asg; int64_t lo = 0, hi = 0; for (auto& [at, b] : o.mem) if (at.first == "addr") { p.mem[at.second] = b; lo = std::min(lo, at.second); hi = std::max(hi, at.second + 1); full &= b.c >= 0 || !b.s.empty(); }
      // long runs copied from the object are kept as aliases
      for (int64_t a = 4; a < hi;) { auto& b = p.mem[a]; if (b.c < 0 && StringRef(b.s).starts_with("this+")) { int64_t s = std::stoll(b.s.substr(5)), n = 1; while (p.mem.count(a + n) && p.mem[a + n].s == "this+" + std::to_string(s + n)) ++n; if (n >= 8) p.alias.push_back({"PC", a, n, "this", s}); a += n; } else ++a; }
      if (lo != 0 || hi != (int64_t)words * 4) { sizeOk = false; got = std::to_string(lo) + ".." + std::to_string(hi); }
      if ((int64_t)p.mem.size() != hi) full = false;
      codeOf[p.mem[0].c].insert(t.cls); tpaths.push_back(p); }
    R.ob(sizeOk, "a transition writes the words it announces", t.cls, whereF(t.make), t.cls + " announces " + std::to_string(words) + " words and writes bytes " + got);
    R.ob(full, "every byte of an instruction is written", t.cls, whereF(t.make), t.cls + " leaves bytes of its instruction unwritten");
  }
  // --- executing what was made
  auto curArg = [&](Function* F, Argument* thread) -> Argument* { Argument* r = nullptr; for (auto& A : F->args()) if (&A != thread && A.getType()->isPointerTy() && F->getSubprogram()) { auto ta = F->getSubprogram()->getType()->getTypeArray(); (void)ta; for (auto* U : A.users()) if (auto* L = dyn_cast<LoadInst>(U)) if (L->getType()->isIntegerTy(8) && L->getPointerOperand() == &A) r = &A; } return r; };
  auto exec = [&](Disp& D, const std::map<int64_t, B>& mem, const std::vector<Alias>& al, const std::map<string, int64_t>& asg, std::vector<int64_t> ranks, bool consume) {
    Eval E(*D.F); E.ranks = ranks; E.fixed = asg; argVals(*D.F, E, {}); E.args[D.thread] = ptr("t"); if (auto* c = curArg(D.F, D.thread)) E.args[c] = ptr("cur");
    E.stable = {"PC", "cur", "this", "base"}; for (auto& [o, b] : mem) E.mem0[{"PC", o}] = b; E.alias0 = al; E.pm0[{"t", D.pcOff}] = ptr("PC");
    E.record = [&](const CallBase* CB) { auto* f = CB->getCalledFunction(); return f && recursive.count(f); };
    return E.all(); };
  auto retOf = [](const Out& o) { return o.ret.k == V::Int && o.ret.b[0].c >= 0 ? o.ret.b[0].c : -1; };
  auto pcOf = [&](const Out& o, const Disp& D) -> V { auto it = o.pm.find({"t", D.pcOff}); return it == o.pm.end() ? V() : it->second; };
  // which dispatcher consumes bytes: the one that reads one through a pointer argument
  std::vector<bool> consumes(disp.size()); for (size_t d = 0; d < disp.size(); ++d) consumes[d] = curArg(disp[d].F, disp[d].thread) != nullptr;
  size_t cases = 0;
  for (auto& tp : tpaths) {
    auto& t = trans[tp.t]; bool got = false;
    for (size_t d = 0; d < disp.size(); ++d) {
      auto& D = disp[d]; string what = t.cls + " in " + fnName(D.F);
      std::set<int64_t> cs = tconst[tp.t]; cs.insert(dispConst.begin(), dispConst.end()); auto ranks = allRanks(cs, 3); bool wide = false; for (auto& [o, b] : tp.mem) wide |= o >= 4;
      std::vector<Out> outs; try { outs = exec(D, tp.mem, tp.alias, tp.asg, ranks, consumes[d]); } catch (Stuck& s) { R.error("cannot follow " + what + ": " + s.why); return 0; }
      if (!consumes[d]) { bool idle = true; for (auto& o : outs) if (!o.looped) idle &= retOf(o) == 0 && pcOf(o, D) == ptr("PC"); R.ob(idle, "an instruction that consumes a byte does nothing between bytes", what, whereF(D.F), fnName(D.F) + " does not leave a " + t.cls + " instruction alone"); continue; }
      got = true; bool sem = true, adv = true; string m1, m2;
      for (auto& o : outs) {
        if (o.looped || o.thrown) { R.error("cannot follow " + what); return 0; }
        ++cases; int r = retOf(o); V pc = pcOf(o, D);
        if (r < 0) { R.error("the result of " + what + " is not understood"); return 0; }
        // what the transition itself says
        Eval A(*t.allowed); A.ranks = ranks; A.fixed = o.asg; for (auto& [k, v] : tp.asg) A.fixed[k] = v; argVals(*t.allowed, A, {"this", "cur", "end"}); A.stable = {"this", "cur"};
        std::vector<Out> ao; try { ao = A.all(); } catch (Stuck& s) { R.error("cannot follow " + fnName(t.allowed) + ": " + s.why); return 0; }
        for (auto& x : ao) { bool yes = x.ret == ptr("cur", 1), no = x.ret == ptr("cur", 0); if (!yes && !no) { R.error("the result of " + fnName(t.allowed) + " is not understood: " + str(x.ret)); return 0; }
          if (yes != (r == 1)) { sem = false; string s; for (auto& [k, v] : x.asg) s += " " + k + "=" + std::to_string(v); m1 = "when" + s + " the transition " + (yes ? "accepts" : "refuses") + " the byte and the engine does not agree"; } }
        if (r == 1 && !(pc == ptr("PC", 4 * tp.words))) { adv = false; m2 = "after it the engine continues at " + str(pc) + " although it takes " + std::to_string(tp.words) + " words"; } }
      R.ob(sem, "the engine accepts the bytes the transition accepts", t.cls, whereF(D.F), t.cls + ": " + m1);
      R.ob(adv, "execution continues at the first word after the instruction", t.cls, whereF(D.F), t.cls + ": " + m2);
    }
    R.ob(got, "every instruction is executed", t.cls, whereF(t.make), "nothing executes a " + t.cls);
  }
  R.count("transition cases", cases);
  for (auto& k : kinds) {
    if (k.code < 0) { R.count("makers of plain data words", 1); continue; }
    bool handled = false, seqOk = true, argOk = true; string m1, m2; std::set<size_t> usedParams; string where = k.where; bool terminalInPlace = false, epTrue = false; std::set<string> forms;
    for (size_t d = 0; d < disp.size(); ++d) {
      auto& D = disp[d]; string what = k.name + " in " + fnName(D.F); std::vector<Out> outs; auto fixed = k.asg;
      try { outs = exec(D, k.mem, {}, fixed, allRanks(dispConst, 3), consumes[d]); } catch (Stuck& s) { R.error("cannot follow " + what + ": " + s.why); return 0; }
      bool other = false;
      for (auto& o : outs) {
        if (o.thrown) continue;
        bool wroteT = false; for (auto& [p, v] : o.stores) wroteT |= p.k == V::Ptr && p.root == "t";
        V pc = pcOf(o, D); int r = o.looped ? -1 : retOf(o);
        if (wroteT || r != 0 || o.havoc || !o.calls.empty()) other = true;
        // operands: wherever a byte of one is used, all of it is used
        auto check = [&](const string& s) { for (size_t i = 0; i < k.params.size(); ++i) { bool touches = false; for (auto& b : k.params[i]) touches |= s.find(b.s) != string::npos; if (!touches) continue;
            std::set<string> ok; for (size_t n = k.params[i].size(); n >= 1; --n) { V v; v.k = V::Int; v.b.assign(k.params[i].begin(), k.params[i].begin() + n); bool stored = true; for (size_t j = 0; j < k.params[i].size(); ++j) { bool in = false; for (auto& [at, b] : k.mem) in |= b == k.params[i][j]; if (in != (j < n)) stored = false; } if (stored) ok.insert(str(v)); }
            bool whole = false; for (auto& w : ok) if (s == w || s.find(w) != string::npos) whole = true;
            if (k.params[i].size() == 1) whole = true;
            if (!whole) { argOk = false; m2 = "it uses " + s + ", which is not the operand as it was written"; where = whereF(D.F); } else usedParams.insert(i); } };
        for (auto& s : o.indexes) check(s);
        for (auto& [p, v] : o.stores) { if (v.k == V::Int) check(str(v)); if (v.k == V::Ptr) for (auto& [n, c] : v.idx) check(n); }
        for (auto& c : o.calls) for (auto& a : c.args) check(str(a));
        for (auto& [n, v] : o.asg) if (StringRef(n).starts_with("rank op")) for (size_t i = 0; i < k.params.size(); ++i) if (k.params[i].size() == 1 && n == "rank " + k.params[i][0].s) usedParams.insert(i);
        // a branching instruction lets another thread go on behind it first
        for (auto& c : o.calls) { auto it = c.pm.find({"t", D.pcOff}); V at = it == c.pm.end() ? V() : it->second; if (!(at == ptr("PC", 4 * k.words))) { seqOk = false; m1 = "the other thread continues at " + str(at) + " although the instruction takes " + std::to_string(k.words) + " words"; where = whereF(D.F); } else forms.insert("fork"); }
        if (r != 1) { if (r < 0 && !o.looped) { R.error("the result of " + what + " is not understood"); return 0; } continue; }
        if (!consumes[d]) epTrue = true;
        if (pc == ptr("PC", 4 * k.words)) { forms.insert("next"); continue; }
        if (consumes[d] && pc == ptr("PC")) { terminalInPlace = true; continue; }
        if (pc.k == V::Ptr && pc.idx.size() == 1 && pc.off == 0 && pc.idx.begin()->second == 4 && StringRef(pc.root).starts_with("arg")) {   // a jump from the start of the program
          string n = pc.idx.begin()->first; bool whole = false;
          for (auto& p : k.params) { V v; v.k = V::Int; v.b = p; if (p.size() == 4 && n == str(v)) { bool behind = true; for (int j = 0; j < 4; ++j) behind &= k.mem.count(4 + j) && k.mem.at(4 + j) == p[j]; whole = behind; } }
          if (whole) { forms.insert("jump"); continue; }
          if (consumes[d] && k.params.size() == 2) {   // a table: one word for every byte of the range
            V f; f.k = V::Int; f.b = {k.params[0][0]}; string fs = str(f), want = StringRef(fs) < "cur+0" ? "-4*" + fs + "+4*cur+0" : "4*cur+0+-4*" + fs; (void)want;
            V e = ptr("PC", 4); e.idx[fs] = -4; e.idx["cur+0"] = 4; string es = "load4(PC"; for (auto& [x, c] : e.idx) es += "+" + std::to_string(c) + "*" + x; es += "+4)";
            V ev = sym(es, 4); bool entry = n == str(ev);
            auto rk = [&](const string& x) { auto i = o.asg.find("rank " + x); return i == o.asg.end() ? (int64_t)-1 : i->second; };
            bool inr = rk(k.params[0][0].s) <= rk("cur+0") && rk("cur+0") <= rk(k.params[1][0].s) && rk("cur+0") >= 0 && rk(k.params[0][0].s) >= 0;
            bool nz = false; for (auto& [q, v] : o.asg) if ((StringRef(q).starts_with("eq ") && q.find(str(ev)) != string::npos && q.find(" 0 ") + 1 | 1) && v == 0) nz = true;
            if (entry && inr && nz) { forms.insert("table"); continue; }
            seqOk = false; where = whereF(D.F); m1 = !entry ? "it jumps to " + n + ", which is not the table entry of the byte" : !inr ? "it uses the table for a byte outside its range" : "it follows an empty table entry"; continue; }
          seqOk = false; where = whereF(D.F); m1 = "it jumps to " + n + ", which is not the operand as it was written"; continue; }
        seqOk = false; where = whereF(D.F); m1 = "the engine continues at " + str(pc) + " although the instruction takes " + std::to_string(k.words) + " words"; }
      // a table consumes every byte in range that has an entry
      if (consumes[d] && forms.count("table")) for (auto& o : outs) { if (o.looped || o.thrown || retOf(o) != 0) continue; auto rk = [&](const string& x) { auto i = o.asg.find("rank " + x); return i == o.asg.end() ? (int64_t)-1 : i->second; };
        int64_t f = rk(k.params[0][0].s), l = rk(k.params[1][0].s), c = rk("cur+0"); bool outr = (f >= 0 && c < f) || (l >= 0 && c > l), empty = false; for (auto& [q, v] : o.asg) if (StringRef(q).starts_with("eq ") && q.find("load4(PC") != string::npos && v == 1) empty = true;
        if (!outr && !empty) { seqOk = false; where = whereF(D.F); m1 = "it refuses a byte of its range that has an entry"; } }
      handled |= other;
    }
    if (terminalInPlace && epTrue) { seqOk = false; m1 = "it waits in place for a byte although it also continues between bytes"; }
    R.ob(handled, "every instruction is executed", k.name, where, "nothing executes the instruction " + k.name + " makes");
    R.ob(seqOk, "execution continues at the first word after the instruction", k.name, where, k.name + ": " + m1);
    bool all = true; for (size_t i = 0; i < k.params.size(); ++i) { bool flag = k.params[i].size() == 1 && false; if (!usedParams.count(i) && !flag) all = false; }
    R.ob(argOk && all, "operands are read from where they were written", k.name, where, k.name + ": " + (argOk ? string("an operand is never read") : m2));
    string fs; for (auto& f : forms) fs += (fs.empty() ? "" : "/") + f; if (codeOf[k.code].count(k.name) == 0) R.notes.push_back(k.name + ": code " + std::to_string(k.code) + ", " + std::to_string(k.words) + " word(s), continues: " + (fs.empty() ? "no further" : fs));
    codeOf[k.code].insert(k.name);
  }
  for (auto& [c, who] : codeOf) if (c >= 0) { bool tr = false, mk = false; string s; for (auto& w : who) { bool t = false; for (auto& x : trans) t |= x.cls == w; (t ? tr : mk) = true; s += (s.empty() ? "" : ", ") + w; }
    R.ob(!(tr && mk) && (!mk || who.size() == 1), "every kind of instruction has its own code", "code " + std::to_string(c), "include/instructions.h", s + " share the code " + std::to_string(c)); R.count("instruction codes", 1); }
  return 0;
}
static Reg r("B07", run);
}
