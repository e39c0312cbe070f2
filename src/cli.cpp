#include "typed.h"
#include "walk.h"
#include "cells.h"
// F01: the command-line search hands every block it read to the engine once, in order, as one stream.

static bool isLib(const CallBase* CB, const char* n) { auto* f = CB->getCalledFunction(); return f && f->getName() == n; }
static std::set<const Function*> reachSet(Module& M, const CHA& cha, std::function<bool(const Function&)> target) {
  // functions from which a target can be reached
  std::map<const Function*, std::set<const Function*>> rev; std::vector<const Function*> wl; std::set<const Function*> S;
  for (auto& F : M) {
    for (auto& I : instructions(F)) {
      if (auto* CB = dyn_cast<CallBase>(&I)) { bool r; int64_t sl; if (CHA::vcall(CB, &sl)) for (auto* T : cha.targets(CB, &r)) rev[T].insert(&F); }
      for (auto& o : I.operands()) if (auto* H = dyn_cast<Function>(o.get()->stripPointerCasts())) rev[H].insert(&F);
    }
    if (target(F)) wl.push_back(&F);
  }
  // functions stored in constants (tables of functions) count for the users of the constant
  for (auto& G : M.globals()) if (G.hasInitializer()) {
    std::vector<const Constant*> cs{G.getInitializer()}; std::set<const Constant*> seen;
    while (!cs.empty()) { auto* K = cs.back(); cs.pop_back(); if (!seen.insert(K).second) continue;
      if (auto* H = dyn_cast<Function>(K)) { for (auto* U : G.users()) if (auto* I = dyn_cast<Instruction>(U)) rev[H].insert(I->getFunction()); continue; }
      for (auto& o : K->operands()) if (auto* c = dyn_cast<Constant>(o.get())) cs.push_back(c); }
  }
  while (!wl.empty()) { auto* F = wl.back(); wl.pop_back(); if (!S.insert(F).second) continue; for (auto* G : rev[F]) wl.push_back(G); }
  return S;
}
enum { PTR = 1, LEN, END, SUM, BLK, SIZE };
static Sym mk(int kind, int j) { return Sym::val(kind * 100 + j + 50); }
static bool is(const Sym& s, int kind, int* j = nullptr) { if (s.k != Sym::Val || s.id / 100 != kind) return false; if (j) *j = s.id % 100 - 50; return true; }
enum { GOT = 1, OUT, ANY, CLEAN, CLOSED, EOFF, SET, SHIFTS, ALLOC, LASTZ, ZERO = 50, NZ = 70, EQS = 90 };   // flags

static bool retPair(const CallBase* CB) {
  auto* S = dyn_cast<StructType>(CB->getType());
  return S && S->getNumElements() == 2 && S->getElementType(0)->isPointerTy() && S->getElementType(1)->isIntegerTy(64);
}
static int f01(const std::map<string, string>& a) {
  LLVMContext C0; auto M0 = loadModule(C0, a.at("--bc"));
  std::vector<string> roots;
  {
    CHA cha(*M0);
    auto named = [](const char* n) { return [n](const Function& F) { return F.getName() == n; }; };
    auto A = reachSet(*M0, cha, named("lg_search")), B = reachSet(*M0, cha, named("lg_reset_context")), D = reachSet(*M0, cha, named("lg_closeout_search"));
    auto reader = [](const Function& F) { string n = fnName(&F); return StringRef(n).ends_with("Reader::read"); };
    auto E = reachSet(*M0, cha, reader);
    std::vector<const Function*> all;
    for (auto& F : *M0) if (!F.isDeclaration() && inRepo(&F) && A.count(&F) && E.count(&F) && !reader(F)) all.push_back(&F);
    auto minimal = [&](std::function<bool(const Function*)> ok) {
      std::vector<const Function*> v;
      for (auto* F : all) if (ok(F)) {
        bool min = true;
        for (auto& I : instructions(*F)) for (auto& o : I.operands()) if (auto* H = dyn_cast<Function>(o.get()->stripPointerCasts())) if (H != F && A.count(H) && E.count(H) && ok(H)) min = false;
        if (min) v.push_back(F);
      }
      return v;
    };
    auto full = minimal([&](const Function* F) { return B.count(F) && D.count(F); });
    for (auto* F : full) roots.push_back(F->getName().str());
    if (roots.empty()) for (auto* F : minimal([](const Function*) { return true; })) roots.push_back(F->getName().str());
    if (roots.empty()) R.error("no function reads blocks and searches them");
  }
  for (auto& root : roots) {
    LLVMContext C; auto M = loadModule(C, a.at("--bc"));
    CHA cha(*M);
    Function* F = M->getFunction(root);
    InlineOpts O; O.stripEH = true;
    O.keep = [&](const Function& G) {
      StringRef n = G.getName();
      if (n.starts_with("lg_")) return true;
      string d = fnName(&G);
      if (StringRef(d).starts_with("std::future<") || StringRef(d).starts_with("std::__basic_future<")) return true;
      if (StringRef(d).starts_with("std::filesystem") || StringRef(d).starts_with("std::basic_") || StringRef(d).starts_with("std::operator<<") || StringRef(d).starts_with("boost::") || StringRef(d).starts_with("std::async<")) return true;
      return StringRef(d).ends_with("::setBuffer") || StringRef(d).ends_with("Reader::read");
    };
    inlineAll(*F, O);
    auto isRead = [&](const CallBase* CB) {
      if (auto* f = CB->getCalledFunction()) { string d = fnName(f); return StringRef(d).ends_with("Reader::read"); }
      int64_t sl; bool r = false;
      if (!CHA::vcall(CB, &sl)) return false;
      for (auto* T : cha.targets(CB, &r)) { string d = fnName(T); if (StringRef(d).ends_with("Reader::read")) return true; }
      return false;
    };
    auto isGet = [&](const CallBase* CB) { auto* f = CB->getCalledFunction(); if (!f) return false; string d = fnName(f); return StringRef(d).starts_with("std::future<") && StringRef(d).ends_with("::get") && retPair(CB); };
    std::map<std::pair<string, string>, std::set<string>> bad;      // rule, place -> messages
    std::map<std::pair<string, string>, string> sites;
    auto rule = [&](const string& r, const Instruction* I) { sites[{r, where(I)}]; };
    auto fail = [&](const string& r, const Instruction* I, const string& m) { sites[{r, where(I)}]; bad[{r, where(I)}].insert(m); };
    Walker W(*F); W.unwindPaths = false;
    auto fl = [](WState& S, int k) { auto it = S.flag.find(k); return it == S.flag.end() ? 0 : it->second; };
    auto set = [](WState& S, int k, int v) { if (v) S.flag[k] = v; else S.flag.erase(k); };
    auto shift = [&](WState& S, bool zero) {
      auto sh = [&](Sym& s) {
        int j; int k = s.id / 100;
        if (s.k != Sym::Val || k == SIZE || !is(s, k, &j)) return true;
        if (zero && k == SUM && j == 0) return true;
        --j; if (j < -2) return false;
        s = mk(k, j); return true;
      };
      for (auto it = S.env.begin(); it != S.env.end();) if (sh(it->second)) ++it; else { it->second = Sym(); ++it; }
      for (auto it = S.mem.begin(); it != S.mem.end();) if (sh(it->second)) ++it; else it = S.mem.erase(it);
      for (int j = -1; j < 4; ++j) { set(S, ZERO + j, fl(S, ZERO + j + 1)); set(S, NZ + j, fl(S, NZ + j + 1)); set(S, EQS + j, fl(S, EQS + j + 1)); }
      set(S, GOT, fl(S, GOT) - 1); set(S, SET, 0); set(S, SHIFTS, std::min(3, fl(S, SHIFTS) + 1));
    };
    auto isSum = [&](WState& S, const Value* v, int j) { Sym s = W.eval(S, v); int k; return (is(s, SUM, &k) && k == j) || (s.k == Sym::Null && fl(S, SHIFTS) < 3 && j == -fl(S, SHIFTS)); };
    auto describe = [&](const Sym& s) { int j; if (s.k == Sym::Null) return string("0"); if (s.k != Sym::Val) return string("some other value"); is(s, s.id / 100, &j);
      return string(s.id / 100 == PTR ? "the start" : s.id / 100 == LEN ? "the length" : s.id / 100 == END ? "the end" : "the stream offset") + " of " + (j == 0 ? "that block" : j < 0 ? "an earlier block" : "a later block"); };
    W.visit = [&](WState& S, Instruction* I) {
      if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
        Sym b = W.eval(S, G->getPointerOperand()); int j, k;
        if (is(b, SIZE)) { S.env[I] = Sym(); return true; }
        if (is(b, PTR, &j)) {
          Sym r;
          if (G->getNumIndices() == 1 && G->getSourceElementType()->isIntegerTy(8)) { if (is(W.eval(S, G->getOperand(1)), LEN, &k) && k == j) r = mk(END, j); }
          if (G->hasAllZeroIndices()) r = b;
          S.env[I] = r;
        } else if (b.k == Sym::Val && !G->hasAllZeroIndices()) S.env[I] = Sym();
        else S.env.erase(I);
        return true;
      }
      if (auto* B = dyn_cast<BinaryOperator>(I)) {
        S.env.erase(I);
        if (B->getOpcode() == Instruction::Add) for (int x = 0; x < 2; ++x) {
          Sym s = W.eval(S, B->getOperand(x)), l = W.eval(S, B->getOperand(1 - x)); int j, k;
          if (is(l, LEN, &k)) { if (is(s, SUM, &j) && j == k) S.env[I] = mk(SUM, j + 1); else if (s.k == Sym::Null && fl(S, SHIFTS) < 3 && k == -fl(S, SHIFTS)) S.env[I] = mk(SUM, k + 1); }
        }
        return true;
      }
      if (auto* E = dyn_cast<ExtractValueInst>(I)) {
        S.env.erase(I); int j;
        if (is(W.eval(S, E->getAggregateOperand()), BLK, &j)) S.env[I] = mk(E->getIndices()[0] == 0 ? PTR : LEN, j);
        return true;
      }
      auto* CB = dyn_cast<CallBase>(I); if (!CB) return true;
      if (auto* f = CB->getCalledFunction()) if (f->getName() == "_Znam") {
        Sym z = W.eval(S, CB->getArgOperand(0)); int j;
        set(S, ALLOC, is(z, SIZE, &j) ? j + 100 : 1); return true;
      }
      if (isRead(CB)) {
        rule("read-fits-buffer", I); int q;
        if (int al = fl(S, ALLOC)) { Sym z = W.eval(S, CB->getArgOperand(CB->arg_size() - 1)); if (is(z, LEN, &q) && fl(S, EQS + q)) z = mk(SIZE, fl(S, EQS + q) - 100);
          if (!(al > 1 && is(z, SIZE, &q) && q + 100 == al)) fail("read-fits-buffer", I, "the block size read is not the size the reader's buffers were made with"); }
        rule("one-read-at-a-time", I);
        if (fl(S, OUT)) fail("one-read-at-a-time", I, "a read starts while another one is under way");
        set(S, OUT, 1); return true;
      }
      if (isGet(CB)) {
        if (!fl(S, OUT)) return false;         // an empty future: throws
        set(S, OUT, 0); set(S, EOFF, 0);
        int n = fl(S, GOT);
        if (n >= 3) { fail("each-block-searched", I, "blocks are read but never searched"); return false; }
        set(S, GOT, n + 1); set(S, ZERO + n, 0); set(S, NZ + n, 0); set(S, EQS + n, 0);
        S.env[I] = mk(BLK, n);
        return true;
      }
      if (isLib(CB, "lg_reset_context")) {
        if (fl(S, CLOSED)) { for (auto& [v, s] : S.env) if (s.k == Sym::Val && !is(s, SIZE)) s = Sym(); for (auto it = S.mem.begin(); it != S.mem.end();) if (it->second.k == Sym::Val && !is(it->second, SIZE)) it = S.mem.erase(it); else ++it; int al = fl(S, ALLOC); S.flag.clear(); set(S, ALLOC, al); }
        else if (fl(S, ANY)) fail("reset-before-input", I, "the context is reset in the middle of an input");
        set(S, CLEAN, 1); return true;
      }
      if (isLib(CB, "lg_search")) {
        rule("block-arguments", I); rule("stream-offset", I); rule("reset-before-input", I); rule("block-still-there", I);
        Sym s = W.eval(S, CB->getArgOperand(1)), e = W.eval(S, CB->getArgOperand(2)); int j;
        while (fl(S, GOT) > 0 && fl(S, ZERO) && is(s, PTR, &j) && j > 0) { shift(S, true); s = W.eval(S, CB->getArgOperand(1)); e = W.eval(S, CB->getArgOperand(2)); }
        if (!fl(S, CLEAN)) fail("reset-before-input", I, "the context may hold the state of an earlier input: it is not reset on a path to here");
        if (fl(S, CLOSED)) fail("closeout-last", I, "a block is searched after the search was closed out");
        if (!fl(S, GOT)) { fail("block-arguments", I, "no block is waiting to be searched here: " + describe(s) + " is searched again"); return false; }
        if (!(is(s, PTR, &j) && j == 0)) { fail("block-arguments", I, "the search starts at " + describe(s) + ", not at the start of the next block in order"); return false; }
        if (!(is(e, END, &j) && j == 0) && !(fl(S, ZERO) && is(e, PTR, &j) && j == 0)) { fail("block-arguments", I, "the search does not end at the true end of the block"); return false; }
        if (!isSum(S, CB->getArgOperand(3), 0)) { fail("stream-offset", I, "the offset passed is " + describe(W.eval(S, CB->getArgOperand(3))) + ", not the total length of the blocks before this one"); return false; }
        if (fl(S, GOT) - 1 + fl(S, OUT) > 1) fail("block-still-there", I, "the reader may be overwriting the block being searched: two later reads have started");
        for (auto& [r, x] : sites) if (r.first == "context-buffer") { (void)x; if (!fl(S, SET) && !fl(S, ZERO)) fail("context-buffer", I, "the hit writer was not given this block before the search"); break; }
        bool z = fl(S, ZERO); shift(S, z); set(S, ANY, 1);
        return true;
      }
      if (isLib(CB, "lg_closeout_search")) {
        rule("closeout-last", I);
        while (fl(S, GOT) > 0 && fl(S, ZERO)) shift(S, true);
        for (auto& [r, x] : sites) if (r.first == "context-buffer") { if (fl(S, LASTZ)) { rule("context-buffer", I); fail("context-buffer", I, "the hit writer may hold the empty block at the end of the input, so the hits found here have no text"); } break; }
        if (fl(S, CLOSED)) fail("closeout-last", I, "closed out twice");
        if (fl(S, GOT) > 0) fail("each-block-searched", I, "the search is closed out although a block was read that has not been searched");
        if (!fl(S, EOFF)) fail("closeout-last", I, "the search may be closed out before the end of the input: the last block read was not empty or short");
        set(S, CLOSED, 1); set(S, CLEAN, 0);
        return true;
      }
      if (auto* f = CB->getCalledFunction()) { string d = fnName(f);
        if (StringRef(d).ends_with("::setBuffer") && CB->arg_size() == 4) {
          rule("context-buffer", I); int j;
          Sym p = W.eval(S, CB->getArgOperand(1)), l = W.eval(S, CB->getArgOperand(2));
          while (fl(S, GOT) > 0 && fl(S, ZERO) && is(p, PTR, &j) && j > 0) { shift(S, true); p = W.eval(S, CB->getArgOperand(1)); l = W.eval(S, CB->getArgOperand(2)); }
          bool ok = is(p, PTR, &j) && j == 0 && ((is(l, LEN, &j) && j == 0) || (fl(S, ZERO) && l.k == Sym::Null)) && isSum(S, CB->getArgOperand(3), 0);
          if (!ok) fail("context-buffer", I, "the hit writer is given another block, length or offset than the next search");
          set(S, SET, 1); set(S, LASTZ, fl(S, ANY) && !fl(S, NZ));
        } }
      return true;
    };
    W.onEdge = [&](WState& S, BranchInst* Br, bool t) {
      auto* I = dyn_cast<ICmpInst>(Br->getCondition()); if (!I) return;
      auto P = t ? I->getPredicate() : I->getInversePredicate();
      const Value *x = I->getOperand(0), *y = I->getOperand(1); int j;
      if (!is(W.eval(S, x), LEN, &j)) { std::swap(x, y); P = ICmpInst::getSwappedPredicate(P); }
      if (!is(W.eval(S, x), LEN, &j)) return;
      auto* K = dyn_cast<ConstantInt>(y);
      bool zero = K && ((P == ICmpInst::ICMP_EQ && K->isZero()) || (P == ICmpInst::ICMP_ULT && K->isOne()) || (P == ICmpInst::ICMP_ULE && K->isZero()));
      bool sh = zero || (!K && (P == ICmpInst::ICMP_ULT || P == ICmpInst::ICMP_NE));
      if (zero && j >= 0) set(S, ZERO + j, 1);
      bool nz = K ? (P == ICmpInst::ICMP_NE && K->isZero()) || (P == ICmpInst::ICMP_UGT) || (P == ICmpInst::ICMP_UGE && !K->isZero()) || (P == ICmpInst::ICMP_EQ && !K->isZero()) : P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_UGT;
      if (nz && j >= -1) set(S, NZ + j, 1);
      int q; if (P == ICmpInst::ICMP_EQ && j >= -1 && is(W.eval(S, y), SIZE, &q)) set(S, EQS + j, q + 100);
      if (sh && j == fl(S, GOT) - 1) set(S, EOFF, 1);
    };
    W.atEnd = [&](WState& S, Instruction* I) {
      if (!isa<ReturnInst>(I)) return;
      rule("closeout-last", I);
      if ((fl(S, GOT) || fl(S, ANY)) && !fl(S, CLOSED)) fail("closeout-last", I, "the function can return without closing the search out");
      if (!fl(S, CLOSED) && fl(S, OUT)) fail("closeout-last", I, "the function can return with a read under way and the search not closed out");
    };
    WState S0;
    for (auto& A : F->args()) if (A.getType()->isPointerTy()) for (int k = 0; k < 40; k += 8) S0.mem[{&A, k}] = mk(SIZE, (int)A.getArgNo() * 5 + k / 8 - 50);
    if (!W.run(nullptr, S0)) R.error("F01: too many paths in " + root);
    for (auto& [rw, x] : sites) {
      auto it = bad.find(rw); string m;
      if (it == bad.end()) m = "holds on every path (" + std::to_string(W.states) + " states)";
      else for (auto& z : it->second) m += (m.empty() ? "" : "; ") + z;
      R.ob(it == bad.end(), rw.first, fnName(F) + ":" + rw.second, rw.second, m);
    }
    R.count("states", W.states); R.count("roots", 1);
  }
  return 0;
}
static int readers(const std::map<string, string>& a) {
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  CHA cha(*M); int found = 0;
  std::vector<Function*> fns; for (auto& F : *M) { string d = fnName(&F); if (!F.isDeclaration() && inRepo(&F) && StringRef(d).ends_with("Reader::read")) fns.push_back(&F); }
  // the functions that do the reading: buffer, length and file parameters of the one that calls fread
  struct FR { int buf = -1, len = -1; };
  std::map<const Function*, FR> lam;
  std::vector<Function*> fr;
  for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F)) for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (isLib(CB, "fread")) { fr.push_back(&F); break; }
  for (auto* F : fr) {
    if (!isa<StructType>(F->getReturnType())) continue;
    InlineOpts O; O.stripEH = true; O.keep = [](const Function& G) { return !inRepo(&G) && !StringRef(fnName(&G)).starts_with("std::pair"); };
    inlineAll(*F, O);
    std::vector<CallBase*> reads; for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (isLib(CB, "fread")) reads.push_back(CB);
    if (reads.size() != 1) continue;
    auto* rd = reads[0]; ++found; string msg; FR x;
    auto* one = dyn_cast<ConstantInt>(rd->getArgOperand(1)); auto* b = dyn_cast<Argument>(rd->getArgOperand(0)->stripPointerCasts()); auto* l = dyn_cast<Argument>(rd->getArgOperand(2));
    if (!one || !one->isOne()) msg += "fread does not count bytes; ";
    if (!b) msg += "fread does not fill the start of the given buffer; "; else x.buf = b->getArgNo();
    if (!l) msg += "fread is not asked for the requested length; "; else x.len = l->getArgNo();
    Walker W(*F); W.unwindPaths = false; bool err = false; int rets = 0; std::set<string> bad;
    W.visit = [&](WState& S, Instruction* I) {
      if (I == rd) { S.flag[1] = 1; S.env[I] = Sym::val(7); }
      if (auto* CB = dyn_cast<CallBase>(I)) if (isLib(CB, "ferror")) S.env[I] = Sym::val(8);
      if (auto* V = dyn_cast<InsertValueInst>(I)) {
        Sym v = W.eval(S, V->getInsertedValueOperand()), g = W.eval(S, V->getAggregateOperand());
        bool isb = b && V->getInsertedValueOperand()->stripPointerCasts() == b;
        int st = g.k == Sym::Val ? g.id : 20;
        if (V->getIndices()[0] == 0) st |= isb ? 1 : 4; else st |= v == Sym::val(7) ? 2 : 8;
        S.env[I] = Sym::val(st);
      }
      return true;
    };
    W.onEdge = [&](WState& S, BranchInst* Br, bool t) {
      auto* I = dyn_cast<ICmpInst>(Br->getCondition()); if (!I || !I->isEquality()) return;
      if (W.eval(S, I->getOperand(0)) == Sym::val(8) && W.eval(S, I->getOperand(1)).k == Sym::Null) S.flag[2] = (I->getPredicate() == ICmpInst::ICMP_EQ) == t ? 1 : 2;
    };
    W.atEnd = [&](WState& S, Instruction* I) {
      auto* Rt = dyn_cast<ReturnInst>(I); if (!Rt) return; ++rets;
      if (!S.flag.count(1)) { bad.insert("a path returns without reading"); return; }
      Sym v = Rt->getReturnValue() ? W.eval(S, Rt->getReturnValue()) : Sym();
      if (!(v == Sym::val(23))) bad.insert("the block returned is not the buffer with the number of bytes read");
      if (!S.flag.count(2)) bad.insert("a read error is taken for the end of the input"); else if (S.flag[2] == 2) bad.insert("a block is returned although the read failed");
    };
    W.run(nullptr, WState()); (void)err;
    for (auto& z : bad) msg += z + "; ";
    if (!rets) msg += "never returns a block; ";
    lam[F] = x;
    R.ob(msg.empty(), "file-block", fnName(F), where(rd), msg.empty() ? "reads the requested number of bytes into the given buffer and returns exactly what was read; errors are thrown" : msg);
  }
  for (auto* F : fns) {
    CHA cha2(*M);
    InlineOpts O; O.stripEH = true;
    O.keep = [](const Function& G) { string d = fnName(&G); StringRef n(d); return n.starts_with("std::async<") || n.starts_with("std::promise<") || n.starts_with("std::future<") || (!inRepo(&G) && !n.starts_with("std::pair") && !n.starts_with("std::swap") && !n.starts_with("std::unique_ptr") && !n.starts_with("std::__uniq") && !n.starts_with("std::tuple") && !n.starts_with("std::get") && !n.starts_with("std::min") && !n.starts_with("std::max") && !n.starts_with("std::move") && !n.starts_with("std::forward") && !n.starts_with("std::__get") && !n.starts_with("std::_Tuple") && !n.starts_with("std::_Head") && !n.starts_with("std::make_pair") && !n.starts_with("std::__invoke")); };
    inlineAll(*F, O);
    // this and the requested length
    Argument *self = nullptr, *len = nullptr;
    for (auto& A : F->args()) if (A.getType()->isPointerTy() && !A.hasStructRetAttr() && !self) self = &A; else if (A.getType()->isIntegerTy(64)) len = &A;
    if (!self || !len) continue;
    std::vector<CallBase*> as, sv;
    for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) { string d = fnName(f); if (StringRef(d).starts_with("std::async<")) as.push_back(CB); if (StringRef(d).starts_with("std::promise<") && StringRef(d).ends_with("::set_value")) sv.push_back(CB); }
    Walker W(*F); W.unwindPaths = false; std::set<string> bad; int rets = 0;
    WState S0; for (int k = 8; k < 96; k += 8) S0.mem[{self, k}] = Sym::val(1000 + k);
    S0.env[len] = Sym::val(500);
    if (as.size() == 1 && sv.empty()) {
      ++found; auto* A = as[0]; const Function* L = nullptr; FR x;
      for (auto& [f, y] : lam) { string n = fnName(f); if (f->getParent() == M.get() && (n.find(fnName(F)) == 0 || lam.size() == 1)) { L = f; x = y; } }
      if (!L) { R.notes.push_back("no function called through std::async was recognised in " + fnName(F)); continue; }
      int sret = 0; for (auto& z : F->args()) if (z.hasStructRetAttr()) sret = 1;
      unsigned base = A->getCalledFunction()->hasStructRetAttr() ? 1 : 0;
      const bool pol = A->getArgOperand(base)->getType()->isIntegerTy();
      const bool lamThis = true; (void)lamThis; (void)sret;
      auto at = [&](WState& S, int k) {       // lambda parameter k (0 is its closure)
        unsigned i = base + (pol ? 1 : 0) + k; if (k < 1 || i >= A->arg_size()) return Sym();
        const Value* b; int64_t o; if (!Walker::strip(W.DL, A->getArgOperand(i), b, o)) return Sym();
        if (b == self) { auto it = S.mem.find({b, o}); return it == S.mem.end() ? Sym() : it->second; }
        auto it = S.mem.find({b, o}); return it == S.mem.end() ? Sym() : it->second;
      };
      W.visit = [&](WState& S, Instruction* I) {
        if (I != A) return true;
        Sym p = at(S, x.buf), n = at(S, x.len);
        if (!(n == Sym::val(500))) bad.insert("the read is not asked for the requested length");
        if (p.k != Sym::Val || p.id <= 1000) { bad.insert("the buffer read into is not one of the reader's own"); return false; }
        S.flag[1] = p.id - 1000; return true;
      };
      W.atEnd = [&](WState& S, Instruction* I) {
        if (!isa<ReturnInst>(I)) return; ++rets;
        if (!S.flag.count(1)) { bad.insert("returns without starting a read"); return; }
        // which field the passed buffer came from at entry, and what the next call will pass
        int x0 = S.flag[1]; auto cell = [&](int k) { auto it = S.mem.find({self, k}); return it == S.mem.end() ? Sym() : it->second; };
        Sym e = cell(x0);
        if (e == Sym::val(1000 + x0)) { bad.insert("the next read fills the same buffer again, while its block may still be searched"); return; }
        if (e.k != Sym::Val || e.id <= 1000 || !(cell(e.id - 1000) == Sym::val(1000 + x0))) bad.insert("the two buffers do not alternate");
      };
      W.run(nullptr, S0);
      string m; for (auto& z : bad) m += z + "; ";
      R.ob(bad.empty() && rets, "buffers-alternate", fnName(F), whereF(F), m.empty() ? "each read fills the buffer that the read before it did not" : m);
    } else if (sv.size() == 1 && as.empty()) {
      ++found; auto* P = sv[0]; DominatorTree DT(*F); LinCtx L(*F, DT);
      string msg;
      const Value *pb = nullptr; int64_t po; const Value *bv = nullptr, *lv = nullptr; const LoadInst* start = nullptr;
      if (Walker::strip(W.DL, P->getArgOperand(1), pb, po)) for (auto& I : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&I)) {
        const Value* b; int64_t o; if (Walker::strip(W.DL, S->getPointerOperand(), b, o) && b == pb && DT.dominates(S, P)) { if (o == po) bv = S->getValueOperand(); if (o == po + 8) lv = S->getValueOperand(); }
      }
      int64_t fo = -1;
      if (bv) if ((start = dyn_cast<LoadInst>(bv->stripPointerCasts()))) { const Value* b; if (!Walker::strip(W.DL, start->getPointerOperand(), b, fo) || b != self) start = nullptr; }
      if (!start || !lv) { R.notes.push_back("the block returned by " + fnName(F) + " was not recognised"); continue; }
      // the position field advances by the length returned, once on every path
      for (auto& I : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&I)) { const Value* b; int64_t o;
        if (Walker::strip(W.DL, S->getPointerOperand(), b, o) && b == self && o == fo && (DT.dominates(S, start))) msg += "the position moves before the block is taken; "; }
      Walker W2(*F); W2.unwindPaths = false; std::set<string> bd;
      W2.visit = [&](WState& S, Instruction* I) {
        auto* St = dyn_cast<StoreInst>(I); if (!St) return true;
        const Value* b; int64_t o; if (!Walker::strip(W.DL, St->getPointerOperand(), b, o) || b != self || o != fo) return true;
        Lin d = L.lin(St->getValueOperand()) - L.lin(start) - L.lin(lv);
        bool ok = d.ok && d.t.empty() && d.c == 0;
        if (!ok) if (auto* G = dyn_cast<GetElementPtrInst>(St->getValueOperand())) if (auto* ld = dyn_cast<LoadInst>(G->getPointerOperand())) { const Value* b2; int64_t o2;
          ok = Walker::strip(W.DL, ld->getPointerOperand(), b2, o2) && b2 == self && o2 == fo && !S.flag.count(1) && G->getNumIndices() == 1 && (G->getOperand(1) == lv || (L.lin(G->getOperand(1)) - L.lin(lv)).t.empty()); }
        if (!ok) bd.insert("the position does not advance by the length of the block");
        S.flag[1]++; return true;
      };
      W2.atEnd = [&](WState& S, Instruction* I) { if (isa<ReturnInst>(I)) { ++rets; if (!S.flag.count(1)) bd.insert("a path does not advance the position"); else if (S.flag[1] != 1) bd.insert("the position advances twice"); } };
      W2.run(nullptr, WState());
      for (auto& z : bd) msg += z + "; ";
      // the length is the smaller of what is asked for and what is left
      std::map<int64_t, const LoadInst*> firstLoad;
      for (auto& I : instructions(*F)) if (auto* ld = dyn_cast<LoadInst>(&I)) { const Value* b; int64_t o;
        if (!Walker::strip(W.DL, ld->getPointerOperand(), b, o) || b != self) continue;
        bool before = true;
        for (auto& J : instructions(*F)) if (auto* S = dyn_cast<StoreInst>(&J)) { const Value* b2; int64_t o2; if (Walker::strip(W.DL, S->getPointerOperand(), b2, o2) && b2 == self && o2 == o && !DT.dominates(ld, S)) before = false; }
        if (!before) continue;
        if (!firstLoad.count(o)) firstLoad[o] = ld; else L.canon[ld] = firstLoad[o]; }
      auto fs = L.factsAt(P); fs.push_back(L.lin(len)); fs.push_back(L.lin(lv));
      for (auto& I : instructions(*F)) if (auto* U = dyn_cast<IntrinsicInst>(&I)) if (U->getIntrinsicID() == Intrinsic::umin || U->getIntrinsicID() == Intrinsic::smin)
        for (int k = 0; k < 2; ++k) fs.push_back(L.lin(U->getArgOperand(k)) - L.lin(U));
      if (!L.proveSplit(fs, L.lin(len) - L.lin(lv), P->getParent())) msg += "the block may be longer than requested; ";
      bool inEnd = false;
      for (auto& I : instructions(*F)) if (auto* ld = dyn_cast<LoadInst>(&I)) { const Value* b; int64_t o;
        if (Walker::strip(W.DL, ld->getPointerOperand(), b, o) && b == self && o != fo && ld->getType()->isPointerTy() && L.proveSplit(fs, L.lin(ld) - L.lin(start) - L.lin(lv), P->getParent())) inEnd = true; }
      if (!inEnd) msg += "the block is not shown to end inside the mapping; ";
      // ends only when nothing is left: the length is one of the two
      R.ob(msg.empty(), "mapped-block", fnName(F), where(P), msg.empty() ? "each block starts where the one before it ended, is at most as long as requested and ends inside the mapping" : msg);
    } else R.notes.push_back("how " + fnName(F) + " reads was not recognised");
  }
  R.count("readers_analysed", found);
  return 0;
}
static int f01all(const std::map<string, string>& a) { f01(a); return readers(a); }
static Reg rf("F01", f01all);
