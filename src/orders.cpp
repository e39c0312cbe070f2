#include "typed.h"
#include <functional>
// F02: every comparison given to a sort or an ordered container is a strict weak order. A comparison is evaluated
// abstractly: the only thing known about two elements is, for each key it compares, which element's key is the smaller
// one (or that they are equal), and for each key it tests against constants, which constant it equals.

namespace {
struct AV { enum K { Unk, Con, Ex, Rel } k = Unk; int64_t c = 0; string t; int side = 0; bool neg = false; };   // Rel: three-way result of key t
struct Need { string atom; std::vector<int64_t> dom; };
struct Stuck { string why; };
typedef std::map<string, int64_t> Asg;
struct Leaf { Asg a; bool result = false; bool thrown = false; };
const int64_t OTHER = INT64_MIN + 7;

struct Eval {
  Function& F; const DataLayout& DL; const Value *A, *B;
  Asg asg; std::map<string, std::set<int64_t>> consts;   // constants each unary key is tested against
  std::map<const Value*, AV> env; std::map<std::pair<const Value*, int64_t>, AV> mem;
  std::map<string, std::pair<int64_t, int64_t>> keyRange;    // key -> bytes of the element it looks at (size 0: a whole object)
  bool whole = false;
  Eval(Function& F, const Value* A, const Value* B) : F(F), DL(F.getParent()->getDataLayout()), A(A), B(B) {}
  AV ex(const string& t, int side) { AV v; v.k = AV::Ex; v.t = t; v.side = side; return v; }
  AV con(int64_t c) { AV v; v.k = AV::Con; v.c = c; return v; }
  int joinSide(int a, int b) { return a == 0 ? b : b == 0 || a == b ? a : 3; }
  AV val(const Value* V) {
    V = V->stripPointerCasts();
    if (V == A) return ex("@", 1);
    if (V == B) return ex("@", 2);
    if (auto* C = dyn_cast<ConstantInt>(V)) return con(C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue());
    if (isa<ConstantPointerNull>(V)) return con(0);
    auto it = env.find(V); if (it != env.end()) return it->second;
    if (auto* G = dyn_cast<GEPOperator>(V)) if (!isa<Instruction>(V)) return gep(G);
    if (auto* a = dyn_cast<Argument>(V)) return ex("arg" + std::to_string(a->getArgNo()), 0);
    if (auto* g = dyn_cast<GlobalValue>(V)) return ex("@@" + g->getName().str(), 0);
    return AV();
  }
  string str(const AV& v) { return v.k == AV::Con ? std::to_string(v.c) : v.k == AV::Ex ? v.t : "?"; }
  AV gep(const GEPOperator* G) {
    AV b = val(G->getPointerOperand()); if (b.k != AV::Ex) return AV();
    APInt o(64, 0);
    MapVector<Value*, APInt> vs; APInt c(64, 0);
    if (!G->collectOffset(DL, 64, vs, c)) return AV();
    AV r = b; int64_t off = c.getSExtValue();
    for (auto& [v, k] : vs) { AV x = val(v); if (x.k == AV::Con) off += x.c * k.getSExtValue(); else if (x.k == AV::Ex) { r.t = "(" + r.t + "+" + std::to_string(k.getSExtValue()) + "*" + x.t + ")"; r.side = joinSide(r.side, x.side); } else return AV(); }
    if (off) {   // fold nested constant offsets
      size_t p = r.t.rfind('+'); bool num = p != string::npos && r.t[0] == '@' && r.t.find_first_not_of("0123456789", p + 1) == string::npos;
      if (num) { off += std::stoll(r.t.substr(p + 1)); r.t = r.t.substr(0, p); }
      r.t = (r.t[0] == '@' ? r.t : "(" + r.t + ")") + "+" + std::to_string(off); }
    return r;
  }
  void range(const string& key, const string& t, int64_t size) {
    if (t == "@") { keyRange[key] = {0, size}; return; }
    if (StringRef(t).starts_with("@+") && t.find_first_not_of("0123456789", 2) == string::npos) { keyRange[key] = {std::stoll(t.substr(2)), size}; return; }
    size_t p = t.find("@+"); if (p != string::npos) { size_t e = t.find_first_not_of("0123456789", p + 2); keyRange[key] = {std::stoll(t.substr(p + 2, e - p - 2)), size}; } else if (t.find('@') != string::npos) keyRange[key] = {0, size};
  }
  int64_t ask(const string& atom, std::vector<int64_t> dom) {
    auto it = asg.find(atom); if (it != asg.end()) return it->second;
    throw Need{atom, dom};
  }
  int rel(const string& key) { return (int)ask("rel " + key, {-1, 0, 1}); }     // of the first element's key to the second's
  // the relation of two values of which one belongs to each element
  bool keyOf(const AV& x, const AV& y, string& key, bool& flip) {
    if (x.k != AV::Ex || y.k != AV::Ex || x.t != y.t) return false;
    if (x.side == 1 && y.side == 2) flip = false; else if (x.side == 2 && y.side == 1) flip = true; else return false;
    key = x.t; return true;
  }
  AV cmp(ICmpInst::Predicate P, const AV& x, const AV& y, const Value* xv, const Value* = nullptr) {
    string k; bool fl;
    auto out = [&](int r) {
      switch (P) {
        case ICmpInst::ICMP_EQ: return con(r == 0); case ICmpInst::ICMP_NE: return con(r != 0);
        case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: return con(r < 0); case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: return con(r <= 0);
        case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: return con(r > 0); default: return con(r >= 0); } };
    if (x.k == AV::Con && y.k == AV::Con) {
      if (ICmpInst::isUnsigned(P)) return out((uint64_t)x.c < (uint64_t)y.c ? -1 : x.c != y.c);
      return out(x.c < y.c ? -1 : x.c != y.c); }
    if (x.k == AV::Ex && y.k == AV::Ex && x.t == y.t && x.side == y.side) return out(0);
    if (keyOf(x, y, k, fl)) {
      if (!ICmpInst::isEquality(P)) { string s = ICmpInst::isSigned(P) ? "s" : "u"; if (signs.count(k) && signs[k] != s) throw Stuck{"compares " + k + " once as a signed and once as an unsigned number"}; signs[k] = s; }
      range(k, k, width(xv)); int r = rel(k); return out(fl ? -r : r); }
    if (x.k == AV::Rel && y.k == AV::Con && !ICmpInst::isUnsigned(P)) {
      int r = rel(x.t) * (x.neg ? -1 : 1);
      if (y.c == 0) return out(r);
      if (y.c == -1 && P == ICmpInst::ICMP_SGT) return con(r >= 0);
      if (y.c == 1 && P == ICmpInst::ICMP_SLT) return con(r <= 0);
      throw Stuck{"tests a three-way comparison against " + std::to_string(y.c) + ", which its contract does not define"};
    }
    if (y.k == AV::Rel && x.k == AV::Con) return cmp(ICmpInst::getSwappedPredicate(P), y, x, nullptr);
    if (x.k == AV::Ex && y.k == AV::Con && x.side != 3 && x.side != 0) { // test of one element's key against a constant
      if (!ICmpInst::isEquality(P)) throw Stuck{"tests the order of one element's " + x.t + " against a constant"};
      return con((unary(x, {y.c}) == y.c) == (P == ICmpInst::ICMP_EQ)); }
    if (y.k == AV::Ex && x.k == AV::Con) return cmp(ICmpInst::getSwappedPredicate(P), y, x, nullptr);
    if (x.k == AV::Ex && y.k == AV::Ex && x.side == 0 && y.side == 0) return con(ask("test " + x.t + ICmpInst::getPredicateName(P).str() + y.t, {0, 1}));
    if (x.k == AV::Ex && x.side == 0 && y.k == AV::Con) return con(ask("test " + x.t + ICmpInst::getPredicateName(P).str() + str(y), {0, 1}));
    if (x.k == AV::Ex && y.k == AV::Ex && joinSide(x.side, y.side) == 3 && x.t != y.t) throw Stuck{"compares " + x.t + " of one element with " + y.t + " of the other"};
    throw Stuck{"compares values that are not keys of the two elements: " + str(x) + " and " + str(y)};
  }
  std::map<string, string> signs;
  int64_t width(const Value* v) { return v ? DL.getTypeStoreSize(v->getType()).getFixedValue() : 0; }
  int64_t unary(const AV& x, const std::vector<int64_t>& cs) {
    auto& K = consts[x.t]; size_t n = K.size(); for (auto c : cs) K.insert(c);
    if (K.size() != n) throw Need{"", {}};        // start again with the larger domain
    std::vector<int64_t> d(K.begin(), K.end()); d.push_back(OTHER);
    return ask(string(x.side == 1 ? "A " : "B ") + x.t, d);
  }
  AV call(const CallBase* CB) {
    auto* f = CB->getCalledFunction();
    std::vector<AV> av; for (auto& a : CB->args()) av.push_back(val(a.get()));
    string n = f ? f->getName().str() : "", d = f ? dem(n) : "";
    auto pairKey = [&](size_t i, size_t j, const string& tag, string& key, bool& fl) {
      string k; if (!keyOf(av[i], av[j], k, fl)) return false; key = tag + "(" + k + ")"; range(key, k, 0); return true; };
    string key; bool fl = false; AV r;
    auto three = [&]() { AV v; v.k = AV::Rel; v.t = key; v.neg = fl; return v; };
    if ((n == "memcmp" || n == "bcmp") && CB->arg_size() == 3) {
      if (av[2].side != 0 && av[2].k == AV::Ex) throw Stuck{"the number of bytes compared depends on one of the elements"};
      if (!pairKey(0, 1, "bytes", key, fl)) throw Stuck{"memcmp of different parts of the two elements"};
      key += "[" + str(av[2]) + "]"; range(key, av[0].t, av[2].k == AV::Con ? av[2].c : 0); return three(); }
    if (n == "strcmp" && CB->arg_size() == 2) { if (!pairKey(0, 1, "str", key, fl)) throw Stuck{"strcmp of different parts"}; return three(); }
    string fn = f ? fnName(f) : ""; string base = fn.substr(0, fn.find('<'));
    if (StringRef(base).starts_with("std::operator") || StringRef(fn).contains("::operator<")) base = fn;
    auto ends = [&](const char* s) { StringRef q(fn); size_t p = q.find(s); return p != StringRef::npos && (p + strlen(s) == q.size() || q[p + strlen(s)] == '<' || q[p + strlen(s)] == '('); };
    auto ret = [&](ICmpInst::Predicate P) { int x = rel(key); if (fl) x = -x;
      switch (P) { case ICmpInst::ICMP_EQ: return con(x == 0); case ICmpInst::ICMP_NE: return con(x != 0); case ICmpInst::ICMP_SLT: return con(x < 0); case ICmpInst::ICMP_SGT: return con(x > 0); case ICmpInst::ICMP_SLE: return con(x <= 0); default: return con(x >= 0); } };
    if (CB->arg_size() == 2 && CB->getType()->isIntegerTy(32) && ends("compare")) { if (!pairKey(0, 1, "obj", key, fl)) throw Stuck{"compare() of different parts of the two elements"}; return three(); }
    if (CB->arg_size() >= 2 && CB->getType()->isIntegerTy(1)) {
      struct O { const char* s; ICmpInst::Predicate p; };
      for (auto& o : {O{"operator==", ICmpInst::ICMP_EQ}, O{"operator!=", ICmpInst::ICMP_NE}, O{"operator<=", ICmpInst::ICMP_SLE}, O{"operator>=", ICmpInst::ICMP_SGE}, O{"operator<", ICmpInst::ICMP_SLT}, O{"operator>", ICmpInst::ICMP_SGT}})
        if (CB->arg_size() == 2 && opName(f) == o.s) { if (!pairKey(0, 1, "obj", key, fl)) throw Stuck{string(o.s) + " on different parts of the two elements"}; return ret(o.p); }
      if (StringRef(fn).starts_with("std::lexicographical_compare") && CB->arg_size() == 4) {
        string k1, k2; bool f1, f2; if (!keyOf(av[0], av[2], k1, f1) || !keyOf(av[1], av[3], k2, f2) || f1 != f2) throw Stuck{"lexicographical_compare of different parts of the two elements"};
        key = "lex(" + k1 + "," + k2 + ")"; fl = f1; range(key, k1, 0); return ret(ICmpInst::ICMP_SLT); }
    }
    int side = 0; bool known = true; for (auto& a : av) { if (a.k == AV::Unk || a.k == AV::Rel) known = false; side = joinSide(side, a.k == AV::Ex ? a.side : 0); }
    if (known && side != 3 && !CB->getType()->isVoidTy()) {   // a value computed from one element
      string t = n; int64_t sl = 0; if (!f) { if (!CHA::vcall(CB, &sl)) throw Stuck{"an unknown function is called"}; t = "virtual" + std::to_string(sl); }
      t += "("; for (size_t i = 0; i < av.size(); ++i) t += (i ? "," : "") + str(av[i]); return ex(t + ")", side); }
    throw Stuck{"calls " + (fn.empty() ? string("an unknown function") : fn) + " with values of both elements"};
  }
  static string opName(const Function* f) {
    StringRef m = f->getName(); // by mangled operator code
    size_t i = m.starts_with("_ZStltI") || m.starts_with("_ZStlt") ? 1 : 0; (void)i;
    auto has = [&](const char* c) { string s(c); return m.starts_with("_ZSt" + s + "I") || m.starts_with("_ZSt" + s + "R") || m.contains("E" + s + "I") || m.contains("ltE") ? false : false; }; (void)has;
    string d = dem(m); size_t depth = 0;       // the operator's name: the text before its parameter list, template arguments dropped
    size_t p = d.find("operator"); if (p == string::npos) return ""; (void)depth;
    for (const char* o : {"operator==", "operator!=", "operator<=", "operator>=", "operator<", "operator>"}) if (d.compare(p, strlen(o), o) == 0) {
      char nx = d.size() > p + strlen(o) ? d[p + strlen(o)] : 0;
      if (string(o) == "operator<" && nx == '<') { if (d.compare(p, 11, "operator<<<") == 0) return ""; if (d.compare(p, 10, "operator<<") == 0 && d[p + 10] == '(') return ""; }
      return o; }
    return "";
  }
  // true/false, throws Need or Stuck
  int run() {
    env.clear(); mem.clear();
    const BasicBlock* B0 = &F.getEntryBlock(); const BasicBlock* prev = nullptr; int steps = 0;
    for (;;) {
      std::vector<std::pair<const Value*, AV>> up;
      for (auto& P : B0->phis()) up.push_back({&P, val(P.getIncomingValueForBlock(prev))});
      for (auto& [p, v] : up) env[p] = v;
      for (auto& I : *B0) {
        if (++steps > 5000) throw Stuck{"loops"};
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        if (auto* L = dyn_cast<LoadInst>(&I)) {
          const Value* b = nullptr; int64_t o = 0; APInt off(64, 0); b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true); o = off.getSExtValue();
          if (isa<AllocaInst>(b)) { auto it = mem.find({b, o}); env[L] = it == mem.end() ? AV() : it->second; continue; }
          AV p = val(L->getPointerOperand()); if (p.k != AV::Ex) { env[L] = AV(); continue; }
          env[L] = ex("load" + std::to_string(width(L)) + "(" + p.t + ")", p.side); continue; }
        if (auto* S = dyn_cast<StoreInst>(&I)) {
          APInt off(64, 0); auto* b = S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
          if (isa<AllocaInst>(b)) mem[{b, off.getSExtValue()}] = val(S->getValueOperand()); else throw Stuck{"changes memory"};
          continue; }
        if (auto* G = dyn_cast<GEPOperator>(&I)) { env[&I] = gep(G); continue; }
        if (auto* C = dyn_cast<ICmpInst>(&I)) { env[&I] = cmp(C->getPredicate(), val(C->getOperand(0)), val(C->getOperand(1)), C->getOperand(0)); continue; }
        if (auto* S = dyn_cast<SelectInst>(&I)) { AV c = val(S->getCondition()); if (c.k != AV::Con) throw Stuck{"a choice depends on a value that is not understood"}; env[&I] = val(c.c ? S->getTrueValue() : S->getFalseValue()); continue; }
        if (auto* C = dyn_cast<CastInst>(&I)) {
          AV v = val(C->getOperand(0));
          if (v.k == AV::Ex && isa<TruncInst>(C)) v.t = "trunc" + std::to_string(C->getType()->getIntegerBitWidth()) + "(" + v.t + ")";
          else if (v.k == AV::Con && isa<ZExtInst>(C) && C->getSrcTy()->getIntegerBitWidth() < 64) v.c &= (int64_t)((1ULL << C->getSrcTy()->getIntegerBitWidth()) - 1);
          else if (v.k == AV::Con && isa<SExtInst>(C) && C->getSrcTy()->isIntegerTy(1)) v.c = -v.c;
          else if (v.k == AV::Ex && (isa<SExtInst>(C) || isa<ZExtInst>(C)) && C->getSrcTy()->isIntegerTy(1)) {}
          else if (v.k == AV::Rel && !isa<SExtInst>(C)) v = AV();
          env[&I] = v; continue; }
        if (auto* Bo = dyn_cast<BinaryOperator>(&I)) {
          AV x = val(Bo->getOperand(0)), y = val(Bo->getOperand(1));
          if (x.k == AV::Con && y.k == AV::Con) {
            int64_t r = 0; bool ok = true;
            switch (Bo->getOpcode()) { case Instruction::And: r = x.c & y.c; break; case Instruction::Or: r = x.c | y.c; break; case Instruction::Xor: r = x.c ^ y.c; break; case Instruction::Add: r = x.c + y.c; break; case Instruction::Sub: r = x.c - y.c; break; case Instruction::Mul: r = x.c * y.c; break; default: ok = false; }
            if (Bo->getType()->isIntegerTy(1)) r &= 1;
            env[&I] = ok ? con(r) : AV(); continue; }
          int s = joinSide(x.k == AV::Ex ? x.side : 0, y.k == AV::Ex ? y.side : 0);
          if ((x.k == AV::Ex || x.k == AV::Con) && (y.k == AV::Ex || y.k == AV::Con) && s != 3) env[&I] = ex(string(Bo->getOpcodeName()) + "(" + str(x) + "," + str(y) + ")", s);
          else if (x.k == AV::Rel && Bo->getOpcode() == Instruction::LShr && y.k == AV::Con && y.c == 31 && Bo->getType()->isIntegerTy(32)) env[&I] = con(rel(x.t) * (x.neg ? -1 : 1) < 0);   // the sign bit
          else { string k; bool fl; if (Bo->getOpcode() == Instruction::Sub && keyOf(x, y, k, fl)) throw Stuck{"orders by the difference of " + k + ", which can overflow"}; env[&I] = AV(); }
          continue; }
        if (auto* Fz = dyn_cast<FreezeInst>(&I)) { env[&I] = val(Fz->getOperand(0)); continue; }
        if (isa<AllocaInst>(I)) continue;
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) { if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume) continue; }
        if (auto* CB = dyn_cast<CallBase>(&I)) {
          if (auto* f = CB->getCalledFunction()) if (f->getName().starts_with("__cxa_") || f->doesNotReturn()) return 2;
          if (CB->getType()->isVoidTy() || !CB->getType()->isIntOrPtrTy()) { int s = 0; for (auto& a : CB->args()) { AV v = val(a.get()); if (v.k == AV::Ex) s = joinSide(s, v.side); } if (isa<IntrinsicInst>(CB)) continue;
            // code that only builds an error message
            bool dies = true; for (auto* Bx = B0; Bx;) { auto* T = Bx->getTerminator(); if (isa<UnreachableInst>(T)) break; if (T->getNumSuccessors() != 1) { dies = false; break; } Bx = T->getSuccessor(0); }
            if (dies) return 2; throw Stuck{"calls " + (CB->getCalledFunction() ? fnName(CB->getCalledFunction()) : string("an unknown function"))}; }
          env[&I] = call(CB);
          if (!isa<InvokeInst>(CB)) continue;
        }
        if (I.isTerminator()) break;
      }
      auto* T = B0->getTerminator(); prev = B0;
      if (auto* Rt = dyn_cast<ReturnInst>(T)) { AV v = val(Rt->getReturnValue()); if (v.k == AV::Con) return v.c != 0; if (v.k == AV::Ex && v.side == 0) return (int)ask("test " + v.t, {0, 1}); throw Stuck{"the result is not understood"}; }
      if (auto* Br = dyn_cast<BranchInst>(T)) {
        if (!Br->isConditional()) { B0 = Br->getSuccessor(0); continue; }
        AV c = val(Br->getCondition());
        if (c.k == AV::Ex && c.side != 3) c = con(c.side == 0 ? ask("test " + c.t, {0, 1}) : unary(c, {0, 1}));
        if (c.k != AV::Con) throw Stuck{"a branch depends on a value that is not understood"};
        B0 = Br->getSuccessor(c.c ? 0 : 1); continue; }
      if (auto* Sw = dyn_cast<SwitchInst>(T)) {
        AV c = val(Sw->getCondition());
        if (c.k == AV::Ex && (c.side == 1 || c.side == 2)) { std::vector<int64_t> cs; for (auto& k : Sw->cases()) cs.push_back(k.getCaseValue()->getSExtValue()); c = con(unary(c, cs)); }
        if (c.k != AV::Con) throw Stuck{"a branch depends on a value that is not understood"};
        const BasicBlock* N = Sw->getDefaultDest(); for (auto& k : Sw->cases()) if (k.getCaseValue()->getSExtValue() == c.c) N = k.getCaseSuccessor();
        B0 = N; continue; }
      if (auto* II = dyn_cast<InvokeInst>(T)) { B0 = II->getNormalDest(); continue; }
      if (isa<UnreachableInst>(T)) return 2;
      throw Stuck{"leaves in an unexpected way"};
    }
  }
  std::vector<Leaf> leaves() {
    for (;;) {
      std::vector<Leaf> out; std::vector<Asg> wl{{}}; bool again = false;
      while (!wl.empty() && !again) {
        asg = wl.back(); wl.pop_back();
        try { int r = run(); Leaf l; l.a = asg; l.result = r == 1; l.thrown = r == 2; out.push_back(l); }
        catch (Need& n) { if (n.atom.empty()) { again = true; break; } for (auto v : n.dom) { Asg x = asg; x[n.atom] = v; wl.push_back(x); } }
        if (out.size() + wl.size() > 20000) throw Stuck{"too many cases"};
      }
      if (!again) return out;
    }
  }
};
// joint consistency of what is assumed about named elements
struct World {
  std::map<std::pair<int, string>, int64_t> una; std::map<string, std::map<std::pair<int, int>, int>> rel; std::map<string, int64_t> tst;
  bool add(const Asg& a, int x, int y) {
    for (auto& [k, v] : a) {
      if (StringRef(k).starts_with("A ") || StringRef(k).starts_with("B ")) {
        auto key = std::make_pair(k[0] == 'A' ? x : y, k.substr(2)); auto it = una.find(key);
        if (it != una.end()) { if (it->second != v) return false; } else una[key] = v;
      } else if (StringRef(k).starts_with("test ")) { auto it = tst.find(k); if (it != tst.end()) { if (it->second != v) return false; } else tst[k] = v; }
      else {
        int r = (int)v, p = x, q = y; if (p == q) { if (r != 0) return false; continue; }
        if (p > q) { std::swap(p, q); r = -r; }
        auto& m = rel[k.substr(4)]; auto it = m.find({p, q}); if (it != m.end()) { if (it->second != r) return false; } else m[{p, q}] = r;
      } }
    return true;
  }
  bool consistent() {
    for (auto& [k, m] : rel) {
      for (auto& [pq, r] : m) { auto a = una.find({pq.first, k}), b = una.find({pq.second, k});
        if (a != una.end() && b != una.end()) { if (a->second == OTHER || b->second == OTHER) { if (r == 0 && a->second != b->second) return false; } else if ((a->second < b->second ? -1 : a->second != b->second) != r) return false; } }
      if (m.size() == 3) { int ab = m[{0, 1}], bc = m[{1, 2}], ac = m[{0, 2}];
        if (ab == 0 && ac != bc) return false; if (bc == 0 && ac != ab) return false; if (ab == bc && ab != 0 && ac != ab) return false;
        if (ac == 0 && ab != -bc) return false; }
    }
    return true;
  }
};
string show(const Leaf& l) { string s; for (auto& [k, v] : l.a) s += (s.empty() ? "" : ", ") + (StringRef(k).starts_with("rel ") ? k.substr(4) + (v < 0 ? " smaller" : v > 0 ? " greater" : " equal") : k + "=" + (v == OTHER ? string("other") : std::to_string(v))); return s; }
}

static std::vector<std::tuple<string, uint64_t, uint64_t>> members(Types& T, const DICompositeType* t) {
  std::vector<std::tuple<string, uint64_t, uint64_t>> v;
  std::function<void(const DICompositeType*, uint64_t)> go = [&](const DICompositeType* t, uint64_t base) {
    if (!t) return; t = dyn_cast_or_null<DICompositeType>(T.canon(t)); if (!t) return;
    for (auto* e : t->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) {
      if (m->isStaticMember() || (m->getFlags() & DINode::FlagArtificial)) continue;
      if (m->getTag() == dwarf::DW_TAG_inheritance) { go(dyn_cast_or_null<DICompositeType>(stripDI(m->getBaseType())), base + m->getOffsetInBits() / 8); continue; }
      if (m->getTag() != dwarf::DW_TAG_member || StringRef(m->getName()).starts_with("_vptr")) continue;
      v.push_back({m->getName().str(), base + m->getOffsetInBits() / 8, std::max<uint64_t>(1, m->getSizeInBits() / 8)}); } };
  go(t, 0); return v;
}
// is the member at [off, off+sz) looked at by one of the keys?
static bool covered(const Eval& E, const std::vector<string>& eq, uint64_t off, uint64_t sz) {
  for (auto& k : eq) {
    auto it = E.keyRange.find(k); if (it == E.keyRange.end()) continue;
    int64_t o = it->second.first, n = it->second.second;
    if (n == 0 && o >= (int64_t)off && o < (int64_t)(off + sz)) return true;          // the member's object as a whole
    if (n == 0 && o == 0 && StringRef(k).starts_with("obj(@)") && E.whole) return true;
    if (n && o <= (int64_t)off && o + n >= (int64_t)(off + sz)) return true;
  }
  return false;
}
static bool orderAlgo(const string& n) {
  for (const char* s : {"adjacent_find", "unique", "equal", "search", "mismatch", "is_permutation", "find", "any_of", "all_of", "none_of", "count_if", "remove", "partition", "copy_if", "for_each", "transform", "generate", "function", "invoke", "accumulate", "replace"}) if (n.find(s) != string::npos) return false;
  return true;
}
static bool opaque(const Function& G) {
      string d = dem(G.getName()), n = fnName(&G);
      if (G.doesNotReturn()) return true;
      if (Eval::opName(&G) != "" && !inRepo(&G)) { size_t p = d.find("operator"); size_t q = d.find('(', p); if (q == string::npos) return false; StringRef ps = StringRef(d).substr(q + 1); return ps.starts_with("std::__cxx11::basic_string") || ps.starts_with("std::vector") || ps.starts_with("std::bitset") || ps.starts_with("std::basic_string_view"); }
      if (StringRef(n).starts_with("std::lexicographical_compare")) return true;
      if (StringRef(n).starts_with("std::bitset") && (StringRef(n).ends_with("::count"))) return true;
      return !inRepo(&G) && (StringRef(d).contains("basic_string") && StringRef(n).contains("compare"));
    }
static int f02(const std::map<string, string>& a) {
  std::map<string, std::set<string>> comps;      // mangled comparator -> where it is used
  LLVMContext C0; auto M0 = loadModule(C0, a.at("--bc"));
  {
    auto isStd = [](const Function* f) { string d = fnName(f); return StringRef(d).starts_with("std::") || StringRef(d).starts_with("__gnu_cxx::"); };
    std::map<const Function*, std::set<const Function*>> callers;
    for (auto& F : *M0) for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* f = CB->getCalledFunction()) callers[f].insert(&F);
    auto boolFn = [](const Function* f) { return f->getReturnType()->isIntegerTy(1) && f->arg_size() >= 2 && f->arg_size() <= 3; };
    for (auto& F : *M0) {
      if (F.isDeclaration() || !inRepo(&F) || !boolFn(&F)) continue;
      string d = fnName(&F);
      if (Eval::opName(&F) == "operator<" && StringRef(d).contains("operator<")) comps[F.getName().str()].insert("operator<");
      for (auto* U : callers[&F]) if (isStd(U) && StringRef(d).ends_with("operator()")) {
        string u = fnName(U); bool ok = StringRef(u).contains("_Rb_tree") || StringRef(dem(U->getName())).contains("std::_Rb_tree");
        if (StringRef(dem(U->getName())).contains("__gnu_cxx::__ops::_")) { for (auto* W : callers[U]) if (orderAlgo(fnName(W))) ok = true; }
        else if (!ok) ok = orderAlgo(u) && StringRef(u).starts_with("std::") && !StringRef(u).starts_with("std::function") && !StringRef(u).starts_with("std::__invoke") && !StringRef(u).starts_with("std::_Function");
        if (ok) comps[F.getName().str()].insert(StringRef(dem(U->getName())).contains("_Rb_tree") ? "ordered container" : "sort or search");
      }
      for (auto* U : F.users()) if (auto* CB = dyn_cast<CallBase>(U)) if (auto* f = CB->getCalledFunction()) if (CB->getCalledOperand() != &F) { string u = fnName(f); if (StringRef(u).starts_with("std::") && orderAlgo(u) && (StringRef(u).contains("sort") || StringRef(u).contains("bound") || StringRef(u).contains("heap") || StringRef(u).contains("merge") || StringRef(u).contains("set<") || StringRef(u).contains("map<") || StringRef(u).contains("element"))) comps[F.getName().str()].insert("sort or search"); }
    }
  }
  for (auto& [name, uses] : comps) {
    LLVMContext C; auto M = loadModule(C, a.at("--bc")); Function* F = M->getFunction(name);
    Types T(*M);
    // a helper that several comparators share is decided where it is used
    InlineOpts O; O.stripEH = true;
    O.keep = opaque;
    inlineAll(*F, O);
    std::vector<Argument*> ps; for (auto& A : F->args()) ps.push_back(&A);
    if (ps.size() < 2) continue;
    Argument *A = ps[ps.size() - 2], *B = ps[ps.size() - 1];
    auto *ta = T.argType(*F, A->getArgNo()), *tb = T.argType(*F, B->getArgNo());
    if (A->getType() != B->getType()) { R.notes.push_back(fnName(F) + " compares elements of different types; not decided"); continue; }
    auto strip = [&](const DIType* t) -> const DICompositeType* { if (!t) return nullptr; t = T.concrete(t); if (auto* p = Types::pointee(t)) t = stripDI(p); return dyn_cast_or_null<DICompositeType>(T.concrete(t)); };
    (void)tb;
    string label = fnName(F); if (StringRef(label).ends_with("operator()") || label.find("lambda") != string::npos) label = where(&*F->getEntryBlock().getFirstNonPHIOrDbg()); string key = fnName(F) + "(" + string(A->getType()->isPointerTy() ? "" : "value") + ")";
    { string d = dem(name); key = d.substr(0, 160); }
    Eval E(*F, A, B); std::vector<Leaf> ls; string w = whereF(F);
    try { ls = E.leaves(); } catch (Stuck& s) {
      if (StringRef(s.why).contains("once as a signed") || StringRef(s.why).contains("difference") || StringRef(s.why).contains("contract") || StringRef(s.why).contains("compares load") || StringRef(s.why).contains("different parts") || StringRef(s.why).contains("of one element with")) { R.ob(false, "strict-weak-order", key, w, s.why); continue; }
      R.notes.push_back("the comparison " + key + " was not understood: " + s.why); continue; }
    std::vector<Leaf> L; for (auto& l : ls) if (!l.thrown) L.push_back(l);
    string msg; size_t cases = 0; std::set<string> keys; for (auto& l : L) for (auto& [k, v] : l.a) if (StringRef(k).starts_with("rel ")) keys.insert(k.substr(4));
    for (auto& l : L) if (l.result && msg.empty()) { World W; ++cases; if (W.add(l.a, 0, 0) && W.consistent()) msg = "an element comes before itself (" + show(l) + ")"; }
    struct P { Asg ab, ba; bool c, d; };
    std::vector<P> ps2;
    for (auto& l : L) for (auto& m : L) { World W; if (!W.add(l.a, 0, 1) || !W.add(m.a, 1, 0) || !W.consistent()) continue; ps2.push_back({l.a, m.a, l.result, m.result}); ++cases;
      if (l.result && m.result && msg.empty()) msg = "two elements each come before the other (" + show(l) + ")"; }
    for (auto& l : L) if (l.result && msg.empty()) for (auto& m : L) if (m.result && msg.empty()) { World W; if (!W.add(l.a, 0, 1) || !W.add(m.a, 1, 2) || !W.consistent()) continue;
      for (auto& n : L) if (!n.result) { ++cases; World X = W; if (X.add(n.a, 0, 2) && X.consistent()) { msg = "not transitive: (" + show(l) + ") and (" + show(m) + ") but not (" + show(n) + ")"; break; } } }
    for (auto& l : ps2) if (!l.c && !l.d && msg.empty()) for (auto& m : ps2) if (!m.c && !m.d && msg.empty()) { World W; if (!W.add(l.ab, 0, 1) || !W.add(l.ba, 1, 0) || !W.add(m.ab, 1, 2) || !W.add(m.ba, 2, 1) || !W.consistent()) continue;
      for (auto& n : ps2) if (n.c || n.d) { ++cases; World X = W; if (X.add(n.ab, 0, 2) && X.add(n.ba, 2, 0) && X.consistent()) { msg = "ties are not transitive"; break; } } }
    R.count("comparators", 1); R.count("cases", cases);
    string ks; for (auto& k : keys) ks += (ks.empty() ? "" : ", ") + k;
    R.ob(msg.empty(), "strict-weak-order", key, w, msg.empty() ? "strict weak order over the keys " + ks + " (" + std::to_string(L.size()) + " cases)" : msg);
    if (!msg.empty()) continue;
    auto* ct = strip(ta);
    // elements that tie are the same: the container keeps one of them
    if (uses.count("ordered container")) {
      CHA cha(*M); string m2; size_t ties = 0;
      for (auto& p : ps2) if (!p.c && !p.d) {
        std::vector<string> eq; for (auto* q : {&p.ab, &p.ba}) for (auto& [k, v] : *q) if (StringRef(k).starts_with("rel ") && v == 0) eq.push_back(k.substr(4));
        std::vector<const DICompositeType*> cls;
        string tk; int64_t tv = OTHER;
        for (auto& [k, v] : p.ab) if (StringRef(k).starts_with("A virtual")) { tk = k; tv = v; }
        if (!tk.empty()) {   // the classes whose virtual function returns this constant
          int64_t slot = std::stoll(tk.substr(9));
          for (auto& vt : cha.vts) for (auto& arr : vt.arrays) if (slot >= 0 && (size_t)slot < arr.size() && arr[slot]) {
            int64_t cv = OTHER; for (auto& I : instructions(*arr[slot])) if (auto* Rt = dyn_cast<ReturnInst>(&I)) if (auto* K = dyn_cast_or_null<ConstantInt>(Rt->getReturnValue())) cv = K->getSExtValue();
            if (cv != tv) continue;
            auto* dc = findClass(*M, vt.cls); bool derived = false; std::vector<const DICompositeType*> up{dc}; 
            while (!up.empty()) { auto* x = up.back(); up.pop_back(); if (!x) continue; if (ct && x->getName() == ct->getName()) derived = true; for (auto* e : x->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_inheritance) up.push_back(dyn_cast_or_null<DICompositeType>(T.canon(m->getBaseType()))); }
            if (derived) cls.push_back(dc); }
        } else if (ct) cls.push_back(ct);
        for (auto* c : cls) for (auto& [n, o, s] : members(T, c)) { ++ties; if (!covered(E, eq, o, s) && m2.empty()) m2 = "two elements that differ in " + c->getName().str() + "::" + n + " are taken to be the same"; }
      }
      if (ties) R.ob(m2.empty(), "ties-are-equal", key, w, m2.empty() ? "elements that tie agree in every member (" + std::to_string(ties) + " obligations)" : m2);
    }
    // the histogram's order is documented: count descending, then user index and hit text ascending
    if (ct && ct->getName().contains("HistogramKey") && !StringRef(key).contains("HistogramKey::")) {
      auto* hk = findClass(*M, "HistogramKey"); uint64_t oi = 0, ot = 0, oc = 0;
      if (hk) for (auto* e : hk->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) { if (m->getName() == "UserIndex") oi = m->getOffsetInBits() / 8; if (m->getName() == "HitText") ot = m->getOffsetInBits() / 8; }
      for (auto* e : ct->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) if (m->getName() == "second") oc = m->getOffsetInBits() / 8;
      auto keyAt = [&](uint64_t o) { for (auto& k : keys) { auto it = E.keyRange.find(k); string s = "@" + (o ? "+" + std::to_string(o) : string()); if (k == "load8(" + s + ")" || k == "obj(" + s + ")") return k; (void)it; } return string(); };
      string kc = keyAt(oc), ki = keyAt(oi), kt = keyAt(ot), m3;
      if (kc.empty()) m3 = "does not order by the count"; else if (ki.empty()) m3 = "does not order by the user index"; else if (kt.empty()) m3 = "does not order by the hit text";
      else for (auto& l : L) for (int c = -1; c <= 1; ++c) for (int i = -1; i <= 1; ++i) for (int t = -1; t <= 1; ++t) {
        auto agree = [&](const string& k, int v) { auto it = l.a.find("rel " + k); return it == l.a.end() || it->second == v; };
        if (!agree(kc, c) || !agree(ki, i) || !agree(kt, t)) continue;
        bool spec = c > 0 || (c == 0 && (i < 0 || (i == 0 && t < 0)));
        bool tie = c == 0 && i == 0 && t == 0;
        if (spec != l.result && !tie && m3.empty()) m3 = "does not order by descending count, then ascending user index, then ascending hit text (" + show(l) + ")"; }
      R.ob(m3.empty(), "histogram-order", key, w, m3.empty() ? "descending count, then ascending user index, then ascending hit text" : m3);
    }
  }
  // equality used by hash containers: an equivalence over every member, and equal elements have the same hash
  std::vector<string> eqs; std::map<string, string> hashes;    // class -> hash function
  for (auto& F : *M0) {
    if (F.isDeclaration() || !inRepo(&F)) continue;
    string d = dem(F.getName());
    if (Eval::opName(&F) == "operator==" && F.getReturnType()->isIntegerTy(1) && F.arg_size() == 2) eqs.push_back(F.getName().str());
    StringRef n(d); if (n.starts_with("std::hash<") && n.contains(">::operator()(")) hashes[n.slice(10, n.find(">::operator()")).str()] = F.getName().str();
  }
  for (auto& name : eqs) {
    LLVMContext C; auto M = loadModule(C, a.at("--bc")); Function* F = M->getFunction(name); Types T(*M);
    InlineOpts O; O.stripEH = true; O.keep = opaque; inlineAll(*F, O);
    Argument *A = F->getArg(0), *B = F->getArg(1); string key = dem(name).substr(0, 160), w = whereF(F);
    auto* ct0 = T.argType(*F, 0); if (!ct0) continue; if (auto* p = Types::pointee(ct0)) ct0 = stripDI(p); auto* ct = dyn_cast_or_null<DICompositeType>(T.canon(ct0));
    if (!ct) continue;
    string cls = diQualName(ct); bool hashed = hashes.count(cls);
    Eval E(*F, A, B); std::vector<Leaf> ls;
    try { ls = E.leaves(); } catch (Stuck& s) { if (hashed) R.notes.push_back("the equality " + key + " was not understood: " + s.why); continue; }
    string msg; std::set<string> keys;
    for (auto& l : ls) for (auto& [k, v] : l.a) if (StringRef(k).starts_with("rel ")) keys.insert(k.substr(4));
    for (auto& l : ls) { World W; if (!l.result && W.add(l.a, 0, 0) && W.consistent() && msg.empty()) msg = "an element is not equal to itself"; }
    for (auto& l : ls) for (auto& m : ls) { World W; if (l.result && !m.result && W.add(l.a, 0, 1) && W.add(m.a, 1, 0) && W.consistent() && msg.empty()) msg = "not symmetric"; }
    for (auto& l : ls) if (l.result) for (auto& m : ls) if (m.result) for (auto& n : ls) if (!n.result && msg.empty()) { World W; if (W.add(l.a, 0, 1) && W.add(m.a, 1, 2) && W.add(n.a, 0, 2) && W.consistent()) msg = "not transitive"; }
    R.ob(msg.empty(), "equality-is-equivalence", key, w, msg.empty() ? "reflexive, symmetric and transitive" : msg);
    std::vector<string> always(keys.begin(), keys.end());
    for (auto& l : ls) if (l.result) { std::vector<string> v; for (auto& k : always) { auto it = l.a.find("rel " + k); if (it != l.a.end() && it->second == 0) v.push_back(k); } always = v; }
    string m2; for (auto& [n, o, s] : members(T, ct)) if (!covered(E, always, o, s)) m2 += "elements that differ in " + n + " are taken to be equal; ";
    R.ob(m2.empty(), "equality-covers-members", key, w, m2.empty() ? "equal elements agree in every member" : m2);
    if (!hashed) continue;
    Function* H = M->getFunction(hashes[cls]); string m3;
    { InlineOpts O2; O2.stripEH = true; O2.keep = [](const Function& G) { return StringRef(dem(G.getName())).contains("_Hash_bytes") || StringRef(fnName(&G)).starts_with("std::hash<"); }; inlineAll(*H, O2); }
    const Argument* x = H->getArg(H->arg_size() - 1); size_t reads = 0;
    auto ms = members(T, ct);
    auto seen = [&](int64_t o) { ++reads; for (auto& [n, mo, s] : ms) if (o >= (int64_t)mo && o < (int64_t)(mo + s)) { if (!covered(E, always, mo, s)) m3 += "the hash depends on " + n + ", which equality ignores; "; return; } m3 += "the hash reads memory that is no member; "; };
    for (auto& I : instructions(*H)) {
      auto look = [&](const Value* p) { APInt o(64, 0); auto* b = p->stripAndAccumulateConstantOffsets(H->getParent()->getDataLayout(), o, true); if (b == x) seen(o.getSExtValue()); };
      if (auto* L = dyn_cast<LoadInst>(&I)) look(L->getPointerOperand());
      if (auto* CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) {
        for (auto& g : CB->args()) if (g->getType()->isPointerTy()) look(g.get());
        if (!CB->getCalledFunction()) m3 += "the hash calls an unknown function; "; }
      if (isa<PtrToIntInst>(I) && !isa<LoadInst>(I.getOperand(0))) m3 += "the hash depends on an address; ";
    }
    R.ob(m3.empty(), "hash-agrees-with-equality", dem(hashes[cls]).substr(0, 120), whereF(H), m3.empty() ? "the hash reads only members that equality compares (" + std::to_string(reads) + " reads)" : m3);
  }
  return 0;
}
static Reg ro("F02", f02);
