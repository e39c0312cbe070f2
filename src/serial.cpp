#include "beval.h"
// E01: what is written is what is read back. Every function that writes or reads a serialized program is evaluated abstractly;
// the pieces written (place, length, source) and the pieces read (place, width, destination) are then compared.
using namespace be;
void unrollFixed(Function& F);
namespace {
typedef std::map<string, int64_t> T;
struct L { T t; int64_t c = 0; bool operator==(const L& o) const { return t == o.t && c == o.c; } };
L plus(L a, const L& b, int64_t k = 1) { for (auto& [n, m] : b.t) { a.t[n] += k * m; if (!a.t[n]) a.t.erase(n); } a.c += k * b.c; return a; }
string show(const L& l) { string s; for (auto& [n, m] : l.t) s += (s.empty() ? "" : " + ") + (m == 1 ? "" : std::to_string(m) + "*") + n; if (l.c || s.empty()) s += (s.empty() ? "" : " + ") + std::to_string(l.c); return s; }
L posOf(const V& p) { L l; l.t = p.idx; l.c = p.off; return l; }
V at(const string& root, const L& l) { V v = ptr(root, l.c); v.idx = l.t; return v; }
string pname(const V& p) { return str(p).substr(1); }
// bytes that are w consecutive bytes of memory behind root, from offset off
bool field(const V& v, const string& root, int64_t& off, unsigned& w) {
  if (v.k != V::Int || v.b.empty()) return false; w = v.b.size();
  for (unsigned i = 0; i < w; ++i) { auto& b = v.b[i]; if (b.c >= 0 || !StringRef(b.s).starts_with(root + "+")) return false; string d = b.s.substr(root.size() + 1); if (d.empty() || d.find_first_not_of("0123456789") != string::npos) return false; int64_t o = std::stoll(d); if (!i) off = o; else if (o != off + (int64_t)i) return false; }
  return true; }
struct Piece { L at, len; string root; V val; bool copy = false; Piece() {} };
struct Ctx { DominatorTree DT; LoopInfo LI; AssumptionCache AC; TargetLibraryInfoImpl TI; TargetLibraryInfo TLI; ScalarEvolution SE;
  Ctx(Function& F) : DT(F), LI(DT), AC(F), TI(Triple(F.getParent()->getTargetTriple())), TLI(TI), SE(F, TLI, AC, DT, LI) {} };
string strLen(const V& p) { return "len(" + pname(p) + ")"; }
// --- bits: a counted loop over bits, with its counters known
typedef int Bit;   // 0, 1, -1 unknown, else 2 + 2 * name + negated
struct BV { bool isPtr = false; string root; int64_t off = 0; std::vector<Bit> b; bool unk = true; };
struct Bits {
  Function& F; const DataLayout& DL; PostDominatorTree PDT; std::vector<std::tuple<string, int64_t, int>> names; std::map<std::tuple<string, int64_t, int>, int> id;
  std::map<std::pair<string, int64_t>, std::vector<Bit>> mem; std::map<const Value*, BV> env; std::vector<std::pair<std::pair<string, int64_t>, std::vector<Bit>>> undo; std::set<std::pair<string, int64_t>> written; size_t steps = 0;
  Bits(Function& F) : F(F), DL(F.getParent()->getDataLayout()), PDT(F) {}
  std::function<bool(const string&, int64_t)> zero;
  static Bit neg(Bit b) { return b < 0 ? -1 : b < 2 ? 1 - b : b ^ 1; }
  Bit nameOf(const string& r, int64_t o, int i) { auto k = std::make_tuple(r, o, i); auto it = id.find(k); if (it == id.end()) { it = id.emplace(k, names.size()).first; names.push_back(k); } return 2 + 2 * it->second; }
  std::vector<Bit> byteAt(const string& r, int64_t o) { auto it = mem.find({r, o}); if (it != mem.end()) return it->second; if (zero && zero(r, o)) return std::vector<Bit>(8, 0); std::vector<Bit> v; for (int i = 0; i < 8; ++i) v.push_back(nameOf(r, o, i)); return v; }
  BV val(const Value* v) { v = v->stripPointerCasts(); auto e = env.find(v); if (e != env.end()) return e->second; BV r;
    if (auto* c = dyn_cast<ConstantInt>(v)) { r.unk = false; for (unsigned i = 0; i < c->getBitWidth(); ++i) r.b.push_back(c->getValue()[i]); return r; }
    if (auto* G = dyn_cast<GEPOperator>(v)) if (!isa<Instruction>(v)) return gep(G);
    return r; }
  static bool con(const BV& v, uint64_t& n) { if (v.unk || v.isPtr || v.b.size() > 64) return false; n = 0; for (size_t i = 0; i < v.b.size(); ++i) { if (v.b[i] != 0 && v.b[i] != 1) return false; n |= (uint64_t)v.b[i] << i; } return true; }
  static BV mk(uint64_t n, unsigned w) { BV r; r.unk = false; for (unsigned i = 0; i < w; ++i) r.b.push_back(i < 64 ? (n >> i) & 1 : 0); return r; }
  BV gep(const GEPOperator* G) { BV p = val(G->getPointerOperand()); if (p.unk || !p.isPtr) return BV(); APInt c(64, 0); MapVector<Value*, APInt> vs; if (!G->collectOffset(DL, 64, vs, c)) return BV(); p.off += c.getSExtValue(); for (auto& [x, k] : vs) { uint64_t n; if (!con(val(x), n)) return BV(); unsigned w = x->getType()->getIntegerBitWidth(); int64_t s = w < 64 && (n >> (w - 1) & 1) ? (int64_t)(n | ~((1ULL << w) - 1)) : (int64_t)n; p.off += s * k.getSExtValue(); } return p; }
  static Bit ite(Bit c, Bit x, Bit y) { if (x == y) return x; if (x == 1 && y == 0) return c; if (x == 0 && y == 1) return neg(c); return -1; }
  static BV merge(Bit c, const BV& x, const BV& y) { if (x.unk || y.unk || x.isPtr != y.isPtr) return BV(); if (x.isPtr) { if (x.root == y.root && x.off == y.off) return x; return BV(); } BV r; r.unk = false; for (size_t i = 0; i < x.b.size() && i < y.b.size(); ++i) r.b.push_back(ite(c, x.b[i], y.b[i])); return r; }
  // where the ways out of bb meet again, apart from those that end in an exception
  std::map<const BasicBlock*, const BasicBlock*> met;
  const BasicBlock* meet(const BasicBlock* bb, const Loop* L) { auto it = met.find(bb); if (it != met.end()) return it->second; auto& r = met[bb]; r = nullptr; if (!L) return r; auto* Br = bb->getTerminator();
    auto in = [&](const BasicBlock* b) { return L->contains(b) && b != L->getHeader(); };
    std::vector<const BasicBlock*> q{Br->getSuccessor(0)}; std::set<const BasicBlock*> seen; for (size_t i = 0; i < q.size(); ++i) { if (!seen.insert(q[i]).second || !in(q[i])) continue; auto* c = q[i];
      // without c, can the loop go on or be left?
      std::vector<const BasicBlock*> w; std::set<const BasicBlock*> s2; for (auto* s : successors(bb)) w.push_back(s); bool esc = false; while (!w.empty() && !esc) { auto* x = w.back(); w.pop_back(); if (x == c || !s2.insert(x).second) continue; if (!L->contains(x)) { const BasicBlock* d = x; for (int k = 0; k < 20 && d && !isa<UnreachableInst>(d->getTerminator()); ++k) d = d->getSingleSuccessor(); if (!d || !isa<UnreachableInst>(d->getTerminator())) esc = true; continue; } if (x == L->getHeader()) { esc = true; continue; } for (auto* s : successors(x)) w.push_back(s); }
      if (!esc) { r = c; return r; } for (auto* s : successors(c)) q.push_back(s); }
    return r; }
  // evaluates from bb (entered from prev) up to stop, or until the loop is left; false: not understood
  bool run(const BasicBlock* bb, const BasicBlock* prev, const BasicBlock* stop, const Loop* L, bool first, string& why, const BasicBlock*& last) {
    for (;;) {
      if (bb == stop && !first) { last = prev; return true; }
      if (L && !L->contains(bb)) { last = prev; return true; }
      if (++steps > 3000000) { why = "too long"; return false; }
      if (!first) { std::vector<std::pair<const Value*, BV>> up; for (auto& P : bb->phis()) up.push_back({&P, val(P.getIncomingValueForBlock(prev))}); for (auto& [p, v] : up) env[p] = v; }
      first = false;
      for (auto& I : *bb) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || I.isTerminator()) continue;
        auto op = [&](unsigned i) { return val(I.getOperand(i)); }; BV r; unsigned w = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 0;
        if (auto* Ld = dyn_cast<LoadInst>(&I)) { BV p = op(0); if (!p.unk && p.isPtr && w && w % 8 == 0) { r.unk = false; for (unsigned i = 0; i < w / 8; ++i) { auto b = byteAt(p.root, p.off + i); r.b.insert(r.b.end(), b.begin(), b.end()); } } else if (!p.unk && p.isPtr && Ld->getType()->isPointerTy()) { r.unk = false; r.isPtr = true; r.root = "load(" + p.root + "+" + std::to_string(p.off) + ")"; } }
        else if (auto* S = dyn_cast<StoreInst>(&I)) { BV v = op(0), p = op(1); if (p.unk || !p.isPtr) { why = "a place written in a loop is not understood"; return false; } unsigned n = DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
          for (unsigned i = 0; i < n; ++i) { std::pair<string, int64_t> k{p.root, p.off + i}; undo.push_back({k, byteAt(k.first, k.second)}); std::vector<Bit> b(8, -1); if (!v.unk && !v.isPtr) for (int j = 0; j < 8; ++j) if (8 * i + j < v.b.size()) b[j] = v.b[8 * i + j]; else b[j] = 0; mem[k] = b; written.insert(k); } continue; }
        else if (auto* G = dyn_cast<GEPOperator>(&I)) r = gep(G);
        else if (isa<ZExtInst>(I) || isa<TruncInst>(I)) { r = op(0); if (!r.unk && !r.isPtr) r.b.resize(w, 0); else r = BV(); }
        else if (isa<SExtInst>(I)) { r = op(0); if (!r.unk && !r.isPtr) r.b.resize(w, r.b.back()); else r = BV(); }
        else if (isa<FreezeInst>(I)) r = op(0);
        else if (isa<SelectInst>(I)) { BV c = op(0); if (!c.unk && c.b.size() == 1 && c.b[0] >= 0) r = c.b[0] == 1 ? op(1) : c.b[0] == 0 ? op(2) : merge(c.b[0], op(1), op(2)); }
        else if (auto* C = dyn_cast<ICmpInst>(&I)) { BV x = op(0), y = op(1); uint64_t a, b; auto P = C->getPredicate();
          if (con(x, a) && con(y, b)) r = mk(ICmpInst::compare(APInt(x.b.size(), a), APInt(y.b.size(), b), P), 1);
          else if (!x.unk && !y.unk && x.isPtr && y.isPtr && x.root == y.root) r = mk(ICmpInst::compare(APInt(64, x.off, true), APInt(64, y.off, true), P), 1);
          else if (!x.unk && !y.unk && !x.isPtr && !y.isPtr && (C->isEquality() || P == ICmpInst::ICMP_SLT)) {
            if (P == ICmpInst::ICMP_SLT) { if (con(y, b) && !b) { r = mk(0, 1); r.b[0] = x.b.back(); } }
            else { Bit only = 1; bool bad = false; for (size_t i = 0; i < x.b.size(); ++i) { Bit p = x.b[i], q = y.b[i]; Bit e; if (p < 0 || q < 0) { bad = true; break; } if (p == q) e = 1; else if (p < 2 && q < 2) e = 0; else if (q < 2) e = q ? p : neg(p); else if (p < 2) e = p ? q : neg(q); else if (p == neg(q)) e = 0; else { bad = true; break; } if (e == 0) { only = 0; bad = false; break; } if (e == 1) continue; if (only == 1) only = e; else if (only != e) { bad = true; break; } }
              if (!bad) { r = mk(0, 1); r.b[0] = P == ICmpInst::ICMP_EQ ? only : neg(only); } } } }
        else if (auto* Bo = dyn_cast<BinaryOperator>(&I)) { BV x = op(0), y = op(1); uint64_t a, b; auto o = Bo->getOpcode();
          if (!x.unk && !y.unk && !x.isPtr && !y.isPtr) {
            if (con(x, a) && con(y, b)) { APInt A(w, a), B(w, b), Q; bool ok = true; switch (o) { case Instruction::Add: Q = A + B; break; case Instruction::Sub: Q = A - B; break; case Instruction::Mul: Q = A * B; break; case Instruction::And: Q = A & B; break; case Instruction::Or: Q = A | B; break; case Instruction::Xor: Q = A ^ B; break; case Instruction::Shl: Q = A.shl(B); break; case Instruction::LShr: Q = A.lshr(B); break; case Instruction::AShr: Q = A.ashr(B); break; case Instruction::UDiv: ok = b; if (ok) Q = A.udiv(B); break; case Instruction::URem: ok = b; if (ok) Q = A.urem(B); break; default: ok = false; } if (ok) r = mk(Q.getZExtValue(), w); }
            else if (o == Instruction::And || o == Instruction::Or || o == Instruction::Xor) { r.unk = false; for (unsigned i = 0; i < w; ++i) { Bit p = x.b[i], q = y.b[i]; if (p == 0 || p == 1) std::swap(p, q); Bit z = -1; if (o == Instruction::And) z = q == 0 ? 0 : q == 1 ? p : p == q ? p : p >= 2 && q >= 2 && p == neg(q) ? 0 : -1; else if (o == Instruction::Or) z = q == 1 ? 1 : q == 0 ? p : p == q ? p : p >= 2 && q >= 2 && p == neg(q) ? 1 : -1; else z = q == 0 ? p : q == 1 ? neg(p) : p == q && p >= 0 ? 0 : -1; r.b.push_back(z); } }
            else if ((o == Instruction::Shl || o == Instruction::LShr || o == Instruction::AShr) && con(y, b) && b < w) { r.unk = false; for (unsigned i = 0; i < w; ++i) { int64_t j = o == Instruction::Shl ? (int64_t)i - (int64_t)b : (int64_t)i + (int64_t)b; r.b.push_back(j < 0 ? 0 : j >= (int64_t)w ? (o == Instruction::AShr ? x.b.back() : 0) : x.b[j]); } }
            else if (o == Instruction::Add) { bool dis = true; r.unk = false; for (unsigned i = 0; i < w; ++i) { if (x.b[i] != 0 && y.b[i] != 0) dis = false; r.b.push_back(x.b[i] == 0 ? y.b[i] : x.b[i]); } if (!dis) r = BV(); } } }
        else if (auto* CB = dyn_cast<CallBase>(&I)) { auto* f = CB->getCalledFunction(); if (!f || !f->isIntrinsic()) { why = "a loop calls something"; return false; } }
        env[&I] = r; }
      auto* Tm = bb->getTerminator(); auto* Br = dyn_cast<BranchInst>(Tm); if (!Br) { why = "a loop ends in an unexpected way"; return false; }
      if (!Br->isConditional()) { prev = bb; bb = Br->getSuccessor(0); continue; }
      BV c = val(Br->getCondition()); if (c.unk || c.b.size() != 1 || c.b[0] < 0) { why = "a condition in a loop is not understood"; return false; }
      if (c.b[0] < 2) { prev = bb; bb = Br->getSuccessor(c.b[0] ? 0 : 1); continue; }
      auto* N = PDT.getNode(const_cast<BasicBlock*>(bb)); const BasicBlock* J = N && N->getIDom() ? N->getIDom()->getBlock() : nullptr; if (!J) J = meet(bb, L); if (!J || (L && !L->contains(J))) { why = "two ways do not meet again"; return false; }
      // both ways, then both memories merged
      auto both = [&](unsigned i, std::map<std::pair<string, int64_t>, std::vector<Bit>>& after, std::map<const Value*, BV>& phis) -> bool {
        size_t mark = undo.size(); auto* s = Br->getSuccessor(i); const BasicBlock* l = bb; if (s != J) { if (!run(s, bb, J, L, false, why, l)) return false; }
        for (auto& P : J->phis()) phis[&P] = val(P.getIncomingValueForBlock(l));
        for (size_t k = mark; k < undo.size(); ++k) after[undo[k].first] = mem[undo[k].first];
        while (undo.size() > mark) { mem[undo.back().first] = undo.back().second; undo.pop_back(); } return true; };
      std::map<std::pair<string, int64_t>, std::vector<Bit>> ma, mb; std::map<const Value*, BV> pa, pb; if (!both(0, ma, pa) || !both(1, mb, pb)) return false;
      std::set<std::pair<string, int64_t>> ks; for (auto& [k, v] : ma) ks.insert(k); for (auto& [k, v] : mb) ks.insert(k);
      for (auto& k : ks) { auto x = ma.count(k) ? ma[k] : byteAt(k.first, k.second), y = mb.count(k) ? mb[k] : byteAt(k.first, k.second); undo.push_back({k, byteAt(k.first, k.second)}); std::vector<Bit> z; for (int i = 0; i < 8; ++i) z.push_back(ite(c.b[0], x[i], y[i])); mem[k] = z; }
      for (auto& [p, v] : pa) env[p] = merge(c.b[0], v, pb[p]);
      if (J == stop) { last = nullptr; return true; }
      bb = J; first = true;    // its phis are known
    } }
};
int run(const std::map<string, string>& args) {
  LLVMContext C; auto M = loadModule(C, args.at("--bc")); const DataLayout& DL = M->getDataLayout();
  auto find = [&](const string& n) { Function* r = nullptr; for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F) && fnName(&F) == n) r = &F; return r; };
  Function *pm = find("Program::marshall"), *pu = find("Program::unmarshall"), *ps = find("Program::bufSize"), *mm = find("PatternMap::marshall"), *mu = find("PatternMap::unmarshall"), *ms = find("PatternMap::bufSize"), *wr = M->getFunction("lg_write_program"), *rd = M->getFunction("lg_read_program"), *sz = M->getFunction("lg_program_size");
  for (auto& [f, n] : std::vector<std::pair<Function*, string>>{{pm, "Program::marshall"}, {pu, "Program::unmarshall"}, {ps, "Program::bufSize"}, {mm, "PatternMap::marshall"}, {mu, "PatternMap::unmarshall"}, {ms, "PatternMap::bufSize"}, {wr, "lg_write_program"}, {rd, "lg_read_program"}, {sz, "lg_program_size"}}) if (!f) { R.error(n + " was not found"); return 0; }
  std::set<Function*> box{pm, pu, ps, mm, mu, ms};
  auto isPush = [](const Function& f) { string n = fnName(&f); return StringRef(n).starts_with("std::vector<LG_PatternInfo") && (n.find("push_back") != string::npos || n.find("emplace_back") != string::npos); };
  auto isCopy = [](const Function& f) { string n = fnName(&f); return StringRef(n).ends_with("::__copy_m") || n.find("::__copy_m<") != string::npos; };
  auto opts = [&](Function* self, bool top) { InlineOpts O; O.stripEH = true; O.keep = [=, &box](const Function& g) { return isPush(g) || isCopy(g) || (top && &g != self && box.count(const_cast<Function*>(&g))); }; return O; };
  for (auto* f : {wr, rd, sz}) inlineAll(*f, opts(f, true)); for (auto* f : {pm, pu, ps, mm, mu, ms}) inlineAll(*f, opts(f, false)); for (auto* f : {wr, rd, sz, pm, pu, ps, mm, mu, ms}) unrollFixed(*f);
  auto bind = [&](Function& F, Eval& E, bool reads) { unsigned k = 0; for (auto& A : F.args()) { string n; if (A.hasStructRetAttr()) n = "ret"; else if (A.getType()->isPointerTy()) n = reads ? "buf" : k == 0 ? "this" : "buf"; if (!n.empty()) { if (n != "ret") ++k; E.args[&A] = ptr(n); } else { V v = sym("N()", DL.getTypeStoreSize(A.getType()).getFixedValue()); E.args[&A] = v; } }
    E.stable = {"this", "buf", "ret"}; for (int i = 0; i < 40; ++i) E.stable.insert("new" + std::to_string(i)); for (int i = 0; i < 60; ++i) E.stable.insert("alloca" + std::to_string(i)); E.keepEnv = true; };
  struct Mem { std::vector<Piece> p; };
  std::map<const CallBase*, int> news; std::set<std::tuple<string, int64_t, int64_t>> zeroed;
  // the writes and copies of one evaluation, in order
  struct Push { std::map<int64_t, V> f; };
  auto hookOf = [&](std::vector<std::pair<Function*, std::vector<V>>>* boxed, std::vector<Push>* pushes) {
    return [&, boxed, pushes](Eval& e, const CallBase* CB, const std::vector<V>& a, V& r) -> bool {
      if (auto* Mt = dyn_cast<MemTransferInst>(CB)) { uint64_t n; (void)n; if (auto* K = dyn_cast<ConstantInt>(Mt->getLength()); K && a[0].k == V::Ptr && StringRef(a[0].root).starts_with("alloca")) return false; e.o.stores.push_back({a[0], a[1]}); V len = a[2]; Event ev; ev.call = CB; ev.args = {a[0], a[1], a[2]}; ev.pm[{"#", (int64_t)e.o.stores.size() - 1}] = len; e.o.calls.push_back(ev); e.o.sizes.push_back(0); return true; }
      if (auto* Ms = dyn_cast<MemSetInst>(CB)) { (void)Ms; uint64_t n = 0; if (a[0].k == V::Ptr && a[0].idx.empty() && str(a[1]) == "0") { string l = str(a[2]); if (!l.empty() && l.find_first_not_of("0123456789") == string::npos) n = std::stoull(l); if (n) zeroed.insert({a[0].root, a[0].off, (int64_t)n}); } return false; }
      auto* f = CB->getCalledFunction(); if (!f) return false;
      if (isCopy(*f) && a.size() == 3 && a[0].k == V::Ptr && a[1].k == V::Ptr && a[2].k == V::Ptr && a[0].root == a[1].root) {
        L d = plus(posOf(a[1]), posOf(a[0]), -1); V len = sum(d.t, d.c, 8); e.o.stores.push_back({a[2], a[0]}); Event ev; ev.call = CB; ev.args = {a[2], a[0], len}; ev.pm[{"#", (int64_t)e.o.stores.size() - 1}] = len; e.o.calls.push_back(ev); e.o.sizes.push_back(0); r = at(a[2].root, plus(posOf(a[2]), d)); return true; }
      if (f->getName() == "_Znwm" || f->getName() == "_Znam") { auto it = news.emplace(CB, news.size()).first; r = ptr("new" + std::to_string(it->second)); return true; }
      if (f->getName() == "strlen" && a[0].k == V::Ptr) { r = sum({{strLen(a[0]), 1}}, 0, 8); return true; }
      if ((f->getName() == "memchr" || f->getName() == "strchr") && a.size() >= 2 && a[0].k == V::Ptr && str(a[1]) == "0") { r = a[0]; r.idx[strLen(a[0])] += 1; e.fixed["eq null " + pname(r)] = 0; e.fixed["eq " + pname(r) + " null"] = 0; return true; }
      if (isPush(*f)) { Push p; if (a.size() >= 2 && a[1].k == V::Ptr) for (auto& [k, v] : e.o.pm) if (k.first == a[1].root) p.f[k.second - a[1].off] = v;
        if (a.size() >= 2 && a[1].k == V::Ptr) for (int64_t o = 0; o < 64; o += 8) if (!p.f.count(o)) { V v; v.k = V::Int; bool any = false; for (int i = 0; i < 8; ++i) { auto it = e.o.mem.find({a[1].root, a[1].off + o + i}); v.b.push_back(it == e.o.mem.end() ? B() : it->second); any |= it != e.o.mem.end(); } if (any) p.f[o] = v; }
        if (pushes) { Event ev; ev.call = CB; for (auto& [o, v] : p.f) ev.pm[{"push", o}] = v; e.o.calls.push_back(ev); } r = ptr("pushed"); return true; }
      if (boxed && box.count(f)) { Event ev; ev.call = CB; ev.args = a; e.o.calls.push_back(ev);
        string n = StringRef(fnName(f)).starts_with("PatternMap") ? "patterns" : "code";
        if (f == pm || f == mm) { e.o.pm[{a[0].root, a[0].off}] = ptr(n); V end = ptr(n); end.idx["size(" + n + ")"] = 1; e.o.pm[{a[0].root, a[0].off + 8}] = end; }
        if (f == ps || f == ms) r = sum({{"size(" + n + ")", 1}}, 0, 8);
        if (f == pu || f == mu) { e.o.pm[{a[0].root, a[0].off}] = ptr("loaded " + n); }
        return true; }
      if (f->getName() == "_ZdlPv" || f->getName() == "_ZdaPv" || StringRef(f->getName()).starts_with("_ZdlPvm")) { r = V(); return true; }
      return false; }; };
  auto pieces = [&](Eval& E, Out& o, const string& root, string& why) { std::vector<Piece> ps; size_t nc = 0; std::map<size_t, const Event*> cp; for (auto& c : o.calls) for (auto& [k, v] : c.pm) if (k.first == "#") cp[k.second] = &c; (void)nc;
    for (size_t i = 0; i < o.stores.size(); ++i) { auto& [d, v] = o.stores[i]; if (d.k != V::Ptr || d.root != root) continue; Piece p; p.at = posOf(d); p.val = v; 
      if (cp.count(i)) { p.copy = true; T t; int64_t c = 0; if (!E.lin(cp[i]->args[2], t, c)) { why = "the length of a copy is not understood"; continue; } for (auto& [n, m] : t) if (m) p.len.t[n] = m; p.len.c = c; } else p.len.c = o.sizes[i];
      if (!p.copy && str(v) == "0") continue;     // filling with zeroes
      ps.push_back(p); }
    return ps; };
  // puts pieces one behind the other; empty if there is a gap or an overlap
  auto chain = [&](std::vector<Piece> ps, L from, L& end, string& why) { std::vector<Piece> out; end = from; while (!ps.empty()) { bool got = false; for (size_t i = 0; i < ps.size(); ++i) if (ps[i].at == end) { end = plus(end, ps[i].len); out.push_back(ps[i]); ps.erase(ps.begin() + i); got = true; break; } if (!got) { why = "a piece is written at " + show(ps[0].at) + " but what is before it ends at " + show(end); return std::vector<Piece>(); } } return out; };
  try {
  // ---- the container: what lg_write_program puts where, and where lg_read_program looks
  L total; std::vector<Piece> wp; { Eval E(*wr); bind(*wr, E, false); std::vector<std::pair<Function*, std::vector<V>>> bx; E.hook = hookOf(&bx, nullptr); bool any = false; string why; for (auto& o : E.all()) { if (o.thrown || o.looped) continue; auto ps2 = pieces(E, o, "buf", why); if (ps2.empty()) continue; L end; auto c = chain(ps2, L(), end, why); if (c.empty()) { any = false; break; } if (any && !(end == total)) { why = "it writes different amounts"; any = false; break; } any = true; total = end; wp = c; }
    R.ob(any && why.empty(), "the program is written without gaps", "lg_write_program", whereF(wr), why.empty() ? "what it writes is not understood" : why); R.count("pieces of the container", wp.size()); }
  { Eval E(*sz); bind(*sz, E, false); std::vector<std::pair<Function*, std::vector<V>>> bx; E.hook = hookOf(&bx, nullptr); for (auto& o : E.all()) { if (o.thrown) continue; T t; int64_t c = 0; L r; bool ok = E.lin(o.ret, t, c); for (auto& [n, m] : t) if (m) r.t[n] = m; r.c = c; R.ob(ok && r == total, "the announced size is what is written", "lg_program_size", whereF(sz), "it announces " + show(r) + " bytes, but " + show(total) + " are written"); } }
  { Eval E(*rd); bind(*rd, E, true); std::vector<std::pair<Function*, std::vector<V>>> bx; E.hook = hookOf(&bx, nullptr); size_t good = 0; for (auto& o : E.all()) { if (o.thrown || (o.ret.k == V::Ptr && o.ret.root == "null")) continue;
      std::vector<const Event*> rs; for (auto& c : o.calls) { auto* f = c.call->getCalledFunction(); if (f == pu || f == mu) rs.push_back(&c); }
      ++good; L cur; std::map<string, V> bound; bool ok = true; string why; size_t k = 0;
      for (auto& p : wp) { V here = at("buf", cur); string nm; if (p.len.t.empty() && p.len.c <= 8 && !p.copy) { // a number: it must be the size of something
          T t; int64_t c = 0; if (!E.lin(p.val, t, c) || t.size() != 1 || c || t.begin()->second != 1) { ok = false; why = "a number that is written is not the size of a part"; break; }
          V v; v.k = V::Int; if (here.idx.empty()) { for (int i = 0; i < p.len.c; ++i) v.b.push_back({-1, "buf+" + std::to_string(here.off + i)}); } else v = sym("load" + std::to_string(p.len.c) + "(" + pname(here) + ")", p.len.c); bound[t.begin()->first] = v; cur.c += p.len.c; }
        else { string part = p.val.k == V::Ptr ? p.val.root : ""; if (!(p.len.t.size() == 1 && !p.len.c && p.len.t.begin()->first == "size(" + part + ")") || !bound.count("size(" + part + ")")) { ok = false; why = "a part is not written with its size before it"; break; }
          V n = bound["size(" + part + ")"]; const Event* ev = nullptr; for (auto* r : rs) if ((r->call->getCalledFunction() == mu) == (part == "patterns")) ev = r;
          if (!ev || ev->args.size() < 3) { ok = false; why = "the " + part + " are written but not read"; break; } ++k;
          if (!(ev->args[1] == here)) { ok = false; why = "the " + part + " are written behind " + show(cur) + " bytes but read at " + pname(ev->args[1]); break; }
          if (str(ev->args[2]) != str(n)) { ok = false; why = "the " + part + " are read with length " + str(ev->args[2]) + " instead of " + str(n); break; }
          T t; int64_t c = 0; E.lin(n, t, c); for (auto& [x, m] : t) cur.t[x] += m; cur.c += c; } }
      if (ok && k != rs.size()) { ok = false; why = "something is read that is not written"; }
      R.ob(ok, "the parts of a program are read where they were written", "lg_read_program", whereF(rd), why); }
    R.ob(good > 0, "a program can be read", "lg_read_program", whereF(rd), "no way through it reads a program"); }
  // ---- the code
  struct Src { int64_t off; unsigned w; }; std::map<int64_t, Src> written; L codeAt, codeLen; string codeSrc; Function* filterW = nullptr; int64_t bitsAt = -1, bitsLen = 0; std::map<std::pair<int64_t, int>, std::pair<int64_t, int>> bitsOut; L codeTotal; bool codeOk = false;
  // what the loops over bits do, computed once for each way they are entered
  struct Done { std::shared_ptr<Bits> B; bool ok = false; string why; }; std::map<string, Done> done;
  auto doBits = [&](Function& F, const Loop* Lp, const std::map<const Value*, V>& ins, const std::map<const Value*, V>& env) -> Done& {
    string key = F.getName().str() + std::to_string(valueId(Lp->getHeader())); for (auto& P : Lp->getHeader()->phis()) key += " " + str(ins.at(&P)); auto it = done.find(key); if (it != done.end()) return it->second;
    Done& D = done[key]; D.B = std::make_shared<Bits>(F); auto& Bt = *D.B; Bt.zero = [&](const string& r, int64_t o) { for (auto& [zr, zo, zn] : zeroed) if (zr == r && o >= zo && o < zo + zn) return true; return false; };
    auto give = [&](const Value* v, const V& x) { BV b; if (x.k == V::Ptr && x.idx.empty()) { b.unk = false; b.isPtr = true; b.root = x.root; b.off = x.off; } else if (x.k == V::Int && v->getType()->isIntegerTy()) { bool c = true; uint64_t n = 0; for (size_t i = 0; i < x.b.size(); ++i) { c &= x.b[i].c >= 0; if (c && i < 8) n |= (uint64_t)x.b[i].c << (8 * i); } if (c) b = Bits::mk(n, v->getType()->getIntegerBitWidth()); } Bt.env[v] = b; };
    for (auto& [v, x] : env) if (auto* I = dyn_cast<Instruction>(v)) if (!Lp->contains(I->getParent())) give(v, x);
    for (auto& A : F.args()) if (A.getType()->isPointerTy()) { BV b; b.unk = false; b.isPtr = true; b.root = A.hasStructRetAttr() ? "ret" : &F == pu ? "buf" : "this"; Bt.env[&A] = b; }
    for (auto& P : Lp->getHeader()->phis()) give(&P, ins.at(&P));
    const BasicBlock* last = nullptr; D.ok = Bt.run(Lp->getHeader(), nullptr, nullptr, Lp, true, D.why, last); if (D.ok) R.count("steps through loops over bits", Bt.steps); return D; };
  auto usesBits = [&](const std::map<const Value*, V>& ins, const string& root) { for (auto& [p, v] : ins) if (v.k == V::Ptr && v.root == root) return true; return false; };
  auto loopEnd = [&](Function& F) { return [&](Eval& e, const Loop* Lp, const std::map<const Value*, V>& ins, std::map<const Value*, V>& fin) { if (!usesBits(ins, "buf") && !(&F == pm)) return false; Done& D = doBits(F, Lp, ins, e.env); if (!D.ok) return false;
    for (auto* b : Lp->blocks()) for (auto& I : *b) { auto it = D.B->env.find(&I); if (it == D.B->env.end() || it->second.unk) continue; uint64_t n; if (it->second.isPtr) fin[&I] = ptr(it->second.root, it->second.off); else if (Bits::con(it->second, n)) fin[&I] = be::con(n, (it->second.b.size() + 7) / 8); } return true; }; };
  { Ctx X(*pm); Eval E(*pm); bind(*pm, E, false); E.loopEnd = loopEnd(*pm); E.LI = &X.LI; E.SE = &X.SE; E.skip = true; E.hook = hookOf(nullptr, nullptr); string why = "no way through it is understood"; 
    for (auto& o : E.all()) { if (o.thrown || o.looped) continue; auto bi = o.pm.find({"ret", 0}), ei = o.pm.find({"ret", 8}); if (bi == o.pm.end() || ei == o.pm.end() || bi->second.k != V::Ptr || bi->second.root == "null") continue; string root = bi->second.root; auto written0 = written; L codeAt0 = codeAt, codeLen0 = codeLen, total0 = codeTotal; string src0 = codeSrc; auto bits0 = bitsOut; bool again = codeOk; codeOk = false; written.clear(); bitsOut.clear(); codeSrc.clear(); codeAt = codeLen = L();
      why = ""; auto ps2 = pieces(E, o, root, why); if (!why.empty()) break;
      for (auto& [lp, ins] : o.loops) { if (!usesBits(ins, root)) continue; Done& D = doBits(*pm, lp, ins, o.at); if (!D.ok) { why = D.why; break; } Bits& Bt = *D.B;
        int64_t lo = INT64_MAX, hi = -1; for (auto& [k, b] : Bt.mem) if (k.first == root && Bt.written.count(k)) { lo = std::min(lo, k.second); hi = std::max(hi, k.second); for (int i = 0; i < 8; ++i) { if (b[i] < 2 || (b[i] & 1)) { why = "bit " + std::to_string(i) + " of byte " + std::to_string(k.second) + " is not a bit of the program"; break; } auto& [r2, o2, i2] = Bt.names[(b[i] - 2) / 2]; if (r2 != "this") { why = "bits of something else are written"; break; } bitsOut[{k.second, i}] = {o2, i2}; } }
        if (hi >= 0) { Piece p; p.at.c = lo; p.len.c = hi - lo + 1; p.val = ptr("#bits"); ps2.push_back(p); bitsAt = lo; bitsLen = hi - lo + 1; for (int64_t x = lo; x <= hi; ++x) if (!Bt.mem.count({root, x})) why = "a byte is left out"; } }
      if (!why.empty()) break;
      L end; auto c = chain(ps2, L(), end, why); if (c.empty()) break;
      for (auto& p : c) { if (p.val.k == V::Ptr && p.val.root == "#bits") continue; int64_t off; unsigned w; if (!p.copy && field(p.val, "this", off, w)) written[p.at.c] = {off, w}; else if (p.copy && p.val.k == V::Ptr && p.val.root == "this" && p.len.t.empty()) written[p.at.c] = {p.val.off, (unsigned)p.len.c}; else if (p.copy && p.val.k == V::Ptr && StringRef(p.val.root).starts_with("load(this") && p.val.idx.empty() && !p.val.off) { codeAt = p.at; codeLen = p.len; codeSrc = p.val.root; } else why = "a piece is not understood: " + str(p.val); }
      L size = plus(posOf(ei->second), posOf(bi->second), -1); bool same = size == end; if (!same) for (auto& [q, v] : o.asg) if (v == 1 && StringRef(q).starts_with("eq 0 lin(")) { T t; int64_t c = 0; L z; if (E.lin(sym(q.substr(5), 8), t, c)) { for (auto& [n, m] : t) if (m) z.t[n] = m; z.c = c; L d = plus(end, size, -1); if (d == z || plus(d, z) == L()) same = true; } }   // a case in which both are the same number
      if (!same) why = "the buffer has " + show(size) + " bytes but " + show(end) + " are written"; codeTotal = end; codeOk = why.empty(); if (codeOk && again && !(codeTotal == total0 && codeAt == codeAt0 && codeLen == codeLen0 && codeSrc == src0 && bitsOut == bits0 && written.size() == written0.size() && std::equal(written.begin(), written.end(), written0.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second.off == b.second.off && a.second.w == b.second.w; }))) { why = "what is written depends on the case"; codeOk = false; } if (!codeOk) break; }
    R.ob(codeOk, "the code is written without gaps and fills its buffer", fnName(pm), whereF(pm), why); R.count("pieces of the code part", written.size() + (bitsAt >= 0) + !codeSrc.empty()); }
  { Eval E(*ps); bind(*ps, E, false); E.hook = hookOf(nullptr, nullptr); for (auto& o : E.all()) { if (o.thrown) continue; T t; int64_t c = 0; L r; bool ok = E.lin(o.ret, t, c); for (auto& [n, m] : t) if (m) r.t[n] = m; r.c = c; R.ob(ok && r == codeTotal, "the announced size is what is written", fnName(ps), whereF(ps), "it announces " + show(r) + " bytes, but " + show(codeTotal) + " are written"); } }
  if (codeOk) { Ctx X(*pu); Eval E(*pu); bind(*pu, E, true); E.loopEnd = loopEnd(*pu); E.LI = &X.LI; E.SE = &X.SE; E.skip = true; E.hook = hookOf(nullptr, nullptr); size_t good = 0;
    const DIType* K = findClass(*M, "Program"); if (!K) { R.error("class Program was not found"); return 0; }
    for (auto& o : E.all()) { if (o.thrown || o.looped) continue; auto ri = o.pm.find({"ret", 0}); if (ri == o.pm.end() || ri->second.k != V::Ptr || !StringRef(ri->second.root).starts_with("new")) continue; ++good; string root = ri->second.root;
      std::map<std::pair<int64_t, int>, std::pair<int64_t, int>> bitsIn; string bwhy;
      for (auto& [lp, ins] : o.loops) { if (!usesBits(ins, "buf")) continue; Done& D = doBits(*pu, lp, ins, o.at); if (!D.ok) { bwhy = D.why; break; } Bits& Bt = *D.B; for (auto& [k, b] : Bt.mem) if (k.first == root && Bt.written.count(k)) for (int i = 0; i < 8; ++i) { if (b[i] < 2 || (b[i] & 1)) { bwhy = "bit " + std::to_string(i) + " of byte " + std::to_string(k.second) + " of the program is not a bit of the data"; break; } auto& [r2, o2, i2] = Bt.names[(b[i] - 2) / 2]; if (r2 != "buf") { bwhy = "a bit is not from the data"; break; } bitsIn[{k.second, i}] = {o2, i2}; } }
      R.ob(bwhy.empty(), "the loop that reads bits is understood", fnName(pu), whereF(pu), bwhy);
      // every member of the class
      for (auto* e : cast<DICompositeType>(K)->getElements()) { auto* d = dyn_cast<DIDerivedType>(e); if (!d || d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue; int64_t off = d->getOffsetInBits() / 8; uint64_t w = d->getSizeInBits() / 8; string nm = d->getName().str(); bool ok = false; string why = "it is not read back";
        if (w > 64) { size_t n = 0; ok = true; for (uint64_t i = 0; i < w; ++i) for (int j = 0; j < 8; ++j) { auto it = bitsIn.find({off + (int64_t)i, j}); if (it == bitsIn.end()) { ok = false; why = "bit " + std::to_string(8 * i + j) + " is not read back"; break; } auto wt = bitsOut.find(it->second); if (wt == bitsOut.end() || wt->second != std::make_pair(off + (int64_t)i, j)) { ok = false; why = "bit " + std::to_string(8 * i + j) + " is read from bit " + std::to_string(it->second.second) + " of byte " + std::to_string(it->second.first) + ", where " + (wt == bitsOut.end() ? "it is not written" : "bit " + std::to_string(8 * (wt->second.first - off) + wt->second.second) + " is written"); break; } ++n; if (!ok) break; } R.count("bits compared", n); }
        else if (nm == "IEnd" || w == 16 || d->getBaseType()->getTag() == dwarf::DW_TAG_pointer_type || w == 8) { // the code: begin and end
          V v; bool got = false; for (int64_t x = off; x < off + (int64_t)w; x += 8) { auto it = o.pm.find({root, x}); if (it != o.pm.end() && it->second.k == V::Ptr && it->second.root == "buf") { v = it->second; got = true; } }
          L src; string cs = codeSrc; bool isBegin = false; { size_t i = cs.rfind('+'); int64_t so = i == string::npos ? 0 : std::atoll(cs.c_str() + i + 1); isBegin = so >= off && so < off + (int64_t)w; }
          if (!got) why = "it does not point into the data";
          else if (isBegin) { ok = posOf(v) == codeAt; why = "the code is written behind " + show(codeAt) + " bytes but expected behind " + show(posOf(v)); }
          else { // end: begin plus as many whole instructions as there are bytes left
            L d2 = plus(posOf(v), codeAt, -1); string h = std::to_string(-codeAt.c); int64_t isz = 4; if (auto* KI = findClass(*M, "Instruction")) isz = KI->getSizeInBits() / 8; string rest = "lin(" + h + ";1*N()"+string(")"); ok = d2.c == 0 && d2.t.size() == 1 && ((d2.t.begin()->second == isz && (d2.t.begin()->first == "lshr(" + rest + "," + std::to_string(llvm::Log2_64(isz)) + ")" || d2.t.begin()->first == "udiv(" + rest + "," + std::to_string(isz) + ")")));
            if (!ok && d2.c == 0 && d2.t.size() == 1 && d2.t.begin()->second == 1) { string f = d2.t.begin()->first; ok = f.find("and(") != string::npos && f.find(rest) != string::npos && f.find("252") != string::npos; }
            if (!ok && d2.c == -codeAt.c && d2.t == T{{"N()", 1}}) ok = true; why = "the end of the code is put " + show(d2) + " bytes behind its beginning, not at the end of the data"; } }
        else { V v; v.k = V::Int; for (uint64_t i = 0; i < w; ++i) { auto it = o.mem.find({root, off + (int64_t)i}); v.b.push_back(it == o.mem.end() ? B() : it->second); } int64_t from; unsigned fw; if (field(v, "buf", from, fw)) { auto it = written.find(from); ok = it != written.end() && it->second.off == off && it->second.w == w; why = it == written.end() ? "it is read from byte " + std::to_string(from) + ", where nothing is written" : "it is read from byte " + std::to_string(from) + ", where " + std::to_string(it->second.w) + " bytes of another member are written"; } }
        R.ob(ok, "each part of the code is read from where it was written", "Program::" + nm, whereF(pu), nm + ": " + why); } }
    R.ob(good > 0, "code can be read", fnName(pu), whereF(pu), "no way through it is understood"); }
  int64_t esz = 0; const DICompositeType* KE = findClass(*M, "LG_PatternInfo"); if (!KE) { DebugInfoFinder Fd; Fd.processModule(*M); for (auto* Ty : Fd.types()) if (auto* d = dyn_cast<DIDerivedType>(Ty); d && d->getTag() == dwarf::DW_TAG_typedef && d->getName() == "LG_PatternInfo") KE = dyn_cast_or_null<DICompositeType>(d->getBaseType()); } if (KE) esz = KE->getSizeInBits() / 8; if (!KE || !esz) { R.error("LG_PatternInfo was not found"); return 0; }
  // a case that cannot be: a length with its terminator is not zero
  auto possible = [&](const Out& o) { auto pos = [](const string& e) { if (!StringRef(e).starts_with("lin(") || e.back() != ')') return false; string in = e.substr(4, e.size() - 5); std::vector<string> ps; size_t d = 0; string cur; for (char ch : in) { if (ch == ';' && !d) { ps.push_back(cur); cur.clear(); continue; } if (ch == '(') ++d; if (ch == ')') --d; cur += ch; } ps.push_back(cur); if (std::stoll(ps[0]) <= 0) return false; for (size_t i = 1; i < ps.size(); ++i) { if (ps[i][0] == '-') return false; size_t m = ps[i].find('*'); if (m == string::npos || !StringRef(ps[i].substr(m + 1)).starts_with("len(")) return false; } return true; };
    for (auto& [q, v] : o.asg) { for (auto* pre : {"eq 0 ", "slt 0 ", "ult 0 "}) if (StringRef(q).starts_with(pre) && pos(q.substr(strlen(pre)))) if ((v != 0) == (pre[0] == 'e')) return false; }
    return true; };
  // ---- the pattern list: one turn of each loop
  struct Turn { const Loop* L = nullptr; std::map<const Value*, V> before, after; Out o; };
  auto turns = [&](Function& F, bool reads, std::vector<Turn>& out, Ctx& X, Out* whole, string& why) { { Eval E(F); bind(F, E, reads); E.LI = &X.LI; E.skip = true; E.hook = hookOf(nullptr, nullptr); std::vector<Out> os = E.all(); const Out* best = nullptr; auto syms = [](const Out& o) { auto it = o.pm.find({"ret", 8}); return it == o.pm.end() ? (size_t)0 : it->second.idx.size(); }; for (auto& o : os) if (!o.thrown && !o.looped && !o.loops.empty()) if (!best || o.loops.size() > best->loops.size() || (o.loops.size() == best->loops.size() && syms(o) > syms(*best))) best = &o; if (!best) { why = "no way through it is understood"; return; } *whole = *best; }
    for (auto& [lp, ins] : whole->loops) { Turn t; t.L = lp; t.before = ins; Eval Bd(F); bind(F, Bd, reads); Bd.startAt = lp->getHeader(); Bd.stopAt = lp->getHeader(); Bd.within = lp; std::vector<Push> pu2; Bd.hook = hookOf(nullptr, &pu2);
      for (auto& [v, x] : whole->at) if (auto* I = dyn_cast<Instruction>(v)) if (!lp->contains(I->getParent())) Bd.env0[v] = x;
      int k = 0; for (auto& P : lp->getHeader()->phis()) { string n = "phi" + std::to_string(k++); Bd.env0[&P] = P.getType()->isPointerTy() ? ptr(n) : sym(n, DL.getTypeStoreSize(P.getType()).getFixedValue()); Bd.stable.insert(n); if (auto it = whole->at.find(&P); !P.getType()->isPointerTy() && ins.count(&P) && str(ins.at(&P)) == "0" && P.getType()->isIntegerTy(64)) { (void)it; Bd.rebase[{"load(this+0)", str(sym(n, 8))}] = {esz, n + "@"}; Bd.rebase[{"load(this)", str(sym(n, 8))}] = {esz, n + "@"}; Bd.stable.insert(n + "@"); } }
      std::vector<Out> good; for (auto& o : Bd.all()) if (!o.thrown && !o.left && !o.looped && possible(o)) good.push_back(o);
      if (good.size() != 1) { why = good.empty() ? "no turn of a loop is understood" : "a turn of a loop can go several ways"; continue; } t.o = good[0]; for (auto& P : lp->getHeader()->phis()) t.after[&P] = good[0].at.at(&P); out.push_back(t); } };
  auto phiName = [](const Turn& t, const Value* p) { int k = 0; for (auto& P : t.L->getHeader()->phis()) { if (&P == p) return "phi" + std::to_string(k); ++k; } return string(); };
  auto rename = [](L l, const string& from, const string& to) { L r; r.c = l.c; for (auto& [n0, m] : l.t) { string n = n0; size_t p = 0; while ((p = n.find(from, p)) != string::npos) { n.replace(p, from.size(), to); p += to.size(); } r.t[n] += m; } return r; };
  // the variable that goes over the patterns: a pointer to an entry or an index
  struct Entry { const PHINode* p = nullptr; string from, name; bool index = false; };
  auto entryOf = [&](const Turn& t) { Entry r; for (auto& P : t.L->getHeader()->phis()) { auto it = t.before.find(&P); if (it == t.before.end()) continue; if (P.getType()->isPointerTy() && it->second.k == V::Ptr && StringRef(it->second.root).starts_with("load(this") && !it->second.off) { r.p = &P; r.from = it->second.root; r.name = phiName(t, &P); return r; } }
    for (auto& P : t.L->getHeader()->phis()) { auto it = t.before.find(&P); if (it == t.before.end() || P.getType()->isPointerTy() || str(it->second) != "0") continue; string n = phiName(t, &P); auto af = t.after.find(&P); if (af == t.after.end() || str(af->second) != str(sum({{str(sym(n, 8)), 1}}, 1, 8))) continue; r.p = &P; r.index = true; r.from = "load(this)"; r.name = n + "@"; return r; }
    return r; };
  auto advances = [&](const Turn& t, const Entry& e, string& y) { if (!e.index) { V ae = t.after.at(e.p); if (!(ae.k == V::Ptr && ae.root == e.name && ae.idx.empty() && ae.off == esz)) { y = "it does not go on with the next pattern"; return; } }
    // it goes on until the last one
    bool ok = false; string phi = phiName(t, e.p); auto get = [&](const Value* v) { if (auto* P = dyn_cast<PHINode>(v); P && P->getParent() == t.L->getHeader()) { string n = phiName(t, P); return P->getType()->isPointerTy() ? ptr(n) : sym(n, DL.getTypeStoreSize(P->getType()).getFixedValue()); } auto it = t.o.at.find(v); return it == t.o.at.end() ? V() : it->second; }; string bg = "load(this)", en = "load(this+8)";
    for (auto* b : t.L->blocks()) if (auto* Br = dyn_cast<BranchInst>(b->getTerminator()); Br && Br->isConditional() && t.L->contains(Br->getSuccessor(0)) != t.L->contains(Br->getSuccessor(1))) if (auto* ic = dyn_cast<ICmpInst>(Br->getCondition())) for (int k = 0; k < 2; ++k) { auto P = t.L->contains(Br->getSuccessor(0)) ? ic->getPredicate() : ic->getInversePredicate(); if (k) P = ICmpInst::getSwappedPredicate(P); if (P != ICmpInst::ICMP_NE && P != ICmpInst::ICMP_ULT) continue; V x = get(ic->getOperand(k)), y2 = get(ic->getOperand(1 - k));
      bool next = b != t.L->getHeader() || t.L->getLoopLatch() == b; 
      if (!e.index) { if (x.k == V::Ptr && x.root == e.name && x.idx.empty() && (x.off == 0 || (x.off == esz && next)) && y2.k == V::Ptr && y2.root == en && y2.idx.empty() && !y2.off) ok = true; }
      else { string xs = str(x), ys = str(y2), ph = str(sym(phi, 8)); string diff = "lin(0;1*addr(" + en + ");-1*addr(" + bg + "))", diff2 = "lin(0;-1*addr(" + bg + ");1*addr(" + en + "))"; if ((xs == ph || (next && xs == str(sum({{ph, 1}}, 1, 8)))) && (ys == "sdiv(" + diff + ",24)" || ys == "sdiv(" + diff2 + ",24)" || ((ys.find(diff) != string::npos || ys.find(diff2) != string::npos) && StringRef(ys).starts_with("sdiv(")))) ok = true; } }
    if (!ok) y = "it does not go on until the last pattern"; };
  struct Piece2 { int64_t off; bool str; unsigned w; }; std::vector<Piece2> order; L perEntry; bool patOk = false; string range;
  { Ctx X(*mm); std::vector<Turn> ts; Out whole; string why; turns(*mm, false, ts, X, &whole, why); const Turn *W = nullptr, *S = nullptr; 
    auto ret = whole.pm.find({"ret", 0}); string root = ret == whole.pm.end() ? "" : ret->second.root;
    if (why.empty()) { for (auto& t : ts) { bool w = false; for (auto& [p, v] : t.before) w |= v.k == V::Ptr && v.root == root && v.idx.empty() && v.off == 0; if (w) W = &t; else S = &t; } if (!W) why = "no loop writes the patterns"; }
    if (W && why.empty()) { auto en = entryOf(*W); const PHINode* cu = nullptr; for (auto& [p, v] : W->before) if (v.k == V::Ptr && v.root == root) cu = cast<PHINode>(p); if (!en.p || !cu) why = "the loop over the patterns is not understood";
      else { string cn = phiName(*W, cu), nn = en.name; range = en.from; Out o = W->o; Eval tmp(*mm); auto ps2 = pieces(tmp, o, cn, why); L end; std::vector<Piece> c; if (why.empty()) c = chain(ps2, L(), end, why);
        if (why.empty()) { for (auto& p : c) { Piece2 q{0, false, 0}; int64_t off; unsigned w; if (p.copy && p.val.k == V::Ptr && StringRef(p.val.root).starts_with("load(" + nn)) { string in = p.val.root.substr(5 + nn.size()); q.off = in[0] == '+' ? std::atoll(in.c_str() + 1) : 0; q.str = true; L want; want.t[strLen(p.val)] = 1; want.c = 1; if (!(p.len == want)) why = "a text is written with length " + show(p.len) + ", not with its terminator"; } else if (!p.copy && field(p.val, nn, off, w)) { q.off = off; q.w = w; } else if (p.copy && p.val.k == V::Ptr && p.val.root == nn && p.len.t.empty()) { q.off = p.val.off; q.w = p.len.c; } else why = "a piece of a pattern is not understood: " + str(p.val); order.push_back(q); }
          V ad = W->after.at(cu); if (!(ad == at(cn, end))) why = "it writes " + show(end) + " bytes but goes on " + show(posOf(ad)) + " bytes further"; advances(*W, en, why); perEntry = rename(end, nn, "E");
          // every member of a pattern's entry
          for (auto* e : KE->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e); d && d->getTag() == dwarf::DW_TAG_member) { int64_t off = d->getOffsetInBits() / 8; bool got = false; for (auto& q : order) got |= q.off == off && (q.str || q.w * 8 == d->getSizeInBits()); R.ob(got, "each member of a pattern's entry is written", "LG_PatternInfo::" + d->getName().str(), whereF(mm), "it is not written"); } } } 
      patOk = why.empty(); }
    R.ob(patOk, "patterns are written one behind the other", fnName(mm), whereF(mm), why); R.count("pieces of a pattern", order.size());
    // the size of the buffer
    auto sizeOf = [&](Function* f, const Turn* t, const V& result, const Out& w, string& y) { if (!t) { y = "no loop adds up the sizes"; return; } auto en = entryOf(*t); if (!en.p || en.from != range) { y = "it does not go over the same patterns"; return; } string nn = en.name; int k = 0; bool got = false; string ln; int li = 0; for (auto& [lp, ins] : w.loops) { ++li; if (lp == t->L) ln = "L" + std::to_string(li) + ":"; }
      for (auto& P : t->L->getHeader()->phis()) { string pn = "phi" + std::to_string(k++); if (P.getType()->isPointerTy()) continue; auto wv = w.at.find(&P); if (wv == w.at.end() || str(wv->second) != str(result)) continue; got = true; Eval tmp(*f); T tt; int64_t c = 0; V b = t->before.at(&P), a = t->after.at(&P); if (str(b) != "0") { y = "it does not start from 0"; return; } L g; V self = sym(pn, 8); string sn = str(self); if (!tmp.lin(a, tt, c)) { y = "a turn's sum is not understood"; return; } for (auto& [n, m] : tt) if (m) g.t[n] = m; g.c = c; if (!g.t.count(sn) || g.t[sn] != 1) { y = "a turn does not add to the sum"; return; } g.t.erase(sn); g = rename(g, nn, "E"); if (!(g == perEntry)) { y = "a pattern is counted with " + show(g) + " bytes but written with " + show(perEntry); return; } 
        advances(*t, en, y); }
      if (!got) y = "the result is not the sum"; };
    if (patOk) { string y; auto ei = whole.pm.find({"ret", 8}); V res; if (ei != whole.pm.end()) { L d = plus(posOf(ei->second), posOf(ret->second), -1); if (d.c == 0 && d.t.size() == 1) for (auto& [v, x] : whole.at) if (x.k == V::Int && str(x) == d.t.begin()->first) res = x; } sizeOf(mm, S, res, whole, y); R.ob(y.empty(), "the buffer for the patterns has the size of what is written", fnName(mm), whereF(mm), y);
      Ctx X2(*ms); std::vector<Turn> t2; Out w2; string y2; turns(*ms, false, t2, X2, &w2, y2); if (y2.empty()) sizeOf(ms, t2.size() == 1 ? &t2[0] : nullptr, w2.ret, w2, y2); R.ob(y2.empty(), "the announced size is what is written", fnName(ms), whereF(ms), y2); } }
  if (patOk) { Ctx X(*mu); std::vector<Turn> ts; Out whole; string why; turns(*mu, true, ts, X, &whole, why); const Turn* Rt = nullptr; for (auto& t : ts) for (auto& c : t.o.calls) for (auto& [k, v] : c.pm) if (k.first == "push") Rt = &t;
    if (why.empty() && !Rt) why = "no loop reads the patterns";
    if (why.empty()) { const PHINode* cu = nullptr; for (auto& [p, v] : Rt->before) if (v.k == V::Ptr && v.root == "buf") { cu = cast<PHINode>(p); if (v.off || !v.idx.empty()) why = "reading does not start at the beginning"; } if (!cu) why = "the loop that reads the patterns is not understood";
      if (why.empty()) { string cn = phiName(*Rt, cu); const Event* ev = nullptr; size_t n = 0; for (auto& c : Rt->o.calls) { bool p = false; for (auto& [k, v] : c.pm) p |= k.first == "push"; if (p) { ev = &c; ++n; } } if (n != 1) why = "a turn adds " + std::to_string(n) + " patterns";
        L cur; for (auto& q : order) { if (!why.empty()) break; V here = at(cn, cur), got; for (auto& [k, v] : ev->pm) if (k.first == "push" && k.second == q.off) got = v;
          if (q.str) { if (!(got == here)) why = "the text written behind " + show(cur) + " bytes of an entry is expected at " + str(got); cur.t[strLen(here)] += 1; cur.c += 1; }
          else { V v; if (here.idx.empty()) { v.k = V::Int; for (unsigned i = 0; i < q.w; ++i) v.b.push_back({-1, cn + "+" + std::to_string(here.off + i)}); } else v = sym("load" + std::to_string(q.w) + "(" + pname(here) + ")", q.w); if (str(got) != str(v)) why = "the number written behind " + show(cur) + " bytes of an entry is read as " + str(got); cur.c += q.w; } }
        if (why.empty() && !(Rt->after.at(cu) == at(cn, cur))) why = "an entry has " + show(cur) + " bytes but reading goes on " + show(posOf(Rt->after.at(cu))) + " bytes further";
        // it ends exactly at the end of the data
        if (why.empty()) { bool ok = false; for (auto* b : Rt->L->blocks()) if (auto* Br = dyn_cast<BranchInst>(b->getTerminator()); Br && Br->isConditional()) if (Rt->L->contains(Br->getSuccessor(0)) != Rt->L->contains(Br->getSuccessor(1))) if (auto* ic = dyn_cast<ICmpInst>(Br->getCondition())) { bool stay = Rt->L->contains(Br->getSuccessor(0)); auto P = stay ? ic->getPredicate() : ic->getInversePredicate(); const Value *x = ic->getOperand(0), *y = ic->getOperand(1); if (y == cu) { std::swap(x, y); P = ICmpInst::getSwappedPredicate(P); } if (x != cu) continue; auto it = whole.at.find(y); V e = it == whole.at.end() ? V() : it->second; if (e.k == V::Ptr && e.root == "buf" && e.off == 0 && e.idx == T{{"N()", 1}} && (P == ICmpInst::ICMP_ULT || P == ICmpInst::ICMP_NE)) ok = true; } if (!ok) why = "it does not go on until the end of the data"; } } }
    R.ob(why.empty(), "each pattern is read from where it was written", fnName(mu), whereF(mu), why); }
  } catch (Stuck& s) { R.error("cannot follow the serialization: " + s.why); }
  return 0;
}
static Reg r("E01", run);
}
