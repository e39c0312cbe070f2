#include "beval.h"
namespace be {
V con(uint64_t c, unsigned n) { V v; v.k = V::Int; for (unsigned i = 0; i < n; ++i) v.b.push_back({(int)(i < 8 ? (c >> (8 * i)) & 255 : 0), ""}); return v; }
V sym(const string& s, unsigned n) { V v; v.k = V::Int; for (unsigned i = 0; i < n; ++i) v.b.push_back({-1, s + "+" + std::to_string(i)}); return v; }
V ptr(const string& r, int64_t o) { V v; v.k = V::Ptr; v.root = r; v.off = o; return v; }
V sum(const std::map<string, int64_t>& t, int64_t c, unsigned n) {
  string s = "lin(" + std::to_string(c); bool any = false; for (auto& [k, m] : t) if (m) { s += ";" + std::to_string(m) + "*" + k; any = true; }
  if (!any) return con(n < 8 ? (uint64_t)c & ((1ULL << (8 * n)) - 1) : (uint64_t)c, n);
  return sym(s + ")", n); }
static string pstr(const V& v) { string s = v.root; for (auto& [n, k] : v.idx) s += "+" + std::to_string(k) + "*" + n; if (v.off) s += "+" + std::to_string(v.off); return s; }
string str(const V& v) {
  if (v.k == V::Unk) return "?";
  if (v.k == V::Ptr) return "&" + pstr(v);
  auto b = v.b; while (b.size() > 1 && b.back().c == 0) b.pop_back();
  bool allC = true; for (auto& x : b) allC &= x.c >= 0;
  if (allC) { uint64_t n = 0; for (size_t i = 0; i < b.size() && i < 8; ++i) n |= (uint64_t)b[i].c << (8 * i); return std::to_string(n); }
  { size_t p = v.b[0].s.size() > 3 ? v.b[0].s.size() - 2 : string::npos;   // one expression
    if (p != string::npos && v.b[0].c < 0 && v.b[0].s[p - 1] == ')' && v.b[0].s.substr(p) == "+0") { string e = v.b[0].s.substr(0, p); bool all = true; for (size_t i = 0; i < b.size(); ++i) all &= b[i].c < 0 && b[i].s == e + "+" + std::to_string(i); if (all && (b.size() == v.b.size() || true)) return e; } }
  string s; for (auto& x : b) s += (s.empty() ? "" : ".") + (x.c >= 0 ? std::to_string(x.c) : x.s.empty() ? "?" : x.s); return b.size() > 1 ? "[" + s + "]" : s;
}
static bool isC(const V& v, uint64_t& n) { if (v.k != V::Int || v.b.size() > 8) return false; n = 0; for (size_t i = 0; i < v.b.size(); ++i) { if (v.b[i].c < 0) return false; n |= (uint64_t)v.b[i].c << (8 * i); } return true; }
static bool known(const V& v) { if (v.k == V::Unk) return false; for (auto& x : v.b) if (x.c < 0 && x.s.empty()) return false; return true; }
static V opaque(const string& e, unsigned n) { return sym(e, n); }
static unsigned nbytes(const DataLayout& DL, Type* T) { return T->isIntOrPtrTy() ? (unsigned)DL.getTypeStoreSize(T).getFixedValue() : 0; }
int64_t Eval::ask(const string& a, std::vector<int64_t> dom) {
  auto f = fixed.find(a); if (f != fixed.end()) { asg[a] = f->second; return f->second; }
  auto it = asg.find(a); if (it != asg.end()) return it->second; throw Need{a, dom}; }
int64_t Eval::rank(const B& x) { if (x.c >= 0) return x.c; if (x.s.empty()) throw Stuck{"an unknown byte is compared"}; return ask("rank " + x.s, ranks); }
V Eval::val(const Value* v) {
  v = v->stripPointerCasts();
  auto a = args.find(v); if (a != args.end()) return a->second;
  auto e = env.find(v); if (e != env.end()) return e->second;
  if (auto* c = dyn_cast<ConstantInt>(v)) { if (c->getBitWidth() > 64) return V(); return con(c->getZExtValue(), nbytes(DL, c->getType())); }
  if (isa<ConstantPointerNull>(v)) return ptr("null");
  if (auto* G = dyn_cast<GEPOperator>(v)) if (!isa<Instruction>(v)) return gep(G);
  if (auto* g = dyn_cast<GlobalValue>(v)) return ptr("@" + g->getName().str());
  if (auto* u = dyn_cast<UndefValue>(v)) if (u->getType()->isIntegerTy()) { V r; r.k = V::Int; r.b.assign(nbytes(DL, u->getType()), B()); return r; }
  return V();
}
bool Eval::lin(const V& v, std::map<string, int64_t>& t, int64_t& c) {
  uint64_t n; if (isC(v, n)) { unsigned w = 8 * v.b.size(); c += w < 64 && (n >> (w - 1) & 1) ? (int64_t)(n | ~((1ULL << w) - 1)) : (int64_t)n; return true; }
  if (!known(v) || v.k != V::Int) return false;
  string s = str(v);
  if (StringRef(s).starts_with("lin(") && s.back() == ')') {   // a sum built by arithmetic: lin(c;k*x;...)
    string in = s.substr(4, s.size() - 5);
    std::vector<string> parts; size_t p = 0; int d = 0; string cur; for (; p < in.size(); ++p) { if (in[p] == ';' && d == 0) { parts.push_back(cur); cur.clear(); } else { if (in[p] == '(') ++d; if (in[p] == ')') --d; cur += in[p]; } } parts.push_back(cur);
    c += std::stoll(parts[0]); for (size_t i = 1; i < parts.size(); ++i) { size_t m = parts[i].find('*'); t[parts[i].substr(m + 1)] += std::stoll(parts[i].substr(0, m)); }
    return true; }
  t[s] += 1; return true;
}
bool Eval::scev(const SCEV* S, std::map<string, int64_t>& t, int64_t& c) {
  if (auto* K = dyn_cast<SCEVConstant>(S)) { c += K->getAPInt().getSExtValue(); return true; }
  if (auto* A = dyn_cast<SCEVAddExpr>(S)) { for (auto* o : A->operands()) if (!scev(o, t, c)) return false; return true; }
  if (auto* Mu = dyn_cast<SCEVMulExpr>(S)) { auto* K = dyn_cast<SCEVConstant>(Mu->getOperand(0)); if (!K || Mu->getNumOperands() != 2) return false; std::map<string, int64_t> u; int64_t d = 0; if (!scev(Mu->getOperand(1), u, d)) return false; int64_t k = K->getAPInt().getSExtValue(); c += k * d; for (auto& [n, m] : u) t[n] += k * m; return true; }
  if (isa<SCEVZeroExtendExpr>(S) || isa<SCEVTruncateExpr>(S) || isa<SCEVSignExtendExpr>(S)) return scev(cast<SCEVCastExpr>(S)->getOperand(), t, c);
  if (auto* U = dyn_cast<SCEVUnknown>(S)) { V v = val(U->getValue()); return v.k == V::Int && lin(v, t, c); }
  return false;
}
V Eval::gep(const GEPOperator* G) {
  V b = val(G->getPointerOperand()); if (b.k != V::Ptr) return V();
  APInt c(64, 0); MapVector<Value*, APInt> vs; if (!G->collectOffset(DL, 64, vs, c)) return V();
  b.off += c.getSExtValue();
  for (auto& [x, k] : vs) {
    std::map<string, int64_t> t; int64_t cc = 0; V xv = val(x); if (!lin(xv, t, cc)) return V();
    b.off += cc * k.getSExtValue(); for (auto& [n, m] : t) { o.indexes.push_back(n); b.idx[n] += m * k.getSExtValue(); if (!b.idx[n]) b.idx.erase(n); } }
  if (b.idx.size() == 1) { auto it = rebase.find({b.root, b.idx.begin()->first}); if (it != rebase.end() && it->second.first == b.idx.begin()->second) { b.root = it->second.second; b.idx.clear(); } }
  return b;
}
V Eval::load(const V& p0, unsigned n, bool isPtr) {
  V p = p0; if (p.k != V::Ptr) return V();
  for (auto it = alias.rbegin(); it != alias.rend(); ++it) if (it->root == p.root && p.off >= it->off && p.off < it->off + it->len && (p.idx.empty() ? !mem0.count({p.root, p.off}) : true)) { p.root = it->src; p.off = p.off - it->off + it->soff; break; }
  string tag = epoch.count(p.root) ? "#" + std::to_string(epoch[p.root]) : "";
  if (!p.idx.empty()) { if (isPtr) { V q = ptr("load(" + pstr(p) + tag + ")"); return q; } return opaque("load" + std::to_string(n) + "(" + pstr(p) + tag + ")", n); }
  if (isPtr) { auto it = o.pm.find({p.root, p.off}); if (it != o.pm.end()) return it->second; return ptr("load(" + pstr(p) + tag + ")"); }
  if (o.pm.count({p.root, p.off})) return V();
  V r; r.k = V::Int;
  for (unsigned i = 0; i < n; ++i) { auto it = o.mem.find({p.root, p.off + i}); if (it != o.mem.end()) r.b.push_back(it->second); else r.b.push_back({-1, p.root + "+" + std::to_string(p.off + i) + tag}); }
  return r;
}
void Eval::havoc(const string& r) {
  if (stable.count(r)) return;
  epoch[r] = ++ep;
  for (auto it = o.mem.begin(); it != o.mem.end();) if (it->first.first == r) it = o.mem.erase(it); else ++it;
  for (auto it = o.pm.begin(); it != o.pm.end();) if (it->first.first == r) it = o.pm.erase(it); else ++it;
  alias.erase(std::remove_if(alias.begin(), alias.end(), [&](const Alias& a) { return a.root == r; }), alias.end());
}
void Eval::havocAll() {
  o.havoc = true; std::set<string> rs; for (auto& [k, v] : o.mem) rs.insert(k.first); for (auto& [k, v] : o.pm) rs.insert(k.first); for (auto& [k, v] : args) if (v.k == V::Ptr) rs.insert(v.root);
  for (auto& r : rs) if (!StringRef(r).starts_with("alloca")) havoc(r); ++ep;
}
void Eval::store(const V& p, const V& v, unsigned n) {
  o.stores.push_back({p, v}); o.sizes.push_back(n);
  if (p.k != V::Ptr) { havocAll(); return; }
  if (!p.idx.empty()) { havoc(p.root); return; }
  for (unsigned i = 0; i < n; ++i) o.pm.erase({p.root, p.off + i});
  if (v.k == V::Ptr) { o.pm[{p.root, p.off}] = v; return; }
  for (unsigned i = 0; i < n; ++i) o.mem[{p.root, p.off + i}] = v.k == V::Int && i < v.b.size() ? v.b[i] : B();
}
bool Eval::truth(const V& v, bool& r) { uint64_t n; if (isC(v, n)) { r = n & 1; return true; } return false; }
V Eval::cmp(ICmpInst::Predicate P, const V& x, const V& y) {
  auto yes = [](bool b) { return con(b, 1); };
  if (x.k == V::Ptr || y.k == V::Ptr) {
    if (x == y && x.k == V::Ptr) return yes(ICmpInst::isTrueWhenEqual(P));
    if (x.k == V::Ptr && y.k == V::Ptr && x.root == y.root && x.idx == y.idx && !ICmpInst::isSigned(P)) { int64_t d = x.off - y.off; switch (P) { case ICmpInst::ICMP_EQ: return yes(!d); case ICmpInst::ICMP_NE: return yes(d); case ICmpInst::ICMP_ULT: return yes(d < 0); case ICmpInst::ICMP_ULE: return yes(d <= 0); case ICmpInst::ICMP_UGT: return yes(d > 0); default: return yes(d >= 0); } }
    if (x.k == V::Ptr && y.k == V::Ptr && ICmpInst::isEquality(P)) { string a = pstr(x), b = pstr(y); if (a > b) std::swap(a, b); return yes((ask("eq " + a + " " + b, {0, 1}) != 0) == (P == ICmpInst::ICMP_EQ)); }
    return V(); }
  if (!known(x) || !known(y)) return V();
  uint64_t a, b; size_t w = std::max(x.b.size(), y.b.size());
  auto trim = [](std::vector<B> v) { while (v.size() > 1 && v.back().c == 0) v.pop_back(); return v; };
  auto xb = trim(x.b), yb = trim(y.b);
  auto res = [&](int64_t l, int64_t r) { switch (P) { case ICmpInst::ICMP_EQ: return yes(l == r); case ICmpInst::ICMP_NE: return yes(l != r);
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: return yes(l < r); case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: return yes(l <= r);
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: return yes(l > r); default: return yes(l >= r); } };
  bool cx = isC(x, a), cy = isC(y, b);
  if (cx && cy) {
    if (ICmpInst::isSigned(P)) { auto sx = [&](uint64_t v) { unsigned s = 64 - 8 * w; return (int64_t)(v << s) >> s; }; return res(sx(a), sx(b)); }
    if (P == ICmpInst::ICMP_EQ) return yes(a == b); if (P == ICmpInst::ICMP_NE) return yes(a != b);
    return res(a < b ? 0 : 1, a < b ? 1 : a == b ? 1 : 0); }
  if (str(x) == str(y)) return res(0, 0);
  if (ICmpInst::isEquality(P) && ((cy && !b && StringRef(str(x)).starts_with("shl(1,")) || (cx && !a && StringRef(str(y)).starts_with("shl(1,")))) return yes(P == ICmpInst::ICMP_NE);
  auto plain = [&](const std::vector<B>& v) { if (v.size() != 1) return false; return v[0].c >= 0 || v[0].s.find('(') == string::npos; };
  if (plain(xb) && plain(yb) && (!ICmpInst::isSigned(P) || w > 1)) { int64_t l = rank(xb[0]), r = rank(yb[0]); return res(l, r); }
  if (plain(xb) && cy && yb.size() > 1 && !ICmpInst::isSigned(P)) return res(0, 1);
  // anything else is a test of its own
  ICmpInst::Predicate Q = P; string l = str(x), r = str(y); bool neg = false;
  if (Q == ICmpInst::ICMP_NE) { Q = ICmpInst::ICMP_EQ; neg = true; }
  if (Q == ICmpInst::ICMP_UGE || Q == ICmpInst::ICMP_SGE || Q == ICmpInst::ICMP_ULE || Q == ICmpInst::ICMP_SLE) { Q = ICmpInst::getInversePredicate(Q); neg = true; }
  if (Q == ICmpInst::ICMP_UGT || Q == ICmpInst::ICMP_SGT) { Q = ICmpInst::getSwappedPredicate(Q); std::swap(l, r); }
  if (Q == ICmpInst::ICMP_EQ && l > r) std::swap(l, r);
  int64_t t = ask(string(Q == ICmpInst::ICMP_EQ ? "eq " : ICmpInst::isSigned(Q) ? "slt " : "ult ") + l + " " + r, {0, 1});
  return yes((t != 0) != neg);
}
void Eval::run() {
  env.clear(); o = Out(); o.mem = mem0; o.pm = pm0; alias = alias0; epoch.clear(); ep = 0;
  const BasicBlock* prev = nullptr; const BasicBlock* bb = startAt ? startAt : &F.getEntryBlock(); if (startAt) for (auto& [k, v] : env0) env[k] = v; bool first = startAt != nullptr; std::set<const BasicBlock*> been; int na = 0;
  for (;;) {
    if (!first && within && !within->contains(bb)) { o.left = true; return; }
    if (bb == stopAt && !first) { for (auto& P : bb->phis()) { V v = val(P.getIncomingValueForBlock(prev)); env[&P] = v; } return; }
    if (!been.insert(bb).second) { o.looped = true; return; }
    if (LI && SE && !first) if (auto* L = LI->getLoopFor(bb)) if (L->getHeader() == bb && !L->contains(prev)) {   // a counted loop: go on behind it
      auto* X = L->getExitingBlock(); auto* Br = X ? dyn_cast<BranchInst>(X->getTerminator()) : nullptr; auto* N = SE->getBackedgeTakenCount(L);
      std::map<string, int64_t> nt; int64_t nc = 0; 
      if (X == bb && Br && !isa<SCEVCouldNotCompute>(N)) {
        std::vector<std::pair<const Value*, V>> st; for (auto& P : bb->phis()) st.push_back({&P, val(P.getIncomingValueForBlock(prev))});
        std::map<const Value*, V> ins; for (auto& [p, v] : st) ins[p] = v;
        if (scev(N, nt, nc)) { bool ok = true; std::map<const Value*, V> fin;
          for (auto& P : bb->phis()) { V v0 = ins[&P]; auto* A = SE->isSCEVable(P.getType()) ? dyn_cast<SCEVAddRecExpr>(SE->getSCEV(const_cast<PHINode*>(&P))) : nullptr; auto* K = A && A->getLoop() == L && A->isAffine() ? dyn_cast<SCEVConstant>(A->getStepRecurrence(*SE)) : nullptr;
            if (!K) { fin[&P] = V(); continue; } int64_t k = K->getAPInt().getSExtValue();
            if (v0.k == V::Ptr) { v0.off += k * nc; for (auto& [n, m] : nt) { v0.idx[n] += k * m; if (!v0.idx[n]) v0.idx.erase(n); } fin[&P] = v0; }
            else { std::map<string, int64_t> t; int64_t c = 0; if (lin(v0, t, c)) { c += k * nc; for (auto& [n, m] : nt) t[n] += k * m; fin[&P] = sum(t, c, v0.b.size()); } else fin[&P] = V(); } }
          if (ok) { o.loops.push_back({L, ins}); for (auto& [p, v] : fin) env[p] = v;
            for (auto& I : *bb) if (!isa<PHINode>(I) && !I.isTerminator() && !isa<DbgInfoIntrinsic>(I)) env[&I] = V();
            bb = L->contains(Br->getSuccessor(0)) ? Br->getSuccessor(1) : Br->getSuccessor(0); prev = X; been.insert(bb); goto enter; } } } }
    if (skip && LI && !first) if (auto* L = LI->getLoopFor(bb)) if (L->getHeader() == bb && !L->contains(prev) && L != within) {
      auto dead = [](const BasicBlock* b) { for (int i = 0; i < 20 && b; ++i) { if (isa<UnreachableInst>(b->getTerminator())) return true; b = b->getSingleSuccessor(); } return false; };
      const BasicBlock *from = nullptr, *to = nullptr; size_t exits = 0; for (auto* b : L->blocks()) for (auto* s : successors(b)) if (!L->contains(s) && !dead(s)) { if (to != s || from != b) ++exits; from = b; to = s; }
      if (exits == 1) { std::map<const Value*, V> ins; for (auto& P : bb->phis()) ins[&P] = val(P.getIncomingValueForBlock(prev)); o.loops.push_back({L, ins}); int k = 0; string ln = "L" + std::to_string(o.loops.size()) + ":";
        for (auto* b : L->blocks()) { been.insert(b); for (auto& I : *b) { unsigned n = nbytes(DL, I.getType()); if (!n) continue; string nm = ln + std::to_string(k++); env[&I] = I.getType()->isPointerTy() ? ptr(nm) : sym(nm, n); } }
        { std::map<const Value*, V> fin; if (loopEnd && loopEnd(*this, L, ins, fin)) for (auto& [v, x] : fin) env[v] = x; }
        prev = from; bb = to; if (been.count(bb) && stopAt != bb) { o.looped = true; return; } been.insert(bb); } }
    enter:;
    std::vector<std::pair<const Value*, V>> up; if (!first) for (auto& P : bb->phis()) up.push_back({&P, val(P.getIncomingValueForBlock(prev))});
    for (auto& [p, v] : up) env[p] = v; first = false;
    for (auto& I : *bb) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || I.isTerminator()) { if (!isa<InvokeInst>(I)) continue; }
      unsigned n = nbytes(DL, I.getType());
      auto op = [&](unsigned i) { return val(I.getOperand(i)); };
      if (isa<AllocaInst>(I)) { env[&I] = ptr("alloca" + std::to_string(na++)); continue; }
      if (auto* L = dyn_cast<LoadInst>(&I)) { env[&I] = n ? load(op(0), n, L->getType()->isPointerTy()) : V(); continue; }
      if (auto* S = dyn_cast<StoreInst>(&I)) { V v = op(0); unsigned w = (unsigned)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); store(op(1), v, w); continue; }
      if (auto* G = dyn_cast<GEPOperator>(&I)) { env[&I] = gep(G); continue; }
      if (auto* C = dyn_cast<ICmpInst>(&I)) { env[&I] = cmp(C->getPredicate(), op(0), op(1)); continue; }
      if (isa<FreezeInst>(I)) { env[&I] = op(0); continue; }
      if (isa<SelectInst>(I)) { bool t; V c = op(0); if (truth(c, t)) env[&I] = op(t ? 1 : 2); else if (known(c)) env[&I] = op(ask("eq " + str(c) + " 0", {0, 1}) ? 2 : 1); else if (op(1) == op(2)) env[&I] = op(1); else env[&I] = V(); continue; }
      if (isa<ZExtInst>(I) || isa<TruncInst>(I)) { V v = op(0); if (v.k == V::Int) { v.b.resize(n, B{0, ""}); if (I.getType()->isIntegerTy(1)) { if (v.b[0].c >= 0) v.b[0].c &= 1; else if (!v.b[0].s.empty()) v.b[0].s = "bit0(" + v.b[0].s + ")"; } } else v = V(); env[&I] = v; continue; }
      if (isa<SExtInst>(I)) { V v = op(0); if (v.k == V::Int) { uint64_t c; if (I.getOperand(0)->getType()->isIntegerTy(1)) v = isC(v, c) ? con(c ? ~0ULL : 0, n) : V(); else if (v.b.back().c >= 0 && v.b.back().c < 128) v.b.resize(n, B{0, ""}); else if (isC(v, c)) v.b.resize(n, B{255, ""}); else if (StringRef(str(v)).starts_with("lin(") && str(v).back() == ')') v = opaque(str(v), n); else v = known(v) ? opaque("sext(" + str(v) + ")", n) : V(); } else v = V(); env[&I] = v; continue; }
      if (isa<PtrToIntInst>(I)) { V p = op(0); if (p.k == V::Ptr) { auto t = p.idx; t["addr(" + p.root + ")"] += 1; env[&I] = p.idx.empty() && !p.off ? opaque("addr(" + p.root + ")", n) : sum(t, p.off, n); } else env[&I] = V(); continue; }
      if (auto* Bo = dyn_cast<BinaryOperator>(&I)) {
        V x = op(0), y = op(1); uint64_t a, b; bool ca = isC(x, a), cb = isC(y, b); unsigned bits = I.getType()->getIntegerBitWidth();
        if (!n || x.k != V::Int || y.k != V::Int) { env[&I] = V(); continue; }
        auto mask = [&](uint64_t v) { return bits < 64 ? v & ((1ULL << bits) - 1) : v; };
        V r; auto opc = Bo->getOpcode(); bool done = true;
        if (ca && cb) { switch (opc) { case Instruction::Add: r = con(mask(a + b), n); break; case Instruction::Sub: r = con(mask(a - b), n); break; case Instruction::Mul: r = con(mask(a * b), n); break; case Instruction::And: r = con(a & b, n); break; case Instruction::Or: r = con(a | b, n); break; case Instruction::Xor: r = con(a ^ b, n); break;
          case Instruction::Shl: r = con(b < bits ? mask(a << b) : 0, n); break; case Instruction::LShr: r = con(b < bits ? a >> b : 0, n); break; case Instruction::UDiv: if (b) { r = con(a / b, n); break; } done = false; break; default: done = false; } }
        else if ((opc == Instruction::Shl || opc == Instruction::LShr) && cb && b % 8 == 0) { int s = b / 8; r.k = V::Int; for (int i = 0; i < (int)n; ++i) { int j = opc == Instruction::Shl ? i - s : i + s; r.b.push_back(j >= 0 && j < (int)n ? x.b[j] : B{0, ""}); } }
        else if (opc == Instruction::And && bits > 1 && known(x) && known(y) && (StringRef(str(x)).starts_with("shl(1,") || StringRef(str(y)).starts_with("shl(1,"))) {   // one bit of a word
          if (!StringRef(str(y)).starts_with("shl(1,")) std::swap(x, y); string m = str(y); r = ask("bit " + str(x) + " " + m.substr(6, m.size() - 7), {0, 1}) ? y : con(0, n); }
        else if (opc == Instruction::And && bits > 1 && ((ca && a == 1 && StringRef(str(y)).starts_with("lshr(")) || (cb && b == 1 && StringRef(str(x)).starts_with("lshr(")))) {
          string e = str(ca ? y : x); size_t i = 5; int d = 0; for (; i < e.size() && (d || e[i] != ','); ++i) { if (e[i] == '(') ++d; if (e[i] == ')') --d; } r = con(ask("bit " + e.substr(5, i - 5) + " " + e.substr(i + 1, e.size() - i - 2), {0, 1}), n); }
        else if (opc == Instruction::And && bits > 1) { r.k = V::Int; for (unsigned i = 0; i < n; ++i) { B p = x.b[i], q = y.b[i]; if (p.c >= 0 && q.c < 0) std::swap(p, q); if (q.c == 0) r.b.push_back({0, ""}); else if (q.c == 255) r.b.push_back(p); else if (p.c >= 0 && q.c >= 0) r.b.push_back({p.c & q.c, ""}); else if (p == q) r.b.push_back(p); else { if ((p.c < 0 && p.s.empty()) || (q.c < 0 && q.s.empty())) r.b.push_back(B()); else { string l = p.s, m = q.c >= 0 ? std::to_string(q.c) : q.s; if (q.c < 0 && l > m) std::swap(l, m); r.b.push_back({-1, "and(" + l + "," + m + ")"}); } } } }
        else if ((opc == Instruction::Or || opc == Instruction::Xor) && bits > 1) { r.k = V::Int; for (unsigned i = 0; i < n; ++i) { B p = x.b[i], q = y.b[i]; if (p.c >= 0 && q.c < 0) std::swap(p, q); if (q.c == 0) r.b.push_back(p); else if (p.c >= 0 && q.c >= 0) r.b.push_back({opc == Instruction::Or ? p.c | q.c : p.c ^ q.c, ""}); else if ((p.c < 0 && p.s.empty()) || (q.c < 0 && q.s.empty())) r.b.push_back(B()); else { string l = p.s, m = q.c >= 0 ? std::to_string(q.c) : q.s; if (q.c < 0 && l > m) std::swap(l, m); r.b.push_back({-1, string(Bo->getOpcodeName()) + "(" + l + "," + m + ")"}); } } }
        else if ((opc == Instruction::Add || opc == Instruction::Sub || (opc == Instruction::Mul && (ca || cb)) || (opc == Instruction::Shl && cb)) && bits > 1) {
          std::map<string, int64_t> t, u; int64_t c = 0, d = 0; 
          if (lin(x, t, c) && lin(y, u, d)) {
            if (opc == Instruction::Add || opc == Instruction::Sub) { int64_t s = opc == Instruction::Add ? 1 : -1; c += s * d; for (auto& [k, m] : u) t[k] += s * m; }
            else if (opc == Instruction::Shl) { c <<= b; for (auto& [k, m] : t) m <<= b; }
            else { if (ca) { std::swap(t, u); std::swap(c, d); } c *= d; for (auto& [k, m] : t) m *= d; }
            r = sum(t, c, n); uint64_t z; if (isC(r, z)) r = con(mask(z), n);
          } else done = false; }
        else if (known(x) && known(y)) r = opaque(string(Bo->getOpcodeName()) + "(" + str(x) + "," + str(y) + ")", n);
        else done = false;
        env[&I] = done ? r : V(); continue; }
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        if (II->isLifetimeStartOrEnd() || II->getIntrinsicID() == Intrinsic::assume) continue;
        if (auto* M = dyn_cast<MemTransferInst>(II)) {
          V d = val(M->getRawDest()), s = val(M->getRawSource()), l = val(M->getLength()); uint64_t len;
          { V hv; if (hook && hook(*this, M, {d, s, l}, hv)) continue; }
          if (d.k != V::Ptr) { havocAll(); continue; }
          if (s.k != V::Ptr || !isC(l, len) || !d.idx.empty() || len > 4096) { havoc(d.root); continue; }
          o.stores.push_back({d, s}); o.sizes.push_back(len);
          bool tracked = false; for (uint64_t i = 0; i < len; ++i) tracked |= o.mem.count({s.root, s.off + (int64_t)i}) || o.pm.count({s.root, s.off + (int64_t)i});
          std::vector<B> bs; std::map<int64_t, V> ps;
          if (s.idx.empty()) for (uint64_t i = 0; i < len; ++i) { auto p = o.pm.find({s.root, s.off + (int64_t)i}); if (p != o.pm.end()) ps[i] = p->second; bs.push_back(load(ptr(s.root, s.off + i), 1, false).b.size() ? load(ptr(s.root, s.off + i), 1, false).b[0] : B()); }
          for (uint64_t i = 0; i < len; ++i) { o.pm.erase({d.root, d.off + (int64_t)i}); o.mem[{d.root, d.off + (int64_t)i}] = s.idx.empty() ? bs[i] : B(); }
          for (auto& [i, v] : ps) { o.pm[{d.root, d.off + i}] = v; for (int j = 0; j < 8; ++j) o.mem.erase({d.root, d.off + i + j}); }
          if (!tracked && s.idx.empty()) alias.push_back({d.root, d.off, (int64_t)len, s.root, s.off});
          continue; }
        if (auto* M = dyn_cast<MemSetInst>(II)) { V d = val(M->getRawDest()), v = val(M->getValue()), l = val(M->getLength()); uint64_t len, c; { V hv; if (hook && hook(*this, M, {d, v, l}, hv)) continue; } if (d.k == V::Ptr && d.idx.empty() && isC(l, len) && len <= 4096 && isC(v, c)) for (uint64_t i = 0; i < len; ++i) { o.pm.erase({d.root, d.off + (int64_t)i}); o.mem[{d.root, d.off + (int64_t)i}] = {(int)c, ""}; } else if (d.k == V::Ptr) havoc(d.root); else havocAll(); continue; }
        auto id = II->getIntrinsicID();
        if ((id == Intrinsic::umin || id == Intrinsic::umax) && n) { V x = op(0), y = op(1); V c = cmp(ICmpInst::ICMP_ULT, x, y); bool t; env[&I] = truth(c, t) ? (t == (id == Intrinsic::umin) ? x : y) : V(); continue; }
        if ((id == Intrinsic::fshl || id == Intrinsic::fshr) && known(op(0)) && known(op(1)) && known(op(2))) { env[&I] = opaque(II->getCalledFunction()->getName().str() + "(" + str(op(0)) + "," + str(op(1)) + "," + str(op(2)) + ")", n); continue; }
      }
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        auto* f = CB->getCalledFunction();
        if (f && (f->getName() == "__cxa_throw" || f->getName() == "__cxa_allocate_exception" || f->doesNotReturn())) { o.thrown = true; return; }
        std::vector<V> av; for (auto& a : CB->args()) av.push_back(val(a.get()));
        if (record && record(CB)) o.calls.push_back({CB, o.pm, av});
        { V hv; if (hook && hook(*this, CB, av, hv)) { env[&I] = hv; continue; } }
        for (auto& a : av) if (a.k == V::Ptr && StringRef(a.root).starts_with("alloca")) havoc(a.root);
        if (!CB->onlyReadsMemory()) havocAll();
        if (n) { bool k = f != nullptr; string s = f ? f->getName().str() : ""; s += "("; for (auto& a : av) { k &= known(a); s += str(a) + ","; } if (!CB->onlyReadsMemory()) s += "#" + std::to_string(ep); env[&I] = !k ? V() : CB->getType()->isPointerTy() ? ptr(s + ")") : opaque(s + ")", n); } else env[&I] = V();
        continue; }
      env[&I] = V();
    }
    auto* T = bb->getTerminator(); prev = bb;
    if (auto* Rt = dyn_cast<ReturnInst>(T)) { if (Rt->getReturnValue()) o.ret = val(Rt->getReturnValue()); return; }
    if (auto* Br = dyn_cast<BranchInst>(T)) {
      if (!Br->isConditional()) { bb = Br->getSuccessor(0); continue; }
      bool t; V c = val(Br->getCondition());
      if (!truth(c, t)) t = known(c) ? ask("eq " + str(c) + " 0", {0, 1}) == 0 : ask("branch " + std::to_string(been.size()) + " " + std::to_string(valueId(Br)), {0, 1}) != 0;
      bb = Br->getSuccessor(t ? 0 : 1); continue; }
    if (auto* Sw = dyn_cast<SwitchInst>(T)) {
      V c = val(Sw->getCondition()); uint64_t n; 
      if (isC(c, n)) { bb = Sw->findCaseValue(ConstantInt::get(cast<IntegerType>(Sw->getCondition()->getType()), n))->getCaseSuccessor(); continue; }
      std::vector<int64_t> d; for (unsigned i = 0; i < Sw->getNumSuccessors(); ++i) d.push_back(i);
      bb = Sw->getSuccessor((unsigned)ask("switch " + (known(c) ? str(c) : std::to_string(valueId(Sw))), d)); continue; }
    if (auto* II = dyn_cast<InvokeInst>(T)) { bb = II->getNormalDest(); continue; }
    if (isa<UnreachableInst>(T)) { o.thrown = true; return; }
    throw Stuck{"leaves in an unexpected way"};
  }
}
std::vector<Out> Eval::all() {
  std::vector<Out> out; std::vector<std::map<string, int64_t>> wl{{}};
  while (!wl.empty()) {
    asg = wl.back(); wl.pop_back();
    try { run(); if (keepEnv) o.at = env; o.asg = asg; out.push_back(o); }
    catch (Need& n) { for (auto v : n.dom) { auto x = asg; x[n.atom] = v; wl.push_back(x); } }
    if (out.size() + wl.size() > limit) throw Stuck{"too many cases"};
  }
  return out;
}
}
