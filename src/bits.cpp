#include "bits.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
namespace bv {
static Bit c(int x) { Bit b; b.c = x; return b; }
BV con(uint64_t n, unsigned w) { BV r(w); for (unsigned i = 0; i < w; ++i) r[i].c = i < 64 ? n >> i & 1 : 0; return r; }
bool isCon(const BV& b, uint64_t& n) { n = 0; for (size_t i = 0; i < b.size(); ++i) { if (b[i].isVar()) return false; if (i < 64) n |= (uint64_t)b[i].c << i; } return true; }
Val val(const BV& b) { Val v; v.k = Val::I; v.b = b; return v; }
Val ptr(int base, int64_t off) { Val v; v.k = Val::P; v.base = base; v.off = off; return v; }
BV slice(const BV& b, unsigned lo, unsigned n) { BV r(n); for (unsigned i = 0; i < n; ++i) if (lo + i < b.size()) r[i] = b[lo + i]; return r; }
BV cat(std::initializer_list<BV> l) { BV r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
BV zext(BV b, unsigned w) { b.resize(w); return b; }
BV inv(BV a) { for (auto& x : a) if (x.isVar()) x.neg = !x.neg; else x.c = !x.c; return a; }
static int choose(const BV& a, const BV& b) { for (size_t i = a.size(); i-- > 0;) { if (a[i] == b[i]) continue; if (a[i].isVar()) return a[i].v; if (b[i].isVar()) return b[i].v; } return -1; }
bool ult(const BV& a, const BV& b) { // the first differing bit from the top decides
  for (size_t i = a.size(); i-- > 0;) { if (a[i] == b[i]) continue; if (!a[i].isVar() && !b[i].isVar()) return a[i].c < b[i].c;
    // undecided here: perhaps every completion agrees (compare bounds)
    auto lo = [&](const BV& x) { BV r = x; for (auto& y : r) if (y.isVar()) { y = c(0); } return r; }; auto hi = [&](const BV& x) { BV r = x; for (auto& y : r) if (y.isVar()) { y = c(1); } return r; };
    BV ah = hi(a), al = lo(a), bh = hi(b), bl = lo(b); auto cmp = [&](const BV& x, const BV& y) { for (size_t k = x.size(); k-- > 0;) if (x[k].c != y[k].c) return x[k].c < y[k].c ? -1 : 1; return 0; };
    if (cmp(ah, bl) < 0) return true; if (cmp(al, bh) >= 0) return false; throw Split{choose(a, b)}; }
  return false; }
bool slt(const BV& a, const BV& b) { BV x = a, y = b; auto flip = [](Bit& t) { if (t.isVar()) t.neg = !t.neg; else t.c = !t.c; }; flip(x.back()); flip(y.back()); return ult(x, y); }
bool eq(const BV& a, const BV& b) { bool open = false; for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; if (!a[i].isVar() && !b[i].isVar()) return false; if (a[i].isVar() && b[i].isVar() && a[i].v == b[i].v) return false; open = true; } if (open) throw Split{choose(a, b)}; return true; }
bool in(const BV& a, uint64_t lo, uint64_t hi) { return !ult(a, con(lo, a.size())) && !ult(con(hi, a.size()), a); }
BV add(const BV& a, const BV& b, bool carry) { BV r(a.size()); Bit k = c(carry);
  for (size_t i = 0; i < a.size(); ++i) { Bit t[3] = {a[i], b[i], k}; int ones = 0, vars = 0; for (auto& x : t) { if (x.isVar()) ++vars; else ones += x.c; }
    if (vars == 0) { r[i] = c(ones & 1); k = c(ones >> 1); continue; }
    if (vars == 1) { Bit x = t[0].isVar() ? t[0] : t[1].isVar() ? t[1] : t[2]; if (ones == 0) { r[i] = x; k = c(0); } else if (ones == 2) { r[i] = x; k = c(1); } else { r[i] = x; r[i].neg = !r[i].neg; k = x; } continue; }
    if (i + 1 == a.size() && false) continue;
    for (auto& x : t) if (x.isVar()) throw Split{x.v}; }
  return r; }
string show(const BV& b) { uint64_t n; if (isCon(b, n)) { char t[32]; snprintf(t, sizeof t, "0x%llX", (unsigned long long)n); return t; } string s; for (size_t i = b.size(); i-- > 0;) s += b[i].isVar() ? '?' : '0' + b[i].c; size_t k = 0; while (k + 8 < s.size() && s[k] == '0') ++k; return s.substr(k); }
BV Machine::var(const string& name, unsigned w) { BV r(w); for (unsigned i = 0; i < w; ++i) { string n = name + "." + std::to_string(i); auto [it, fresh] = varIds.emplace(n, (int)names.size()); if (fresh) names.push_back(n); auto f = fix.find(it->second); if (f != fix.end()) r[i] = c(f->second); else r[i].v = it->second; } return r; }
void Machine::store(int base, int64_t off, const Val& v, unsigned n) {
  for (unsigned i = 0; i < n; ++i) { Cell x; if (v.k == Val::P) { x.isPtr = true; x.base = v.base; x.off = v.off; x.frag = i; } else if (v.k == Val::I) x.b = slice(v.b, 8 * i, 8); else x.undef = true; mem[{base, off + i}] = x; wrote.push_back({base, off + i}); } }
BV Machine::bytesAt(int base, int64_t off, unsigned n) { BV r; for (unsigned i = 0; i < n; ++i) { auto it = mem.find({base, off + i}); Cell x; if (it != mem.end()) x = it->second; else if (!init || !init(*this, base, off + i, x)) throw Stuck{"memory that nothing has been written to is read", nullptr}; if (x.isPtr || x.undef) throw Stuck{"a value that is not understood is read", nullptr}; r.insert(r.end(), x.b.begin(), x.b.end()); } return r; }
Val Machine::load(int base, int64_t off, Type* T, const Instruction* at) {
  if (auto* ST = dyn_cast<StructType>(T)) { Val v; v.k = Val::S; for (unsigned i = 0; i < ST->getNumElements(); ++i) v.s.push_back(load(base, off + DL.getStructLayout(ST)->getElementOffset(i), ST->getElementType(i), at)); return v; }
  if (T->isPointerTy() && sym.count(base) && !mem.count({base, off})) { int b = newBase((base < (int)bases.size() ? bases[base] : string()) + "." + std::to_string(off)); sym.insert(b); store(base, off, ptr(b, 0), 8); }
  unsigned n = DL.getTypeStoreSize(T); Val v; BV r; bool pt = false, un = false; Cell first;
  for (unsigned i = 0; i < n; ++i) { auto it = mem.find({base, off + i}); Cell x; if (base >= 0) read.push_back({base, off + i});
    if (it != mem.end()) x = it->second;
    else if (base >= 0 && base < (int)globOf.size() && globOf[base]) { auto* G = globOf[base]; if (!G->isConstant() || !G->hasInitializer()) throw Stuck{"a global that may change is read", at};
      const Constant* K = ConstantFoldLoadFromConst(const_cast<Constant*>(G->getInitializer()), Type::getInt8Ty(M.getContext()), APInt(64, off + i), DL); auto* CI = dyn_cast_or_null<ConstantInt>(K); if (!CI) { if (off + (int64_t)i < 0 || off + i >= DL.getTypeAllocSize(G->getValueType())) throw Stuck{"a table is read outside its bounds", at, true}; if (T->isPointerTy()) { if (auto* PC = ConstantFoldLoadFromConst(const_cast<Constant*>(G->getInitializer()), T, APInt(64, off), DL)) return constant(PC); } throw Stuck{"a global is not understood", at}; } x.b = con(CI->getZExtValue(), 8); if (off + (int64_t)i < 0 || off + i >= DL.getTypeAllocSize(G->getValueType())) throw Stuck{"a table is read outside its bounds", at, true}; }
    else if (!init || !init(*this, base, off + i, x)) throw Stuck{"memory outside the input, or never written, is read (" + (base >= 0 && base < (int)bases.size() ? bases[base] : string("?")) + "+" + std::to_string(off + i) + ")", at, base >= 0 && !sym.count(base)};
    if (!i) first = x; if (x.undef) un = true; if (x.isPtr) pt = true; else r.insert(r.end(), x.b.begin(), x.b.end()); }
  if (un) return v; if (pt) { if (first.isPtr && first.frag == 0) return ptr(first.base, first.off); throw Stuck{"part of a pointer is read", at}; }
  v.k = Val::I; v.b = r; if (T->isIntegerTy()) v.b = slice(r, 0, T->getIntegerBitWidth()); return v; }
Val Machine::constant(const Constant* C) {
  if (auto* K = dyn_cast<ConstantInt>(C)) { BV r(K->getBitWidth()); for (unsigned i = 0; i < r.size(); ++i) r[i] = c(K->getValue()[i]); return val(r); }
  if (isa<ConstantPointerNull>(C)) return ptr(-1, 0);
  if (isa<UndefValue>(C)) { Val v; if (auto* ST = dyn_cast<StructType>(C->getType())) { v.k = Val::S; v.s.resize(ST->getNumElements()); } return v; }
  if (auto* F = dyn_cast<Function>(C)) { (void)F; return Val(); }
  if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = globs.find(G); if (it == globs.end()) { int b = newBase(G->getName().str()); globOf[b] = G; it = globs.emplace(G, b).first; } return ptr(it->second, 0); }
  if (auto* E = dyn_cast<ConstantExpr>(C)) { if (E->isCast()) return constant(E->getOperand(0)); if (auto* G = dyn_cast<GEPOperator>(E)) { APInt o(64, 0); if (G->accumulateConstantOffset(DL, o)) { Val v = constant(cast<Constant>(G->getPointerOperand())); v.off += o.getSExtValue(); return v; } } }
  if (auto* A = dyn_cast<ConstantAggregateZero>(C)) { if (auto* ST = dyn_cast<StructType>(C->getType())) { Val v; v.k = Val::S; for (unsigned i = 0; i < ST->getNumElements(); ++i) v.s.push_back(constant(A->getElementValue(i))); return v; } }
  if (auto* A = dyn_cast<ConstantStruct>(C)) { Val v; v.k = Val::S; for (unsigned i = 0; i < A->getNumOperands(); ++i) v.s.push_back(constant(A->getOperand(i))); return v; }
  return Val(); }
Val Machine::run(Function& F, std::vector<Val> args, unsigned depth) {
  if (depth > 40) throw Stuck{"calls are nested too deeply", nullptr}; if (F.isDeclaration()) throw Stuck{"a function without a body is called: " + fnName(&F), nullptr};
  std::map<const Value*, Val> env; for (auto& A : F.args()) if (A.getArgNo() < args.size()) env[&A] = args[A.getArgNo()];
  auto get = [&](const Value* v) -> Val { if (auto* C = dyn_cast<Constant>(v)) return constant(C); auto it = env.find(v); return it == env.end() ? Val() : it->second; };
  const BasicBlock *bb = &F.getEntryBlock(), *from = nullptr;
  auto need = [&](const Value* v, const Instruction* at) { Val x = get(v); if (x.k != Val::I) throw Stuck{"a value that is not understood is computed with", at}; return x.b; };
  auto decide = [&](const BV& b) { if (b[0].isVar()) throw Split{b[0].v}; return b[0].c != 0; };
  for (;;) { std::vector<std::pair<const Value*, Val>> ph; for (auto& P : bb->phis()) ph.push_back({&P, get(P.getIncomingValueForBlock(from))}); for (auto& [p, v] : ph) env[p] = v;
    const BasicBlock* to = nullptr;
    for (auto it = bb->getFirstNonPHIIt(); it != bb->end(); ++it) { const Instruction& I = *it; if (isa<DbgInfoIntrinsic>(I)) continue; if (++steps > maxSteps) throw Stuck{"it does not end", &I, true};
      if (auto* B = dyn_cast<BinaryOperator>(&I)) { if (B->getOpcode() == Instruction::Sub) { Val x = get(B->getOperand(0)), y = get(B->getOperand(1)); if (x.k == Val::P && y.k == Val::P && x.base == y.base) { env[&I] = val(con((uint64_t)(x.off - y.off), B->getType()->getIntegerBitWidth())); continue; } }
        BV a = need(B->getOperand(0), &I), b = need(B->getOperand(1), &I); unsigned w = a.size(); uint64_t n, m; BV r(w);
        switch (B->getOpcode()) {
          case Instruction::Add: r = add(a, b); break;
          case Instruction::Sub: r = add(a, inv(b), true); break;
          case Instruction::And: for (unsigned i = 0; i < w; ++i) { if (!a[i].isVar()) r[i] = a[i].c ? b[i] : c(0); else if (!b[i].isVar()) r[i] = b[i].c ? a[i] : c(0); else if (a[i] == b[i]) r[i] = a[i]; else if (a[i].v == b[i].v) r[i] = c(0); else throw Split{a[i].v}; } break;
          case Instruction::Or: for (unsigned i = 0; i < w; ++i) { if (!a[i].isVar()) r[i] = a[i].c ? c(1) : b[i]; else if (!b[i].isVar()) r[i] = b[i].c ? c(1) : a[i]; else if (a[i] == b[i]) r[i] = a[i]; else if (a[i].v == b[i].v) r[i] = c(1); else throw Split{a[i].v}; } break;
          case Instruction::Xor: for (unsigned i = 0; i < w; ++i) { if (!a[i].isVar()) { r[i] = b[i]; if (a[i].c) { if (b[i].isVar()) r[i].neg = !r[i].neg; else r[i].c = !r[i].c; } } else if (!b[i].isVar()) { r[i] = a[i]; if (b[i].c) r[i].neg = !r[i].neg; } else if (a[i] == b[i]) r[i] = c(0); else if (a[i].v == b[i].v) r[i] = c(1); else throw Split{names[a[i].v] > names[b[i].v] ? a[i].v : b[i].v}; } break;
          case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (!isCon(b, n)) { for (auto& x : b) if (x.isVar()) throw Split{x.v}; } if (n >= w) throw Stuck{"a shift by too much", &I, true}; for (unsigned i = 0; i < w; ++i) { if (B->getOpcode() == Instruction::Shl) r[i] = i >= n ? a[i - n] : c(0); else r[i] = i + n < w ? a[i + n] : B->getOpcode() == Instruction::AShr ? a[w - 1] : c(0); } break;
          case Instruction::Mul: { // by a constant: shifted additions
            if (!isCon(b, n)) { if (isCon(a, n)) std::swap(a, b); else for (auto& x : b) if (x.isVar()) throw Split{x.v}; } r = con(0, w); for (unsigned i = 0; i < w && i < 64; ++i) if (n >> i & 1) { BV s(w); for (unsigned k = i; k < w; ++k) s[k] = a[k - i]; r = add(r, s); } break; }
          case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: if (!isCon(b, m)) { for (size_t i = b.size(); i-- > 0;) if (b[i].isVar()) throw Split{b[i].v}; } if (!m) throw Stuck{"a division by zero", &I, true}; 
            if ((m & (m - 1)) == 0 && (B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::SRem) && a[w - 1].isVar()) throw Split{a[w - 1].v};
            if ((m & (m - 1)) == 0 && (B->getOpcode() == Instruction::UDiv || B->getOpcode() == Instruction::URem || !a[w - 1].c)) { unsigned s = __builtin_ctzll(m); for (unsigned i = 0; i < w; ++i) r[i] = B->getOpcode() == Instruction::URem || B->getOpcode() == Instruction::SRem ? (i < s ? a[i] : c(0)) : i + s < w ? a[i + s] : c(0); break; }
            if (!isCon(a, n)) { for (size_t i = a.size(); i-- > 0;) if (a[i].isVar()) throw Split{a[i].v}; } { APInt A(w, n), D(w, m); APInt q = B->getOpcode() == Instruction::UDiv ? A.udiv(D) : B->getOpcode() == Instruction::URem ? A.urem(D) : B->getOpcode() == Instruction::SDiv ? A.sdiv(D) : A.srem(D); r = con(q.getZExtValue(), w); } break;
          default: throw Stuck{"an operation that is not understood", &I}; }
        env[&I] = val(r); continue; }
      if (auto* Z = dyn_cast<ZExtInst>(&I)) { env[&I] = val(zext(need(Z->getOperand(0), &I), Z->getType()->getIntegerBitWidth())); continue; }
      if (auto* Z = dyn_cast<SExtInst>(&I)) { BV a = need(Z->getOperand(0), &I); Bit s = a.back(); a.resize(Z->getType()->getIntegerBitWidth(), s); env[&I] = val(a); continue; }
      if (auto* Z = dyn_cast<TruncInst>(&I)) { env[&I] = val(slice(need(Z->getOperand(0), &I), 0, Z->getType()->getIntegerBitWidth())); continue; }
      if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I) || isa<BitCastInst>(I) || isa<FreezeInst>(I)) { env[&I] = get(I.getOperand(0)); continue; }
      if (auto* C = dyn_cast<ICmpInst>(&I)) { Val a = get(C->getOperand(0)), b = get(C->getOperand(1)); bool r;
        if (a.k == Val::P && b.k == Val::P) { if (a.base != b.base) { if (!C->isEquality()) throw Stuck{"pointers to different objects are compared", &I}; r = C->getPredicate() == ICmpInst::ICMP_NE; } else { auto x = a.off, y = b.off; switch (C->getPredicate()) { case ICmpInst::ICMP_EQ: r = x == y; break; case ICmpInst::ICMP_NE: r = x != y; break; case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: r = x < y; break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: r = x <= y; break; case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; } } }
        else { BV x = need(C->getOperand(0), &I), y = need(C->getOperand(1), &I); switch (C->getPredicate()) { case ICmpInst::ICMP_EQ: r = eq(x, y); break; case ICmpInst::ICMP_NE: r = !eq(x, y); break; case ICmpInst::ICMP_ULT: r = ult(x, y); break; case ICmpInst::ICMP_UGE: r = !ult(x, y); break; case ICmpInst::ICMP_UGT: r = ult(y, x); break; case ICmpInst::ICMP_ULE: r = !ult(y, x); break; case ICmpInst::ICMP_SLT: r = slt(x, y); break; case ICmpInst::ICMP_SGE: r = !slt(x, y); break; case ICmpInst::ICMP_SGT: r = slt(y, x); break; default: r = !slt(y, x); } }
        env[&I] = val(con(r, 1)); continue; }
      if (auto* S = dyn_cast<SelectInst>(&I)) { env[&I] = decide(need(S->getCondition(), &I)) ? get(S->getTrueValue()) : get(S->getFalseValue()); continue; }
      if (auto* A = dyn_cast<AllocaInst>(&I)) { env[&I] = ptr(newBase("a local"), 0); (void)A; continue; }
      if (auto* G = dyn_cast<GetElementPtrInst>(&I)) { Val p = get(G->getPointerOperand()); if (p.k != Val::P) { if (p.k == Val::U) { env[&I] = Val(); continue; } throw Stuck{"an address that is not understood", &I}; } int64_t off = p.off; for (auto gt = gep_type_begin(G), e = gep_type_end(G); gt != e; ++gt) { if (auto* ST = gt.getStructTypeOrNull()) off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gt.getOperand())->getZExtValue()); else { BV ix = need(gt.getOperand(), &I); uint64_t n; if (!isCon(ix, n)) { for (size_t i = ix.size(); i-- > 0;) if (ix[i].isVar()) throw Split{ix[i].v}; } int64_t s = ix.size() < 64 ? (int64_t)(n << (64 - ix.size())) >> (64 - ix.size()) : (int64_t)n; off += s * (int64_t)DL.getTypeAllocSize(gt.getIndexedType()); } } env[&I] = ptr(p.base, off); continue; }
      if (auto* L = dyn_cast<LoadInst>(&I)) { Val p = get(L->getPointerOperand()); if (p.k != Val::P || p.base < 0) throw Stuck{"an address that is not understood is read", &I}; env[&I] = load(p.base, p.off, L->getType(), &I); continue; }
      if (auto* S = dyn_cast<StoreInst>(&I)) { Val p = get(S->getPointerOperand()); if (p.k != Val::P || p.base < 0) throw Stuck{"an address that is not understood is written", &I}; Val v = get(S->getValueOperand()); auto* T = S->getValueOperand()->getType(); if (v.k == Val::S) { auto* ST = cast<StructType>(T); for (unsigned i = 0; i < v.s.size(); ++i) store(p.base, p.off + DL.getStructLayout(ST)->getElementOffset(i), v.s[i], DL.getTypeStoreSize(ST->getElementType(i))); } else { if (v.k == Val::I && T->isIntegerTy(1)) v.b = zext(v.b, 8); store(p.base, p.off, v, DL.getTypeStoreSize(T)); } continue; }
      if (auto* X = dyn_cast<ExtractValueInst>(&I)) { Val v = get(X->getAggregateOperand()); for (auto i : X->indices()) { if (v.k != Val::S || i >= v.s.size()) { v = Val(); break; } Val t = v.s[i]; v = t; } env[&I] = v; continue; }
      if (auto* X = dyn_cast<InsertValueInst>(&I)) { Val v = get(X->getAggregateOperand()); if (v.k != Val::S) { v = Val(); v.k = Val::S; v.s.resize(cast<StructType>(X->getType())->getNumElements()); } if (X->getNumIndices() == 1) v.s[X->getIndices()[0]] = get(X->getInsertedValueOperand()); env[&I] = v; continue; }
      if (auto* CB = dyn_cast<CallBase>(&I)) { std::vector<Val> as; for (auto& a : CB->args()) as.push_back(get(a)); Val r; auto* f = CB->getCalledFunction();
        bool done = hook && hook(*this, CB, as, r);
        if (!done && f && f->isIntrinsic()) { auto id = f->getIntrinsicID(); done = true;
          if (auto* MT = dyn_cast<MemTransferInst>(CB)) { uint64_t n; if (as[2].k != Val::I || !isCon(as[2].b, n) || as[0].k != Val::P || as[1].k != Val::P) throw Stuck{"a copy that is not understood", &I}; (void)MT; std::vector<Cell> cs; for (uint64_t i = 0; i < n; ++i) { auto m2 = mem.find({as[1].base, as[1].off + (int64_t)i}); Cell x; if (m2 != mem.end()) x = m2->second; else if (as[1].base >= 0 && globOf[as[1].base]) x.b = load(as[1].base, as[1].off + i, Type::getInt8Ty(M.getContext()), &I).b; else if (!init || !init(*this, as[1].base, as[1].off + i, x)) x.undef = true; cs.push_back(x); } for (uint64_t i = 0; i < n; ++i) { mem[{as[0].base, as[0].off + (int64_t)i}] = cs[i]; wrote.push_back({as[0].base, as[0].off + (int64_t)i}); } }
          else if (isa<MemSetInst>(CB)) { uint64_t n; if (!isCon(as[2].b, n)) throw Stuck{"a fill that is not understood", &I}; for (uint64_t i = 0; i < n; ++i) store(as[0].base, as[0].off + i, as[1], 1); }
          else if (id == Intrinsic::umin || id == Intrinsic::umax || id == Intrinsic::smin || id == Intrinsic::smax) { BV x = need(CB->getArgOperand(0), &I), y = need(CB->getArgOperand(1), &I); bool lt = id == Intrinsic::umin || id == Intrinsic::umax ? ult(x, y) : slt(x, y); r = val((id == Intrinsic::umin || id == Intrinsic::smin) == lt ? x : y); }
          else if (id == Intrinsic::bswap) { BV x = need(CB->getArgOperand(0), &I), y; for (size_t i = x.size(); i > 0; i -= 8) { BV s = slice(x, i - 8, 8); y.insert(y.end(), s.begin(), s.end()); } r = val(y); }
          else if (id == Intrinsic::expect) r = as[0]; else if (id == Intrinsic::trap) throw Stuck{"a trap", &I, true}; else if (!CB->getType()->isVoidTy()) throw Stuck{"an intrinsic that is not understood", &I}; }
        if (!done && f && f->isDeclaration() && (f->getName().starts_with("_Znw") || f->getName().starts_with("_Zna"))) { r = ptr(newBase("allocated memory"), 0); done = true; }
        if (!done && f && f->isDeclaration() && (f->getName().starts_with("_Zdl") || f->getName().starts_with("_Zda"))) done = true;
        if (!done) { if (!f) throw Stuck{"an indirect call", &I}; if (f->isDeclaration() || f->doesNotReturn()) throw Stuck{"a call that is not understood: " + fnName(f), &I}; r = run(*f, as, depth + 1); }
        env[&I] = r; if (auto* II = dyn_cast<InvokeInst>(CB)) to = II->getNormalDest(); if (to) break; continue; }
      if (auto* Br = dyn_cast<BranchInst>(&I)) { to = Br->isUnconditional() || decide(need(Br->getCondition(), &I)) ? Br->getSuccessor(0) : Br->getSuccessor(1); break; }
      if (auto* Sw = dyn_cast<SwitchInst>(&I)) { BV x = need(Sw->getCondition(), &I); to = Sw->getDefaultDest(); for (auto& cs : Sw->cases()) if (eq(x, constant(cs.getCaseValue()).b)) { to = cs.getCaseSuccessor(); break; } break; }
      if (auto* R2 = dyn_cast<ReturnInst>(&I)) return R2->getReturnValue() ? get(R2->getReturnValue()) : Val();
      throw Stuck{"an instruction that is not understood", &I}; }
    if (!to) throw Stuck{"the end of a block", nullptr}; from = bb; bb = to; } }
bool partition(Machine& m, const std::function<void(Machine&)>& leaf, size_t& leaves, Stuck& why, size_t maxLeaves) {
  std::vector<std::map<int, bool>> wl{{}}; size_t n = 0, tries = 0; while (!wl.empty()) { auto fx = wl.back(); wl.pop_back(); m.reset(); m.fix = fx; if (++tries > 4 * maxLeaves || n > maxLeaves) { why = Stuck{"too many cases", nullptr}; return false; }
    try { leaf(m); ++n; } catch (Split& s) { auto a = fx; a[s.v] = false; auto b = fx; b[s.v] = true; wl.push_back(a); wl.push_back(b); } catch (Stuck& s) { why = s; leaves += n; return false; } }
  leaves += n; return true; }
}
