#include "cells.h"

static void findVectors(const Types& T, const DIType* ty, uint64_t off, std::vector<int64_t>& out, int depth = 0) {
  ty = T.canon(ty);
  auto* C = dyn_cast_or_null<DICompositeType>(ty);
  if (!C || depth > 8) return;
  if (C->getName() == "_Vector_impl_data") { out.push_back(off); return; }
  if (C->getTag() == dwarf::DW_TAG_array_type || C->getTag() == dwarf::DW_TAG_union_type) return;
  for (auto* E : C->getElements()) {
    auto* D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember()) continue;
    if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
    if (auto* bt = T.canon(D->getBaseType())) if (isa<DICompositeType>(bt)) findVectors(T, bt, off + D->getOffsetInBits() / 8, out, depth + 1);
  }
}

CellFlow::CellFlow(Function& F, Types& T, const Path& base, const DICompositeType* cls)
  : F(F), T(T), base(base), cls(cls), PF(*F.getParent()), DT(F), L(F, DT) {
  findVectors(T, cls, 0, vectors);
  pool.emplace_back(new Argument(Type::getInt64Ty(F.getContext()), "this")); baseSym = pool.back().get(); symName[baseSym] = "this";
  L.subst = [this](const Value* V, Lin& r) {
    auto it = loadVal.find(V);
    if (it != loadVal.end()) { r = it->second; return true; }
    if (auto* P = dyn_cast<PHINode>(V)) {        // a merge of equal values
      if (phiBusy.count(P)) return false;
      phiBusy.insert(P);
      bool same = true, first = true; Lin x;
      for (unsigned i = 0; i < P->getNumIncomingValues() && same; ++i) {
        auto* B = P->getIncomingBlock(i);
        if (dead.count(B) || deadEdges.count({B, P->getParent()})) continue;
        if (this->DT.dominates(P->getParent(), B)) { same = false; break; }
        Lin y = L.lin(P->getIncomingValue(i));
        if (first) x = y; else if (!(x.c == y.c && x.t == y.t)) same = false;
        first = false;
      }
      phiBusy.erase(P);
      if (same && !first) { r = x; return true; }
      return false;
    }
    if (V->getType()->isPointerTy() && !isa<SelectInst>(V)) {
      int64_t o; bool may;
      if (cellOf(V, o, may)) { r = Lin(); r.t[baseSym] = 1; r.c = o; return true; }
    }
    return false;
  };
}
bool CellFlow::cellOf(const Value* ptr, int64_t& off, bool& may) {
  auto ps = PF.paths(ptr);
  bool all = !ps.empty(), some = false; off = -1; may = false;
  for (auto& p : ps) {
    bool m = p.root == base.root && p.steps.size() >= base.steps.size() && std::equal(base.steps.begin(), base.steps.end(), p.steps.begin());
    int64_t o = 0;
    if (m) {
      size_t k = base.steps.size();
      if (p.steps.size() == k) o = 0;
      else if (p.steps.size() == k + 1 && p.steps[k] != Path::DEREF && p.steps[k] != Path::IDX) o = p.steps[k];
      else m = false;
    }
    if (m) { some = true; if (off >= 0 && off != o) { all = false; may = true; } off = o; } else all = false;
  }
  if (some && !all) may = true;
  return some && all && !may;
}
Value* CellFlow::sym(int64_t off) {
  auto& v = inSym[off];
  if (!v) {
    pool.emplace_back(new Argument(Type::getInt64Ty(F.getContext()), name(off)));
    v = pool.back().get(); symName[v] = name(off);
  }
  return v;
}
string CellFlow::name(int64_t off) const { string s = fieldAt(cls, off); 
  size_t p; while ((p = s.find("_M_impl.")) != string::npos) s.erase(p, 8);
  return s.empty() ? "+" + std::to_string(off) : s; }
string CellFlow::str(const Lin& l) const {
  string s;
  for (auto& [v, k] : l.t) {
    auto it = symName.find(v);
    string n = it != symName.end() ? it->second : v->hasName() ? "%" + v->getName().str() : "%value";
    if (!s.empty()) s += k >= 0 ? " + " : " - "; else if (k < 0) s += "-";
    if (std::abs(k) != 1) s += std::to_string(std::abs(k)) + "*";
    s += n;
  }
  if (l.c || s.empty()) s += (s.empty() ? "" : " + ") + std::to_string(l.c);
  return s;
}
static Lin one(const Value* v) { Lin l; l.t[v] = 1; return l; }
static bool eq(const Lin& a, const Lin& b) { return a.c == b.c && a.t == b.t; }

CellFlow::State CellFlow::stateBefore(const Instruction* I) { State s = in[I->getParent()]; auto w = writes, h = heapWrites, r = readsIncoming; transfer(I->getParent(), s, false, I); writes = w; heapWrites = h; readsIncoming = r; return s; }
void CellFlow::transfer(const BasicBlock* B, State& S, bool record, const Instruction* stop) {
  auto get = [&](int64_t o) -> Lin { auto it = S.find(o); if (it == S.end()) { S[o] = one(sym(o)); return S[o]; } return it->second; };
  auto havoc = [&](int64_t o, const Instruction* I) {
    cells.insert(o); if (!writes.count(o)) writes[o] = I;
    auto& v = joinSym[{I, o}];
    if (!v) { pool.emplace_back(new Argument(Type::getInt64Ty(F.getContext()), "?" + name(o))); v = pool.back().get(); symName[v] = "?" + name(o); }
    S[o] = one(v);
  };
  for (auto& I : *B) {
    if (&I == stop) return;
    if (record && interesting && interesting(&I)) before[&I] = S;
    int64_t o; bool may;
    if (auto* Ld = dyn_cast<LoadInst>(&I)) {
      if (cellOf(Ld->getPointerOperand(), o, may)) {
        cells.insert(o);
        Lin v = get(o);
        if (ow && !ow->count(o) && !readsIncoming.count(o)) readsIncoming[o] = &I;
        loadVal[Ld] = v;
      } else if (may) for (auto& p : PF.paths(Ld->getPointerOperand())) (void)p;
      continue;
    }
    auto heap = [&](const Value* P) {
      for (auto& p : PF.paths(P)) {
        if (p.root != base.root || p.steps.size() < base.steps.size() + 1) continue;
        if (!std::equal(base.steps.begin(), base.steps.end(), p.steps.begin())) continue;
        size_t k = base.steps.size(); int64_t off = 0;
        if (p.steps[k] != Path::DEREF && p.steps[k] != Path::IDX) off = p.steps[k++];
        if (k < p.steps.size() && p.steps[k] == Path::DEREF) { if (!heapWrites.count(off)) heapWrites[off] = &I; }
      }
    };
    auto writeTo = [&](const Value* P, const Lin* v, uint64_t size) {
      if (cellOf(P, o, may)) {
        cells.insert(o);
        if (v) { if (!eq(get(o), *v) && !writes.count(o)) writes[o] = &I; S[o] = *v; } else havoc(o, &I);
        if (ow && v) ow->insert(o);
        for (auto c : std::vector<int64_t>(cells.begin(), cells.end())) if (c > o && c < o + (int64_t)size) havoc(c, &I);
      } else if (may) {
        for (auto& p : PF.paths(P)) {
          if (p.root != base.root || p.steps.size() < base.steps.size() || !std::equal(base.steps.begin(), base.steps.end(), p.steps.begin())) continue;
          size_t k = base.steps.size();
          if (p.steps.size() == k) havoc(0, &I);
          else if (p.steps.size() == k + 1 && p.steps[k] != Path::DEREF && p.steps[k] != Path::IDX) havoc(p.steps[k], &I);
        }
        heap(P);
      } else heap(P);
    };
    if (auto* St = dyn_cast<StoreInst>(&I)) {
      uint64_t sz = F.getParent()->getDataLayout().getTypeStoreSize(St->getValueOperand()->getType());
      Lin v = L.lin(St->getValueOperand());
      writeTo(St->getPointerOperand(), &v, sz);
      continue;
    }
    if (auto* MI = dyn_cast<MemIntrinsic>(&I)) {
      uint64_t sz = 1; if (auto* C = dyn_cast<ConstantInt>(MI->getLength())) sz = C->getZExtValue();
      Lin z; bool zero = false;
      if (auto* MS = dyn_cast<MemSetInst>(MI)) if (auto* C = dyn_cast<ConstantInt>(MS->getValue())) if (C->isZero()) zero = true;
      if (zero && cellOf(MI->getRawDest(), o, may)) {
        for (auto c : std::vector<int64_t>(cells.begin(), cells.end())) if (c >= o && c < o + (int64_t)sz) { S[c] = z; if (!writes.count(c)) writes[c] = &I; if (ow) ow->insert(c); }
        cells.insert(o); S[o] = z; if (!writes.count(o)) writes[o] = &I; if (ow) ow->insert(o);
      } else writeTo(MI->getRawDest(), nullptr, sz);
      continue;
    }
    if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) { writeTo(I.getOperand(0), nullptr, 8); continue; }
    if (auto* CB = dyn_cast<CallBase>(&I)) {
      if (isa<DbgInfoIntrinsic>(CB) || isa<IntrinsicInst>(CB)) continue;
      std::set<int64_t> mods;
      if (modOf && modOf(CB, mods)) {
        auto cr = callReads.find(CB);
        if (cr != callReads.end()) for (auto r : cr->second) { get(r); if (ow && !ow->count(r) && !readsIncoming.count(r)) readsIncoming[r] = &I; }
        for (auto m : mods) havoc(m, &I);
        continue;
      }
      if (CB->onlyReadsMemory()) continue;
      for (auto& a : CB->args()) {
        if (!a->getType()->isPointerTy()) continue;
        unsigned k = CB->getArgOperandNo(&a);
        if (CB->onlyReadsMemory(k)) continue;
        for (auto& p : PF.paths(a)) {
          if (p.root != base.root || p.steps.size() < base.steps.size() || !std::equal(base.steps.begin(), base.steps.end(), p.steps.begin())) continue;
          size_t kk = base.steps.size(); int64_t off = 0;
          if (p.steps.size() > kk && p.steps[kk] != Path::DEREF && p.steps[kk] != Path::IDX) off = p.steps[kk++];
          if (p.steps.size() > kk) { auto* Fn = CB->getCalledFunction(); string n = Fn ? Fn->getName().str() : "";
            if (n.rfind("_ZdlPv", 0) != 0 && n.rfind("_ZdaPv", 0) != 0 && !heapWrites.count(off)) heapWrites[off] = &I; continue; }
          // address of a member handed out: everything from there on in that member may change
          havoc(off, &I);
          string nm = name(off); auto dot = nm.find('.'); string mem = nm.substr(0, dot);
          for (auto c : std::vector<int64_t>(cells.begin(), cells.end())) if (off == 0 || name(c).substr(0, mem.size()) == mem) havoc(c, &I);
        }
      }
    }
  }
}
void CellFlow::run() {
  ReversePostOrderTraversal<Function*> RPO(&F);
  // discover cells
  for (auto& I : instructions(F)) {
    int64_t o; bool may; const Value* P = getLoadStorePointerOperand(&I);
    if (P && cellOf(P, o, may)) cells.insert(o);
  }
  for (auto v : vectors) for (int k = 0; k < 3; ++k) { cells.insert(v + 8 * k); }
  for (auto v : vectors) {
    L.extra.push_back(one(sym(v + 8)) - one(sym(v)));
    L.extra.push_back(one(sym(v + 16)) - one(sym(v + 8)));
    L.extra.push_back(one(sym(v)));
  }
  std::map<const Value*, int64_t> order;
  for (auto& I : instructions(F)) order[&I] = order.size();
  auto rank = [&](const Value* v) -> int64_t {     // the latest definition is the one to replace
    for (auto& [o, sv] : inSym) if (sv == v) return o;
    auto f = order.find(v); if (f != order.end()) return (1LL << 40) + f->second;
    for (auto& [k, j] : joinSym) if (j == v) return (1LL << 30) + k.second;
    return 1 << 20;
  };
  State entry; for (auto c : cells) entry[c] = one(sym(c));
  std::map<const BasicBlock*, State> out;
  std::set<const BasicBlock*> done;
  std::set<std::pair<const BasicBlock*, int64_t>> joined, joinedDiff, noPhi; std::set<const BasicBlock*> headers;
  { std::map<const BasicBlock*, int> idx; int n = 0; for (auto* B : RPO) idx[B] = n++; for (auto* B : RPO) for (auto* P : predecessors(B)) if (!idx.count(P) || idx[P] >= idx[B]) headers.insert(B); }
  auto edgeEq = [&](const BasicBlock* P, const BasicBlock* B) {   // what is zero on the edge
    Lin none; none.ok = false; auto* Br = dyn_cast<BranchInst>(P->getTerminator());
    if (!Br || !Br->isConditional() || Br->getSuccessor(0) == Br->getSuccessor(1)) return none;
    auto* C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C || !C->isEquality() || (C->getPredicate() == ICmpInst::ICMP_EQ) != (Br->getSuccessor(0) == B)) return none;
    return L.lin(C->getOperand(0)) - L.lin(C->getOperand(1));
  };
  auto edgeState = [&](const BasicBlock* P, const BasicBlock* B) {
    State s = out[P];
    auto* Br = dyn_cast<BranchInst>(P->getTerminator());
    if (Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
      if (auto* C = dyn_cast<ICmpInst>(Br->getCondition())) {
        bool t = Br->getSuccessor(0) == B;
        if ((C->getPredicate() == ICmpInst::ICMP_EQ) == t && C->isEquality() && (C->getOperand(0)->getType()->isPointerTy() || C->getOperand(0)->getType()->isIntegerTy())) {
          Lin d = L.lin(C->getOperand(0)) - L.lin(C->getOperand(1));   // == 0
          // eliminate the atom of highest rank with unit coefficient
          const Value* best = nullptr; int64_t br = -1;
          for (auto& [v, k] : d.t) if (std::abs(k) == 1) {
            int64_t r = rank(v);
            if (r > br) { br = r; best = v; }
          }
          if (best) {
            int64_t k = d.t[best]; Lin rest = d - one(best).mul(k); rest = rest.mul(-k);   // best = rest
            for (auto& [o, v] : s) { auto it = v.t.find(best); if (it != v.t.end()) { int64_t q = it->second; v = v - one(best).mul(q) + rest.mul(q); } }
          }
        }
      }
    return s;
  };
  for (int it = 0; it < 20; ++it) {
    bool ch = false;
    size_t cellsBefore = cells.size();
    for (auto* B : RPO) {
      State s; bool first = true;
      if (B == &F.getEntryBlock()) { s = entry; first = false; for (auto c : cells) if (!s.count(c)) s[c] = one(sym(c)); }
      else {
        std::vector<State> ps; std::vector<const BasicBlock*> preds;
        for (auto* P : predecessors(B)) if (done.count(P) && !deadEdges.count({P, B})) { ps.push_back(edgeState(P, B)); preds.push_back(P); }
        if (ps.empty()) { dead.insert(B); continue; }
        dead.erase(B);
        first = false;
        for (auto c : cells) {
          bool same = !joined.count({B, c}); Lin v; bool f = true;
          for (auto& p : ps) { auto jt = p.find(c); Lin x = jt == p.end() ? one(sym(c)) : jt->second; if (f) v = x; else if (!eq(v, x)) same = false; f = false; }
          if (!same && !joined.count({B, c})) {      // equal before taking the branch conditions into account
            same = true; f = true;
            for (auto* P : preds) { auto& p = out[P]; auto jt = p.find(c); Lin x = jt == p.end() ? one(sym(c)) : jt->second; if (f) v = x; else if (!eq(v, x)) same = false; f = false; }
          }
          if (!same && std::find(vectors.begin(), vectors.end(), c - 8) != vectors.end() && !joinedDiff.count({B, c})) {   // a vector of the same length
            bool ds = true; Lin d; bool f2 = true;
            for (auto& p : ps) {
              auto g = [&](int64_t o) { auto jt = p.find(o); return jt == p.end() ? one(sym(o)) : jt->second; };
              Lin x = g(c) - g(c - 8); if (f2) d = x; else if (!eq(d, x)) ds = false; f2 = false;
            }
            if (ds && d.t.empty()) { joined.insert({B, c}); s[c] = s[c - 8] + d; continue; }
            joinedDiff.insert({B, c});
          }
          // the code itself keeps the value in a phi
          for (auto& PN : B->phis()) if (same && v.t.count(&PN)) same = false;   // an earlier round's
          bool open = headers.count(B) && ps.size() < (size_t)std::distance(pred_begin(B), pred_end(B));   // not all rounds seen yet
          if ((!same || open) && !noPhi.count({B, c})) {
            const PHINode* hit = nullptr;
            for (auto& PN : B->phis()) {
              if (!PN.getType()->isPointerTy() && !PN.getType()->isIntegerTy(64)) continue;
              bool all = !ps.empty();
              for (size_t k = 0; k < ps.size() && all; ++k) { Lin x = L.lin(PN.getIncomingValueForBlock(preds[k])); auto a = ps[k].find(c); auto& po = out[preds[k]]; auto b = po.find(c); Lin ee = edgeEq(preds[k], B); auto viaEdge = [&](const Lin& l) { if (!ee.ok) return false; return eq(l + ee, x) || eq(l - ee, x); }; all = x.ok && ((a != ps[k].end() && eq(a->second, x)) || (b != po.end() && (eq(b->second, x) || viaEdge(b->second)))); }
              if (all) { hit = &PN; break; }
            }
            if (hit) { s[c] = one(hit); continue; }
            if (!same) noPhi.insert({B, c});
          }
          if (!same) {
            joined.insert({B, c});
            auto& j = joinSym[{B, c}];
            if (!j) { pool.emplace_back(new Argument(Type::getInt64Ty(F.getContext()), "phi." + name(c))); j = pool.back().get(); symName[j] = "phi." + name(c); }
            v = one(j);
          }
          s[c] = v;
        }
      }
      (void)first;
      in[B] = s;
      transfer(B, s, false);
      auto ot = out.find(B);
      bool diff = ot == out.end() || ot->second.size() != s.size();
      if (!diff) for (auto& [c, v] : s) { auto f = ot->second.find(c); if (f == ot->second.end() || !eq(f->second, v)) { diff = true; break; } }
      if (diff) { out[B] = s; ch = true; }
      done.insert(B);
      // prune branches that contradict what is known
      if (auto* Br = dyn_cast<BranchInst>(B->getTerminator())) if (Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
        { std::vector<Lin> base = L.factsAt(Br); for (int k = 0; k < 2; ++k) {
          auto* Su = Br->getSuccessor(k);
          std::pair<const BasicBlock*, const BasicBlock*> e{B, Su};
          bool inf = L.refutes(base, Br->getCondition(), k == 0, B);
          if (inf != (deadEdges.count(e) > 0)) { if (inf) deadEdges.insert(e); else deadEdges.erase(e); ch = true; }
        } }
    }
    if (!ch && cells.size() == cellsBefore) break;
  }
  // a join whose incoming values are itself and one other value is that value
  for (bool more = true; more;) {
    more = false;
    for (auto& [key, J] : joinSym) {
      auto* B = (const BasicBlock*)key.first; int64_t c = key.second;
      auto ib = in.find(B); if (ib == in.end() || dead.count(B)) continue;
      auto cur = ib->second.find(c); if (cur == ib->second.end() || !eq(cur->second, one(J))) continue;
      bool ok = true, any = false; Lin x;
      for (auto* P : predecessors(B)) if (out.count(P) && !dead.count(P) && !deadEdges.count({P, B}) && ok) {
        auto& st = out[P]; auto jt = st.find(c); Lin v = jt == st.end() ? one(sym(c)) : jt->second;
        if (eq(v, one(J))) continue;
        if (!any) { x = v; any = true; } else if (!eq(x, v)) ok = false;
      }
      if (!ok || !any || !x.ok || x.t.count(J)) continue;
      auto rep = [&](Lin& l) { auto it = l.t.find(J); if (it == l.t.end()) return; int64_t k = it->second; l = l - one(J).mul(k) + x.mul(k); };
      for (auto* m : {&in, &out}) for (auto& [b, st] : *m) for (auto& [o, v] : st) rep(v);
      for (auto& [I, st] : before) for (auto& [o, v] : st) rep(v);
      for (auto& [v, l] : loadVal) rep(l);
      more = true;
    }
  }
  // cells certainly overwritten so far, by block
  std::map<const BasicBlock*, std::set<int64_t>> owOut; bool ch = true;
  for (int it = 0; ch && it < 50; ++it) {
    ch = false; readsIncoming.clear(); writes.clear(); heapWrites.clear();
    for (auto* B : RPO) if (!dead.count(B)) {
      std::set<int64_t> o; bool first = true;
      if (B != &F.getEntryBlock()) for (auto* P : predecessors(B)) {
        auto f = owOut.find(P); if (f == owOut.end() || deadEdges.count({P, B})) continue;
        if (first) o = f->second; else { std::set<int64_t> r; for (auto x : o) if (f->second.count(x)) r.insert(x); o.swap(r); }
        first = false;
      }
      ow = &o; State s = in[B]; transfer(B, s, true); ow = nullptr;
      auto f = owOut.find(B);
      if (f == owOut.end() || f->second != o) { owOut[B] = o; ch = true; }
    }
  }
}
CellFlow::State CellFlow::atExit(bool* any) {
  State r; *any = false;
  std::map<int64_t, bool> same;
  for (auto& B : F) {
    if (dead.count(&B) || !isa<ReturnInst>(B.getTerminator()) || !in.count(&B)) continue;
    State s = in[&B]; transfer(&B, s, false);
    for (auto c : cells) {
      Lin v = s.count(c) ? s[c] : one(sym(c));
      if (!*any) r[c] = v;
      else if (r.count(c) && !eq(r[c], v)) { Lin bad; bad.ok = false; r[c] = bad; }
    }
    *any = true;
  }
  return r;
}
