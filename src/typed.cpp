#include "typed.h"
#include "llvm/IR/MDBuilder.h"

Types::Types(Module& M) : M(M) {
  DebugInfoFinder Fd; Fd.processModule(M);
  for (auto* T : Fd.types())
    if (auto* C = dyn_cast<DICompositeType>(T))
      if (!C->isForwardDecl() && !C->getName().empty()) { auto& e = byName[diQualName(C)]; if (!e) e = C; }
  for (auto* T : Fd.types())           // typedef struct { } Name;
    if (auto* D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef) if (auto* C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (C->getName().empty()) { auto& e = byName[D->getName().str()]; if (!e) e = C; }
  for (auto& [n, C] : byName)
    for (auto* E : C->getElements())
      if (auto* D = dyn_cast<DIDerivedType>(E))
        if (D->getTag() == dwarf::DW_TAG_inheritance) derived[canon(D->getBaseType())].push_back(C);
}
const DIType* Types::canon(const DIType* T) const {
  T = stripDI(T);
  if (auto* C = dyn_cast_or_null<DICompositeType>(T)) {
    if (C->getName().empty()) return C;
    auto it = byName.find(diQualName(C));
    if (it != byName.end()) return it->second;
  }
  return T;
}
const DIType* Types::concrete(const DIType* T) const {
  T = canon(T);
  auto* C = dyn_cast_or_null<DICompositeType>(T);
  if (!C) return T;
  bool poly = C->getVTableHolder() != nullptr;
  if (!poly) for (auto* E : C->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getName().starts_with("_vptr")) poly = true;
  if (!poly) return T;
  auto it = derived.find(T);
  if (it == derived.end()) return T;
  if (it->second.size() != 1) return T;
  return concrete(it->second[0]);
}
const DIType* Types::argType(const Function& F, unsigned i) const {
  auto* S = F.getSubprogram(); if (!S) return nullptr;
  // retained variables give the exact argument numbering
  for (auto& I : instructions(F))
    if (auto* D = dyn_cast<DbgVariableIntrinsic>(&I)) {
      auto* V = D->getVariable();
      if (V && V->isParameter() && V->getScope() && V->getScope()->getSubprogram() == S && V->getArg() == i + 1 && !D->getDebugLoc().getInlinedAt()) return V->getType();
    }
  auto a = S->getType() ? S->getType()->getTypeArray() : DITypeRefArray();
  if (a && i + 1 < a.size()) return a[i + 1];
  return nullptr;
}
const DIType* Types::valueType(const Value* V) const {
  if (auto* A = dyn_cast<Argument>(V)) {
    if (!A->getParent()) return nullptr;
    unsigned i = A->getArgNo();
    if (A->getParent()->hasStructRetAttr()) { if (i == 0) return nullptr; --i; }
    return argType(*A->getParent(), i);
  }
  if (auto* CB = dyn_cast<CallBase>(V)) if (calls) if (auto* f = CB->getCalledFunction()) if (auto* S = f->getSubprogram()) if (S->getType()) {
    auto a = S->getType()->getTypeArray();
    if (a && a.size() && pointee(a[0])) return a[0];
  }
  if (auto* A = dyn_cast<AllocaInst>(V)) if (allocas) if (auto* S = dyn_cast<StructType>(A->getAllocatedType())) if (S->hasName()) {
    StringRef n = S->getName(); n.consume_front("class."); n.consume_front("struct.");
    if (n.starts_with("anon")) return nullptr;
    return findClass(M, n.str());
  }
  return nullptr;
}
const DIType* Types::pointee(const DIType* T) {
  T = stripDI(T);
  auto* D = dyn_cast_or_null<DIDerivedType>(T);
  if (!D) return nullptr;
  auto t = D->getTag();
  if (t == dwarf::DW_TAG_pointer_type || t == dwarf::DW_TAG_reference_type || t == dwarf::DW_TAG_rvalue_reference_type) return D->getBaseType();
  return nullptr;
}
string Types::leaf(const DIType* T, uint64_t off, const DIType** ft) const {
  T = canon(T);
  auto* C = dyn_cast_or_null<DICompositeType>(T);
  if (ft) *ft = T;
  if (!C) return "";
  if (C->getTag() == dwarf::DW_TAG_array_type) {
    auto* E = canon(C->getBaseType()); uint64_t sz = E ? E->getSizeInBits() / 8 : 0;
    if (!sz) return "";
    return leaf(E, off % sz, ft);
  }
  if (C->getTag() == dwarf::DW_TAG_enumeration_type) return "";
  const DIDerivedType* best = nullptr; uint64_t bo = 0; string weak; const DIType* weakT = nullptr;
  for (auto* E : C->getElements()) {
    auto* D = dyn_cast<DIDerivedType>(E);
    if (!D || D->isStaticMember()) continue;
    if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
    auto* bt = canon(D->getBaseType());
    uint64_t o = D->getOffsetInBits() / 8, s = bt ? bt->getSizeInBits() / 8 : 0;
    if (!s) s = D->getSizeInBits() / 8;
    if (!(off >= o && off < o + std::max<uint64_t>(s, 1))) continue;
    if (D->getTag() == dwarf::DW_TAG_inheritance) {
      const DIType* f2; string r = leaf(bt, off - o, &f2);
      // an empty object shares its place with what is stored there
      if (auto* e = dyn_cast_or_null<DICompositeType>(f2 ? canon(f2) : nullptr)) {
        bool data = e->getTag() != dwarf::DW_TAG_class_type && e->getTag() != dwarf::DW_TAG_structure_type;
        for (auto* x : e->getElements()) if (auto* d = dyn_cast_or_null<DIDerivedType>(x)) if ((d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) || d->getTag() == dwarf::DW_TAG_inheritance) data = true;
        if (!data) { if (!r.empty() && weak.empty()) { weak = r; weakT = f2; } continue; }
      }
      if (!r.empty()) { if (ft) *ft = f2; return r; }
      continue;
    }
    if (C->getTag() == dwarf::DW_TAG_union_type && best) continue;
    best = D; bo = o;
  }
  if (!best) { if (!weak.empty() && ft) *ft = weakT; return weak; }
  const DIType* f2; string r = leaf(best->getBaseType(), off - bo, &f2);
  if (ft) *ft = f2;
  if (!r.empty()) return r;
  if (C->getTag() == dwarf::DW_TAG_union_type) return diQualName(C) + "::*";
  string q = diQualName(C);
  return q + "::" + best->getName().str();
}
Types::Loc Types::locate(const Path& p) const {
  Loc L;
  const DIType* T0 = p.root ? valueType(p.root) : nullptr;
  if (!T0) return L;
  const DIType* cur;
  if (auto* pt = pointee(T0)) cur = pt;
  else cur = T0;            // passed indirectly
  cur = concrete(cur);
  L.owner = p.root->hasName() ? "arg " + p.root->getName().str() : "arg";
  uint64_t off = 0; bool arr = false;
  for (auto s : p.steps) {
    if (s == Path::IDX) { arr = true; off = 0; continue; }
    if (s != Path::DEREF) {
      if (s < 0) { uint64_t sz = cur ? cur->getSizeInBits() / 8 : 0; if (!sz) return L; s = ((s % (int64_t)sz) + sz) % sz; arr = true; }
      off += s;
      continue;
    }
    if (!cur) return L;
    uint64_t sz = cur->getSizeInBits() / 8;
    if (sz && off >= sz) { off %= sz; }
    const DIType* ft; string own;
    if (auto* pt = pointee(cur)) { ft = cur; own = L.owner + "[]"; (void)pt; }
    else { own = leaf(cur, off, &ft); }
    auto* np = pointee(ft);
    if (!np) return L;
    L.owner = own; cur = concrete(np); off = 0; arr = false;
  }
  if (!cur) return L;
  uint64_t sz = cur->getSizeInBits() / 8;
  if (sz && off >= sz) { off %= sz; arr = true; }
  L.ok = true; L.cls = cur; L.off = off; L.array = arr;
  return L;
}
string Types::memClass(const Path& p) const {
  auto L = locate(p);
  if (!L.ok) return "";
  if (auto* C = dyn_cast<DICompositeType>(L.cls)) {
    (void)C;
    return leaf(L.cls, L.off);
  }
  if (auto* B = dyn_cast<DIBasicType>(L.cls)) if (B->getSizeInBits() == 8) return "";   // bytes may be anything
  if (L.owner.rfind("arg", 0) == 0) return "";
  return L.owner + "[]";
}
string Types::memClass(PathFinder& PF, const Value* ptr) const {
  string r; bool first = true;
  for (auto& p : PF.paths(ptr)) {
    string c = memClass(p);
    if (c.empty()) {   // fresh storage has the type it is used with: decided by the other paths
      if (auto* CB = dyn_cast_or_null<CallBase>(p.root)) if (auto* G = CB->getCalledFunction()) if (G->getName() == "_Znwm" || G->getName() == "_Znam") continue;
      return "";
    }
    if (first) r = c; else if (r != c) return "";
    first = false;
  }
  return r;
}
Function* Types::devirt(const CallBase& CB, int64_t slot, const CHA& cha) const {
  PathFinder PF(M); string cls;
  for (auto& p : PF.paths(CB.getArgOperand(0))) {
    auto L = locate(p);
    if (!L.ok || L.off) return nullptr;
    auto* C = dyn_cast_or_null<DICompositeType>(L.cls); if (!C) return nullptr;
    string n = diQualName(C); if (!cls.empty() && cls != n) return nullptr; cls = n;
  }
  if (cls.empty()) return nullptr;
  Function* r = nullptr;
  for (auto& v : cha.vts) if (v.cls == cls && !v.arrays.empty() && (size_t)slot < v.arrays[0].size()) r = v.arrays[0][slot];
  if (r && (r->getFunctionType() != CB.getFunctionType() || r->getName() == "__cxa_pure_virtual")) return nullptr;
  return r;
}
void tagAndSimplify(Function& F, Types& T, int rounds) {
  MDBuilder MB(F.getContext());
  auto* root = MB.createTBAARoot("lgsa");
  for (int r = 0; r < rounds; ++r) {
    PathFinder PF(*F.getParent());
    for (auto& I : instructions(F)) {
      const Value* P = nullptr;
      if (auto* L = dyn_cast<LoadInst>(&I)) { if (!L->isAtomic()) P = L->getPointerOperand(); }
      else if (auto* S = dyn_cast<StoreInst>(&I)) { if (!S->isAtomic()) P = S->getPointerOperand(); }
      if (!P) continue;
      string c = T.memClass(PF, P);
      if (c.empty()) { I.setMetadata(LLVMContext::MD_tbaa, nullptr); continue; }
      auto* N = MB.createTBAAScalarTypeNode(c, root);
      I.setMetadata(LLVMContext::MD_tbaa, MB.createTBAAStructTagNode(N, N, 0));
    }
    simplify(F, true);
  }
}
