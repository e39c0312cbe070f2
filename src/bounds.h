#pragma once
#include "typed.h"
// Proofs that accesses through a pointer stay in [lo, hi), by linear arithmetic over the branch conditions.
struct Bounds {
  Function& F; DominatorTree DT; LoopInfo LI; LinCtx L; PathFinder PF;
  std::vector<const Value*> roots;               // values the buffer pointer enters by
  Lin lo, hi;
  std::set<const Value*> sgn;                    // atoms that may be negative
  std::map<const ICmpInst*, int> trusted;
  Bounds(Function& F) : F(F), DT(F), LI(DT), L(F, DT), PF(*F.getParent()) {}
  void start();                                  // after roots, lo, hi, sgn are set
  bool rooted(const Value* P);
  bool trust(const ICmpInst* I);
  bool sane(const Lin& g, const Instruction* at);   // the machine value equals the integer value g
  void strengthen(const Value* c, bool t, std::vector<Lin>& f);
  std::vector<Lin> facts(const Instruction* I);
  std::vector<Lin> edgeFacts(const BasicBlock* A, const BasicBlock* B);
  bool prove(const Instruction* at, const Lin& g) { auto f = facts(at); return L.proveSplit(f, g, at->getParent()); }
private:
  std::set<const Value*> derived;
  void calls();
  void boundInvariants();
  bool big(const Value* v);                      // may take any 64-bit value
};
// function with everything inlined, tagged and simplified
Function* inlined(Function* F, Types& T, bool strip = true);
