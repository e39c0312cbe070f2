#pragma once
#include "core.h"
// Ternary abstract interpretation over the bits of a function's inputs. Every input bit is 0, 1 or unknown; a value is a vector of
// bits, each a constant or an input bit (or its complement). Where a branch, a carry or an address needs an unknown bit, the domain is
// split on that bit and both halves are evaluated again; the halves partition the inputs, so the leaves cover every input exactly once.
namespace bv {
struct Bit { int8_t c = 0; int v = -1; bool neg = false; bool isVar() const { return v >= 0; } bool operator==(const Bit& o) const { return v == o.v && (v >= 0 ? neg == o.neg : c == o.c); } };
typedef std::vector<Bit> BV;
struct Split { int v; };
struct Stuck { string why; const Instruction* at; bool wrong = false; }; // wrong: the code does something it must not; otherwise: not understood
struct Thrown { };
struct Val { enum K { U, I, P, S } k = U; BV b; int base = -1; int64_t off = 0; std::vector<Val> s; };
BV con(uint64_t n, unsigned w);
bool isCon(const BV& b, uint64_t& n);
Val val(const BV& b); Val ptr(int base, int64_t off);
BV slice(const BV& b, unsigned lo, unsigned n); BV cat(std::initializer_list<BV> lowFirst); BV zext(BV b, unsigned w);
// decided comparisons (they split until they are decided)
bool ult(const BV& a, const BV& b); bool slt(const BV& a, const BV& b); bool eq(const BV& a, const BV& b);
bool in(const BV& a, uint64_t lo, uint64_t hi); // lo <= a <= hi
BV add(const BV& a, const BV& b, bool carry = false); BV inv(BV a);
string show(const BV& b);
struct Machine {
  Module& M; const DataLayout& DL; std::map<int, bool> fix; std::vector<string> names; std::vector<string> bases; size_t steps = 0, maxSteps = 40000;
  struct Cell { BV b; bool isPtr = false; int base = -1; int64_t off = 0; unsigned frag = 0; bool undef = false; };
  std::map<std::pair<int, int64_t>, Cell> mem; std::set<int> sym; /* objects whose pointer members are unknown pointers */ std::map<const GlobalVariable*, int> globs; std::vector<const GlobalVariable*> globOf; std::vector<std::pair<int, int64_t>> wrote; std::vector<std::pair<int, int64_t>> read;
  std::function<bool(Machine&, int base, int64_t off, Cell&)> init;      // memory nothing has been written to
  std::function<bool(Machine&, const CallBase*, std::vector<Val>&, Val&)> hook; bool simplifyCallees = true;
  explicit Machine(Module& M) : M(M), DL(M.getDataLayout()) {}
  int newBase(const string& n) { bases.push_back(n); globOf.push_back(nullptr); return bases.size() - 1; }
  std::map<string, int> varIds; BV var(const string& name, unsigned w);   // named unknown (fixed bits as constants)
  void reset() { mem.clear(); sym.clear(); bases.clear(); globs.clear(); globOf.clear(); wrote.clear(); read.clear(); steps = 0; }
  void store(int base, int64_t off, const Val& v, unsigned bytes); Val load(int base, int64_t off, Type* T, const Instruction* at = nullptr);
  BV bytesAt(int base, int64_t off, unsigned n); bool written(int base, int64_t off) { return mem.count({base, off}); }
  Val run(Function& F, std::vector<Val> args, unsigned depth = 0);
  Val constant(const Constant* C);
};
// evaluates 'leaf' on a partition of the inputs; false (with 'why') if it gets stuck or there are too many pieces
bool partition(Machine& m, const std::function<void(Machine&)>& leaf, size_t& leaves, Stuck& why, size_t maxLeaves = 200000);
}
