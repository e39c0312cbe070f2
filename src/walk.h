#pragma once
#include "core.h"
// Path-sensitive propagation of a few interesting values (tracked objects, null, function addresses)
// through one function: every path of the control-flow graph, joined only where the states are equal.
struct Sym {
  enum K { Unknown, Null, Fn, Obj, Val, Int } k = Unknown;
  const Function* f = nullptr; int id = 0;
  bool operator==(const Sym& o) const { return k == o.k && f == o.f && id == o.id; }
  bool operator<(const Sym& o) const { return std::tie(k, f, id) < std::tie(o.k, o.f, o.id); }
  static Sym null() { Sym s; s.k = Null; return s; }
  static Sym fn(const Function* f) { Sym s; s.k = Fn; s.f = f; return s; }
  static Sym val(int i) { Sym s; s.k = Val; s.id = i; return s; }   // a known value that may be zero
  static Sym num(int i) { Sym s; s.k = i ? Int : Null; s.id = i; return s; }   // a known integer
  static Sym obj(int i) { Sym s; s.k = Obj; s.id = i; return s; }
};
struct WState {
  std::map<const Value*, Sym> env;                                       // SSA values
  std::map<std::pair<const Value*, int64_t>, Sym> mem;                   // cells of allocas and fresh objects
  std::map<int, int> flag;                                               // client state
  std::map<const Value*, bool> cond;                                     // branch conditions decided on this path
  bool operator<(const WState& o) const { return std::tie(env, mem, flag, cond) < std::tie(o.env, o.mem, o.flag, o.cond); }
};
struct Walker {
  Function& F; const DataLayout& DL;
  size_t maxStates = 400000, states = 0;
  std::function<bool(WState&, Instruction*)> visit;        // false: this path ends here
  std::function<void(WState&, Instruction*)> atEnd;        // return, resume
  std::function<void(WState&, BranchInst*, bool)> onEdge;  // an undecided branch taken
  std::function<bool(const CallBase*)> nothrow;            // this invoke cannot unwind
  bool unwindPaths = true;
  bool ints = false;                                       // follow integer constants too
  bool liveOnly = false;                                   // values that are not used any more are forgotten between blocks
  std::function<bool(const Value*)> memKeep;               // if set, memory of other objects is forgotten
  std::function<bool(const Sym&)> relevant;                // if set, other values and branch decisions are forgotten between blocks
  Walker(Function& F) : F(F), DL(F.getParent()->getDataLayout()) {}
  Sym eval(const WState& S, const Value* V) const;
  static bool strip(const DataLayout& DL, const Value* V, const Value*& base, int64_t& off);
  bool run(Instruction* from, WState S);   // starts after 'from'; false if there were too many states
private:
  std::map<const BasicBlock*, std::set<WState>> seen;
  std::map<const Value*, int> condUses;
  std::map<const BasicBlock*, std::set<const Value*>> liveIn;
  void effects(WState& S, Instruction* I);
  int decide(const WState& S, const Value* C) const;       // 1 true, 0 false, -1 unknown
};

void lowerSelects(Function& F);                            // every select becomes control flow
void replaceSym(WState& S, Sym from, Sym to);              // everywhere in the state
bool nullTest(const BranchInst* Br, bool taken, const Value*& V, bool& isNull);
