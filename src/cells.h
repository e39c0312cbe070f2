#pragma once
#include "typed.h"
// Flow-sensitive values of the fields of one object (addressed by an access path) through an inlined function.
struct CellFlow {
  Function& F; Types& T; Path base;             // base: path of the object's address
  const DICompositeType* cls;
  PathFinder PF; DominatorTree DT; LinCtx L;
  std::function<bool(const CallBase*, std::set<int64_t>&)> modOf;   // cells a call may write; false: unknown (everything)
  typedef std::map<int64_t, Lin> State;
  std::map<const BasicBlock*, State> in;
  std::map<const Instruction*, State> before;   // recorded at interesting points
  std::map<const Value*, Lin> loadVal;
  std::set<int64_t> cells;                      // every cell accessed
  std::map<int64_t, Value*> inSym;
  std::map<std::pair<const void*, int64_t>, Value*> joinSym;
  std::vector<std::unique_ptr<Argument>> pool;
  std::map<const Value*, string> symName;
  std::set<const BasicBlock*> dead;             // unreachable once infeasible branches are pruned
  std::set<std::pair<const BasicBlock*, const BasicBlock*>> deadEdges;
  std::vector<int64_t> vectors;                 // offsets of std::vector members
  std::function<bool(const Instruction*)> interesting;
  CellFlow(Function& F, Types& T, const Path& base, const DICompositeType* cls);
  // cell offset addressed by ptr if all its paths are base+off; may: it may be one of several
  bool cellOf(const Value* ptr, int64_t& off, bool& may);
  Value* sym(int64_t off);
  void run();
  State atExit(bool* any);                       // joined over reachable returns
  State stateBefore(const Instruction* I);       // after run()
  string name(int64_t off) const;                // field name
  string str(const Lin& l) const;
  Lin lin(const Value* V) { return L.lin(V); }
  bool written(int64_t off) const { return writes.count(off); }
  std::map<int64_t, const Instruction*> writes;  // cells that may be written, with a witness
  std::map<int64_t, const Instruction*> heapWrites;   // cells whose pointee may be written
  std::map<const CallBase*, std::set<int64_t>> callReads;   // cells read by a summarised callee
  Value* baseSym = nullptr;
  std::map<int64_t, const Instruction*> readsIncoming; // cells whose entry value may be read
private:
  std::set<int64_t>* ow = nullptr;
  std::set<const PHINode*> phiBusy;
  void transfer(const BasicBlock* B, State& S, bool record, const Instruction* stop = nullptr);
  void addFacts();
};
string fieldPath(const DIType* T, uint64_t off);   // Vm member path, e.g. Active._M_finish
