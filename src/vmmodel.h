#pragma once
#include "cells.h"
#include "exc.h"
// The search engine as seen from the C API.
struct Summary { std::set<int64_t> mods, reads, heap; bool ok = true; };
struct VmModel {
  Module& M; Types T;
  const DICompositeType* vm = nullptr;       // concrete engine class
  const DICompositeType* ctxHandle = nullptr;
  int64_t implOff = -1;                      // offset of the engine pointer in the handle
  std::vector<Function*> searchRoots; Function *reset = nullptr, *create = nullptr;
  std::set<Function*> prepared;
  std::map<Function*, std::map<unsigned, Summary>> sums;   // recursive functions, by argument
  std::map<const Function*, Function*> cloneOf;
  explicit VmModel(Module& M);
  Path basePath(Function* F);
  Function* prep(Function* F);               // inline + tag (once)
  std::unique_ptr<CellFlow> flow(Function* F, const Path& base);   // prepared, not yet run
  std::unique_ptr<CellFlow> flowRoot(Function* F) { prep(F); auto c = flow(F, basePath(F)); c->run(); return c; }
  const Summary& summary(Function* G, unsigned arg);
  Function* ctor();                          // constructor of the engine
};
// a loop or memset that stores one constant to every element from *start to *finish
struct Fill { int64_t vec; const BasicBlock* header; const Instruction* site; Lin value; };
std::vector<Fill> findFills(CellFlow& C, int64_t vec, uint64_t elem);
// every path from block A (from instruction `after`, or the start) to a return passes one of the fills
bool coveredByFill(CellFlow& C, int64_t vec, const std::vector<Fill>& fills, const Instruction* after, const BasicBlock* stopAt = nullptr);
