// lgsa: static analyses over the LLVM IR of /repo's sources.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;
using std::string;

// ---------------------------------------------------------------- reporting
struct Report {
  json::Array obligations;    // every obligation, decided
  json::Object counts;
  json::Array notes;
  int failed = 0, total = 0;
  // key: stable identification of the construct; msg: explanation
  void ob(bool ok, const string& rule, const string& key, const string& where, const string& msg);
  void error(const string& msg);   // analysis could not be carried out: exits with 3
  void count(const string& k, int64_t v) { counts[k] = counts.getInteger(k).value_or(0) + v; }
  void print();
};
extern Report R;

// ---------------------------------------------------------------- module
std::unique_ptr<Module> loadModule(LLVMContext& C, const string& path);
string dem(StringRef n);              // demangled, full
string fnName(const Function* F);     // demangled qualified name without params
string shortSrc(const string& path);  // path relative to repo
string where(const Instruction* I);   // file:line (function), outermost source position in repo if inlined
string whereF(const Function* F);
bool inRepo(const Function* F);       // has a subprogram whose file lies in the repo or build/gen
bool fileInRepo(StringRef f);

// address-taken functions and vtables
struct CHA {
  Module& M;
  struct VT { const GlobalVariable* G; string cls; std::vector<std::vector<Function*>> arrays; };
  std::vector<VT> vts;
  std::vector<Function*> addrTaken;     // address taken other than in a vtable
  explicit CHA(Module& M);
  // is this an indirect call through a vtable? slot in *slot, static class if known
  static bool vcall(const CallBase* CB, int64_t* slot);
  std::vector<Function*> vtargets(const CallBase* CB, int64_t slot) const;
  // all targets, empty if unknown; *resolved=false if unresolved
  std::vector<Function*> targets(const CallBase* CB, bool* resolved) const;
};

// ---------------------------------------------------------------- inlining
struct InlineOpts {
  std::function<bool(const Function&)> keep;   // do not inline calls to this function
  std::function<bool(const CallBase&)> keepSite;   // do not inline at this site
  bool devirtUnique = true;
  std::function<Function*(const CallBase&, int64_t slot, const CHA&)> devirt;   // target of a virtual call, if known
  bool cse = true;
  unsigned maxInsts = 400000;
  bool stripEH = false;      // turn invokes into calls
};
// Inlines everything reachable from Root into Root (recursion excepted) and canonicalises it.
void inlineAll(Function& Root, const InlineOpts& O);
void simplify(Function& F, bool cse);
size_t instCount(const Function& F);

// ---------------------------------------------------------------- DI field names
// name of the field at byte offset 'off' of class 'cls' (qualified), descending
string fieldAt(const DIType* T, uint64_t byteOff);
const DICompositeType* findClass(Module& M, const string& qualifiedName);
string diQualName(const DIScope* S);
const DIType* stripDI(const DIType* T);  // typedef/const/volatile

// ---------------------------------------------------------------- access paths
// Path: root value, then steps. Step >=0 : byte offset added; DEREF; ANY (unknown index).
struct Path {
  const Value* root = nullptr;
  std::vector<int64_t> steps;     // offsets / DEREF / IDX
  enum : int64_t { DEREF = INT64_MIN, IDX = INT64_MIN + 1 };
  string str() const;
  bool operator<(const Path& o) const { return std::tie(root, steps) < std::tie(o.root, o.steps); }
  bool operator==(const Path& o) const { return root == o.root && steps == o.steps; }
};
struct PathFinder {
  const DataLayout& DL;
  unsigned maxSteps = 12;
  std::map<const Value*, std::set<Path>> cache;
  explicit PathFinder(const Module& M) : DL(M.getDataLayout()) {}
  std::set<Path> paths(const Value* V, unsigned depth = 0);
private:
  std::set<const Value*> active;
};

// ---------------------------------------------------------------- linear facts
unsigned valueId(const Value* V);       // stable numbering in order of first use (not by address)
struct VLess { bool operator()(const Value* a, const Value* b) const { return a != b && valueId(a) < valueId(b); } };
struct Lin {                 // sum coef*atom + c   (mathematical integers)
  std::map<const Value*, int64_t, VLess> t; int64_t c = 0; bool ok = true;
  Lin operator+(const Lin& o) const; Lin operator-(const Lin& o) const; Lin mul(int64_t k) const;
  string str() const;
};
struct LinCtx {
  Function& F; DominatorTree& DT; const DataLayout& DL;
  std::map<const Value*, const Value*> canon;          // load equivalences
  std::function<const Value*(const Value*)> atomOf;
  std::function<bool(const Value*, Lin&)> subst;       // replaces a value by a linear form
  std::map<const Value*, Lin, VLess> defs;                    // atom -> Lin known to be zero (definition of a scaled atom)
  LinCtx(Function& F, DominatorTree& DT) : F(F), DT(DT), DL(F.getParent()->getDataLayout()) {}
  Lin lin(const Value* V, unsigned depth = 0);
  // facts (each Lin >= 0) that hold on entry to instruction I
  std::vector<Lin> factsAt(const Instruction* I);
  std::vector<Lin> factsOnEdge(const BasicBlock* From, const BasicBlock* To);
  void condFacts(const Value* Cond, bool truth, std::vector<Lin>& out, unsigned depth = 0);
  bool prove(const std::vector<Lin>& facts, const Lin& goal);   // facts |= goal >= 0
  bool refutes(const std::vector<Lin>& facts, const Value* cond, bool truth, const BasicBlock* splitAt = nullptr);   // cond==truth contradicts the facts
  bool proveSplit(const std::vector<Lin>& facts, const Lin& goal, const BasicBlock* at, unsigned depth = 0);  // also case-splits selects and merge phis that dominate at
  bool proveEq(const std::vector<Lin>& facts, const Lin& a, const Lin& b) { return prove(facts, a - b) && prove(facts, b - a); }
  typedef std::vector<std::pair<Lin, const BasicBlock*>> Located;   // holds where the block dominates
  Located loopFacts();          // phi >= init for loop phis that only grow
  Located ivFacts();            // equalities between counters of one loop that advance by constant steps
  std::function<bool(const ICmpInst*)> trust;   // may an unsigned comparison be read over the integers?
  std::set<const Value*> noSplit;
  std::vector<Lin> extra;    // assumed everywhere
  Located extraAt;
  bool unsignedAtoms = false;   // every atom is taken to be >= 0
  std::set<const Value*> signedAtoms;   // except these
};

// dominating branch conditions at a block: (cond, truth)
std::vector<std::pair<const Value*, bool>> domConds(const BasicBlock* BB, DominatorTree& DT);

typedef int (*CheckFn)(const std::map<string, string>& args);
void registerCheck(const string& name, CheckFn f);
struct Reg { Reg(const char* n, CheckFn f) { registerCheck(n, f); } };
