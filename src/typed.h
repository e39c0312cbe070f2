#pragma once
#include "core.h"
// Debug-info types of memory reached by access paths.
struct Types {
  Module& M;
  std::map<string, const DICompositeType*> byName;
  std::map<const DIType*, std::vector<const DICompositeType*>> derived;   // by base (canonical)
  bool allocas = false;                                 // local objects count as typed roots too
  bool calls = false;                                   // results of calls too
  explicit Types(Module& M);
  const DIType* canon(const DIType* T) const;           // definition of a forward declaration, typedefs stripped
  const DIType* concrete(const DIType* T) const;        // unique most derived class of a polymorphic base, else itself
  const DIType* argType(const Function& F, unsigned i) const;   // as declared
  const DIType* valueType(const Value* root) const;             // argument or alloca; null if unknown
  static const DIType* pointee(const DIType* T);        // of pointer or reference, else null
  struct Loc { bool ok = false; const DIType* cls = nullptr; uint64_t off = 0; string owner; bool array = false; };
  // location a path leads to (address of): class and offset within; owner: field it was reached through
  Loc locate(const Path& p) const;
  // innermost "Class::field" at offset
  string leaf(const DIType* cls, uint64_t off, const DIType** ft = nullptr) const;
  string memClass(const Path& p) const;                 // alias class name, "" if unknown
  string memClass(PathFinder& PF, const Value* ptr) const;
  // target of a virtual call whose object's most derived class is known from the types
  Function* devirt(const CallBase& CB, int64_t slot, const CHA& cha) const;
};
// tags loads and stores with alias classes derived from the types, then simplifies again
void tagAndSimplify(Function& F, Types& T, int rounds = 2);
