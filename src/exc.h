#pragma once
#include "core.h"
// Interprocedural analysis of the exception types that may leave each function.
struct ExcInfo {
  Module& M; CHA cha;
  typedef std::map<string, string> Tokens;       // exception type -> witness
  std::map<const Function*, Tokens> out;
  std::map<string, std::vector<string>> bases;    // typeinfo -> base typeinfos
  std::set<string> ignoreExternal;                // external functions known not to throw
  std::function<bool(const Function&)> externalC; // C function that may raise? default: no
  std::function<bool(const Function&)> assumeNothrow;
  bool callbacks = false;                         // external functions may raise what functions passed to them raise
  struct Term { const InvokeInst* I; Tokens T; };
  std::vector<Term> terminates;                   // invokes whose exceptions end in std::terminate
  explicit ExcInfo(Module& M);
  void solve();
  Tokens ofCallee(const Function* F);
  Tokens ofCall(const CallBase* CB);
  bool caughtBy(const string& tok, const string& clause) const;  // clause "" = catch-all
  bool derived(const string& a, const string& b) const;
  Tokens escaping(const Function& F, bool record = false);
};
