#pragma once
#include "core.h"
// Abstract evaluation of acyclic code over bytes: a byte is a constant or a named unknown; bytes may be moved about,
// compared (decided by the assumed order of the named bytes), used as indices, or combined into opaque expressions.
namespace be {
struct B { int c = -1; string s; bool operator==(const B& o) const { return c == o.c && s == o.s; } };
struct V {
  enum K { Unk, Int, Ptr } k = Unk;
  std::vector<B> b;                                        // Int, least significant first
  string root; std::map<string, int64_t> idx; int64_t off = 0;   // Ptr
  bool operator==(const V& o) const { return k == o.k && b == o.b && root == o.root && idx == o.idx && off == o.off; }
};
V sum(const std::map<string, int64_t>& t, int64_t c, unsigned bytes); V con(uint64_t c, unsigned bytes); V sym(const string& n, unsigned bytes); V ptr(const string& root, int64_t off = 0);
string str(const V& v);
struct Stuck { string why; };
struct Event { const CallBase* call; std::map<std::pair<string, int64_t>, V> pm; std::vector<V> args; };
struct Out { bool thrown = false, looped = false, left = false; V ret; std::map<std::pair<string, int64_t>, B> mem; std::map<std::pair<string, int64_t>, V> pm; std::vector<Event> calls; std::vector<string> indexes; std::vector<std::pair<V, V>> stores; std::vector<unsigned> sizes; std::vector<std::pair<const Loop*, std::map<const Value*, V>>> loops; std::map<string, int64_t> asg; bool havoc = false; std::map<const Value*, V> at; };
struct Alias { string root; int64_t off, len; string src; int64_t soff; };
struct Eval {
  Function& F; const DataLayout& DL;
  std::map<const Value*, V> args;
  std::map<std::pair<string, int64_t>, B> mem0; std::map<std::pair<string, int64_t>, V> pm0; std::vector<Alias> alias0;
  std::set<string> stable;                                  // memory nothing else changes
  std::vector<int64_t> ranks;                               // representative values of a named byte
  std::function<bool(const CallBase*)> record;              // calls to put in the outcome
  std::map<string, int64_t> fixed;                          // assumed ranks and tests
  std::function<bool(Eval&, const CallBase*, const std::vector<V>&, V&)> hook;   // a call whose result is known
  LoopInfo* LI = nullptr; ScalarEvolution* SE = nullptr;    // if set, counted loops are skipped: their counters get their last values
  const BasicBlock* startAt = nullptr; std::map<const Value*, V> env0; const BasicBlock* stopAt = nullptr; const Loop* within = nullptr;
  std::function<bool(Eval&, const Loop*, const std::map<const Value*, V>&, std::map<const Value*, V>&)> loopEnd;   // what a skipped loop leaves behind, if known
  std::map<std::pair<string, string>, std::pair<int64_t, string>> rebase;   // array behind a root, index -> element size, name of that element
  bool skip = false, keepEnv = false;                       // other loops: everything they compute is a new unknown (LI needed)
  size_t limit = 60000;
  Eval(Function& F) : F(F), DL(F.getParent()->getDataLayout()) {}
  std::vector<Out> all();                                   // every outcome, under every consistent assumption
  int64_t ask(const string& a, std::vector<int64_t> dom);
  bool lin(const V& v, std::map<string, int64_t>& t, int64_t& c);
  // state of one run
  std::map<string, int64_t> asg; std::map<const Value*, V> env; Out o; std::vector<Alias> alias; std::map<string, int> epoch; int ep = 0;
private:
  struct Need { string atom; std::vector<int64_t> dom; };
  void run();
  V val(const Value* v); V gep(const GEPOperator* G); V load(const V& p, unsigned n, bool isPtr);
  void store(const V& p, const V& v, unsigned n); void havoc(const string& root); void havocAll();
  int64_t rank(const B& x);
  V cmp(ICmpInst::Predicate P, const V& x, const V& y); bool scev(const SCEV* S, std::map<string, int64_t>& t, int64_t& c);
  bool truth(const V& v, bool& r);
};
}
