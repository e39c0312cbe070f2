#include "core.h"

// I01: compiling patterns depends on their text, options and order only. Over everything reachable from the functions that build and
// write a program: no source of variation is consulted, no container or comparison orders things by address, and no hash table keyed by
// addresses is walked.
std::set<const Function*> reachable(Module& M, const CHA& cha, const std::vector<const Function*>& roots);
std::vector<const Function*> apiRoots(Module& M);
namespace {
// the template arguments of the outermost <...>
std::vector<string> targs(const string& n, size_t from) { std::vector<string> v; size_t i = n.find('<', from); if (i == string::npos) return v; int d = 0; string cur; for (; i < n.size(); ++i) { char c = n[i]; if (c == '<') { if (d++ == 0) continue; } if (c == '>') { if (--d == 0) { v.push_back(cur); break; } } if (c == ',' && d == 1) { v.push_back(cur); cur.clear(); if (i + 1 < n.size() && n[i + 1] == ' ') ++i; continue; } if (c == '(' ) ++d; if (c == ')') --d; cur += c; } return v; }
string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
// does operator< (or hash) of this type look at an address?
bool addr(string t) { t = trim(t); for (const char* c : {" const", "const"}) { size_t k = strlen(c); if (t.size() > k && t.substr(t.size() - k) == c) t = trim(t.substr(0, t.size() - k)); } if (t.empty()) return false; if (t.back() == '*') return true;
  for (const char* p : {"std::pair<", "std::tuple<", "std::vector<", "std::array<", "std::optional<", "std::deque<", "std::list<", "std::set<"}) if (t.rfind(p, 0) == 0) { auto as = targs(t, 0); size_t n = string(p) == "std::pair<" ? 2 : string(p) == "std::tuple<" ? as.size() : 1; for (size_t i = 0; i < as.size() && i < n; ++i) if (addr(as[i])) return true; return false; }
  for (const char* p : {"std::unique_ptr<", "std::shared_ptr<", "std::weak_ptr<", "boost::shared_ptr<", "std::reference_wrapper<"}) if (t.rfind(p, 0) == 0) return true; return false; }
// which arguments a value comes from
struct Roots { std::set<unsigned> args; bool other = false; };
void rootsOf(const Value* v, Roots& r, std::set<const Value*>& seen) { if (!seen.insert(v).second) return;
  if (auto* A = dyn_cast<Argument>(v)) { r.args.insert(A->getArgNo()); return; } if (isa<Constant>(v)) { r.other |= isa<GlobalVariable>(v); return; }
  if (auto* L = dyn_cast<LoadInst>(v)) { auto* P = L->getPointerOperand(); if (auto* AI = dyn_cast<AllocaInst>(P->stripInBoundsOffsets())) { for (auto* U : AI->users()) { if (auto* S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand()->stripInBoundsOffsets() == AI) rootsOf(S->getValueOperand(), r, seen); if (auto* C = dyn_cast<CallBase>(U)) for (auto& a : C->args()) if (a.get() != AI) rootsOf(a, r, seen); } return; } return rootsOf(P, r, seen); }
  if (auto* C = dyn_cast<CallBase>(v)) { for (auto& a : C->args()) if (a->getType()->isPointerTy()) rootsOf(a, r, seen); return; }
  if (auto* I = dyn_cast<Instruction>(v)) { for (auto& o : I->operands()) if (o->getType()->isPointerTy() || o->getType()->isIntegerTy() || o->getType()->isStructTy()) rootsOf(o, r, seen); if (isa<AllocaInst>(I)) r.other = true; } }
bool apart(const Value* a, const Value* b) { Roots x, y; std::set<const Value*> s1, s2; rootsOf(a, x, s1); rootsOf(b, y, s2); if (x.args.empty() || y.args.empty()) return false; for (auto i : x.args) if (y.args.count(i)) return false; return true; }
int run(const std::map<string, string>& args) {
  LLVMContext C; auto M = loadModule(C, args.at("--bc")); CHA cha(*M); std::vector<const Function*> roots; 
  for (auto* F : apiRoots(*M)) { string n = F->getName().str(); for (const char* k : {"lg_create_pattern", "lg_parse_pattern", "lg_add_pattern", "lg_create_fsm", "lg_create_program", "lg_write_program", "lg_program_size", "lg_get_", "lg_fsm_", "lg_destroy_fsm", "lg_prog_pattern"}) if (n.rfind(k, 0) == 0) { roots.push_back(F); break; } }
  if (roots.size() < 6) R.ob(false, "the functions that compile are known", "api", "", "only " + std::to_string(roots.size()) + " of the functions that build a program are found");
  auto reach = reachable(*M, cha, roots); R.count("functions reachable from the compiling API", reach.size()); R.count("compiling API functions", roots.size());
  const string S = "nothing that varies between runs is consulted", O = "nothing is ordered by address", H = "no table hashed by address is walked", K = "a comparison looks at contents, not addresses";
  static const std::set<string> deny = {"rand", "srand", "random", "drand48", "lrand48", "mrand48", "rand_r", "arc4random", "getrandom", "getentropy", "time", "clock", "clock_gettime", "gettimeofday", "times", "getpid", "getppid", "gettid", "pthread_self", "getenv", "secure_getenv", "setlocale", "localeconv", "nl_langinfo", "gethostname", "getcwd", "getuid", "geteuid", "sysconf", "sched_getcpu", "get_nprocs", "mktime", "localtime", "localtime_r", "ftime", "timespec_get", "strcoll", "strxfrm", "mallinfo", "malloc_usable_size", "dladdr", "backtrace"};
  int ext = 0; std::set<string> done;
  for (auto* F : reach) for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) { auto* T = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!T) continue; string n = T->getName().str();
      if (T->isIntrinsic()) { if (T->getIntrinsicID() == Intrinsic::readcyclecounter || T->getIntrinsicID() == Intrinsic::returnaddress || T->getIntrinsicID() == Intrinsic::frameaddress) R.ob(false, S, fnName(F) + " calls " + n, where(CB), "its result differs from run to run"); continue; }
      if (!T->isDeclaration()) continue; ++ext; string d = dem(n); bool bad = deny.count(n); for (const char* k : {"std::random_device::", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::this_thread::", "std::thread::hardware_concurrency", "std::locale::locale(char const*)"}) if (d.find(k) != string::npos) bad = true;
      if (bad && done.insert(fnName(F) + n).second) R.ob(false, S, fnName(F) + " calls " + d, where(CB), d + " gives another result in another run, process or environment"); }
  R.count("calls of other libraries looked at", ext); R.ob(true, S, "calls of other libraries", "", std::to_string(ext) + " call sites");
  // ordered containers and algorithms
  std::set<string> trees, cmps, addrTrees; 
  for (auto* F : reach) { string d = dem(F->getName()); 
    for (size_t i = d.find("std::_Rb_tree<"); i == 0 || (i != string::npos && i < d.find('(')); i = string::npos) { auto as = targs(d, i); if (as.size() < 4) break; string key = as[0], cmp = as[3], id = key + " by " + cmp; if (!trees.insert(id).second) break; bool std_ = cmp.rfind("std::less<", 0) == 0 || cmp.rfind("std::greater<", 0) == 0; bool voidc = std_ && targs(cmp, 0).size() && (targs(cmp, 0)[0] == "void" || targs(cmp, 0)[0].empty()); string kt = std_ && !voidc ? targs(cmp, 0)[0] : key; bool byAddr = std_ && addr(kt); if (byAddr) addrTrees.insert(key); R.ob(true, O, "ordered container of " + id, whereF(F), byAddr ? "by address: must not be walked" : ""); }
    for (const char* p : {"std::less<", "std::greater<", "std::less_equal<", "std::greater_equal<", "std::owner_less<", "std::compare_three_way"}) if (d.rfind(p, 0) == 0 || d.rfind(string("bool ") + p, 0) == 0) { auto as = targs(d, 0); if (as.empty()) continue; bool bad = addr(as[0]) || string(p) == "std::owner_less<"; // void comparators: the arguments of operator()
        if ((as[0] == "void" || as[0].empty())) { auto bs = targs(d, d.find("operator()")); for (auto& b : bs) { string t = b; while (!t.empty() && (t.back() == '&')) t.pop_back(); if (addr(t)) bad = true; } } if (!bad) { cmps.insert(d); continue; }
        // who compares? strings of the standard library compare addresses to recognise overlap
        bool used = false; string by; for (auto* U : F->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (reach.count(CB->getFunction())) { string c = fnName(CB->getFunction()); if (c.find("std::__cxx11::basic_string<") == 0 || c.find("std::basic_string") == 0 || c.find("std::vector<") == 0 || c.find("std::deque<") == 0 || c.find("boost::") == 0 || c.find("std::_Rb_tree<") != string::npos || c.find("std::map<") == 0 || c.find("std::set<") == 0) continue; used = true; by = c; }
        R.ob(!used, O, fnName(F), whereF(F), used ? by + " orders by address" : ""); } 
    // ordered containers keyed by address may be looked things up in, not walked
    for (const char* p : {"std::set<", "std::map<", "std::multiset<", "std::multimap<"}) if (d.rfind(p, 0) == 0) { auto as = targs(d, 0); size_t cidx = strstr(p, "map") ? 2 : 1; if (as.size() <= cidx || !addr(as[0]) || (as[cidx].rfind("std::less<", 0) && as[cidx].rfind("std::greater<", 0))) break; size_t close = 0; int dp = 0; for (; close < d.size(); ++close) { if (d[close] == '<') ++dp; if (d[close] == '>' && --dp == 0) break; } string m = d.substr(std::min(d.size(), close + 1)); bool walk = false; for (const char* w : {"::begin(", "::cbegin(", "::rbegin(", "::crbegin(", "::lower_bound(", "::upper_bound("}) walk |= m.rfind(w, 0) == 0; if (!walk) break; for (auto* U : F->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (reach.count(CB->getFunction()) && inRepo(CB->getFunction()) && fnName(CB->getFunction()).find('~') == string::npos) R.ob(false, O, fnName(CB->getFunction()) + " walks a container ordered by " + as[0], where(CB), "its order is the order of addresses, which differs from run to run"); break; }
    // sorting and searching with the plain < of pointers
    for (const char* p : {"_Iter_less_iter::operator()<", "_Iter_less_val::operator()<", "_Val_less_iter::operator()<"}) { size_t q = d.find(p); if (q == string::npos || q > d.find('(', d.find("operator()") + 10)) continue; auto as = targs(d, q + strlen(p) - 1); for (auto& a : as) { string el; if (a.rfind("__gnu_cxx::__normal_iterator<", 0) == 0) { auto b = targs(a, 0); if (b.size()) el = trim(b[0]); if (!el.empty() && el.back() == '*') el.pop_back(); else el.clear(); } else if (a.rfind("std::_Deque_iterator<", 0) == 0) { auto b = targs(a, 0); if (b.size()) el = b[0]; } else if (!a.empty() && a.back() == '*') el = a.substr(0, a.size() - 1); if (!el.empty() && addr(el)) { string by = "", at = whereF(F); R.ob(false, O, "sorting or comparing elements of type " + trim(el), at, "their < is the order of addresses, which differs from run to run"); break; } } }
    // walking a table hashed by address
    size_t u = d.find("std::unordered_"); if (u != string::npos && u < d.find('(') ) { auto as = targs(d, u); size_t e = d.rfind("::"); string m = e != string::npos ? d.substr(e + 2) : ""; bool walk = m.rfind("begin(", 0) == 0 || m.rfind("cbegin(", 0) == 0; if (as.size() && walk) { bool bad = addr(as[0]); bool used = false; string by, at; for (auto* U : F->users()) if (auto* CB = dyn_cast<CallBase>(U)) if (reach.count(CB->getFunction()) && inRepo(CB->getFunction()) && fnName(CB->getFunction()).find('~') == string::npos) { used = true; by = fnName(CB->getFunction()); at = where(CB); } if (used) R.ob(!bad, H, by + " walks a table with keys of type " + as[0], at, "the order of the table depends on addresses"); } }
    // comparisons written here: operators, function objects, lambdas that take two things and say which is first
    if (inRepo(F) && (F->getReturnType()->isIntegerTy(1) || F->getReturnType()->isIntegerTy(32)) && F->arg_size() >= 2 && F->arg_size() <= 3) { string n = fnName(F), dn = dem(F->getName()); auto base = dn.substr(0, dn.rfind('('));
      // what it takes: two things of one type
      size_t close = dn.rfind(')'), open = string::npos; int dep = 0; for (size_t i = close + 1; close != string::npos && i-- > 0;) { if (dn[i] == ')' || dn[i] == '>') ++dep; if (dn[i] == '(' || dn[i] == '<') if (--dep == 0) { open = i; break; } } if (open == string::npos) continue; std::vector<string> ps; { int d2 = 0; string cur; for (size_t i = open + 1; i < close; ++i) { char c = dn[i]; if (c == '<' || c == '(') ++d2; if (c == '>' || c == ')') --d2; if (c == ',' && !d2) { ps.push_back(trim(cur)); cur.clear(); continue; } cur += c; } ps.push_back(trim(cur)); }
      if (ps.size() != 2 || ps[0] != ps[1]) continue; base = dn.substr(0, open); auto ends = [&](const char* x) { size_t k = strlen(x); return base.size() >= k && base.compare(base.size() - k, k, x) == 0; };
      bool bool_ = F->getReturnType()->isIntegerTy(1), op = bool_ && (ends("operator()") || ends("operator<") || ends("operator>") || ends("operator<=") || ends("operator>=")); op |= base.find("ompare") != string::npos; op |= ends("operator<=>");
      bool passed = false; for (auto* U : F->users()) if (!isa<CallBase>(U) || cast<CallBase>(U)->getCalledOperand() != F) passed = true; if (!op && !(passed && bool_ && F->arg_size() == 2)) continue;
      simplify(*const_cast<Function*>(F), false); string bad, at; for (auto& I : instructions(*F)) { const Value *a = nullptr, *b = nullptr; if (auto* IC = dyn_cast<ICmpInst>(&I)) { if (IC->isEquality()) continue; a = IC->getOperand(0); b = IC->getOperand(1); if (!a->getType()->isPointerTy()) { auto p = [](const Value* v) -> const Value* { while (auto* Z = dyn_cast<CastInst>(v)) { if (isa<PtrToIntInst>(Z)) return Z->getOperand(0); v = Z->getOperand(0); } return nullptr; }; a = p(a); b = p(b); } } else if (auto* BO = dyn_cast<BinaryOperator>(&I)) { if (BO->getOpcode() != Instruction::Sub) continue; auto* x = dyn_cast<PtrToIntInst>(BO->getOperand(0)); auto* y = dyn_cast<PtrToIntInst>(BO->getOperand(1)); if (x && y) { a = x->getOperand(0); b = y->getOperand(0); } }
        if (!a || !b) continue; if (apart(a, b)) { bad = "it orders its arguments by the addresses they hold or lie at"; at = where(&I); } }
      for (auto& I : instructions(*F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (auto* T = CB->getCalledFunction()) { string d2 = dem(T->getName()); if ((d2.rfind("bool std::operator", 0) == 0 || d2.rfind("std::operator", 0) == 0) && (d2.find("operator< <") != string::npos || d2.find("operator<=><") != string::npos || d2.find("operator><") != string::npos || d2.find("operator<<") == string::npos) ) { size_t q = d2.find("operator"); if (d2.compare(q, 10, "operator==") == 0 || d2.compare(q, 10, "operator!=") == 0) continue; auto as = targs(d2, d2.find('(')); size_t par = d2.find('('); string first = par == string::npos ? "" : d2.substr(par + 1, d2.find_first_of(",)", par)); if (first.rfind("std::unique_ptr<", 0) == 0 || first.rfind("std::shared_ptr<", 0) == 0) { bad = "it orders its arguments by the addresses they hold"; at = where(CB); } } }
      R.ob(bad.empty(), K, n, at.empty() ? whereF(F) : at, bad); R.count("comparison functions", 1); } }
  R.count("ordered containers", trees.size()); R.count("standard comparators", cmps.size()); return 0; }
Reg r("I01", run);
}
