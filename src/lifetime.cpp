#include "typed.h"
#include "walk.h"
// E03: the memory a program was read from is released only after the program.

string jniFunction(const CallBase* CB, Module& M);   // name of the JNI function a call invokes, or ""

static bool isFree(const Function* f) {
  StringRef n = f->getName();
  return n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free" || n == "munmap" || n == "realloc";
}
static bool reaches(const Function* F, StringRef target, const CHA& cha) {
  std::set<const Function*> S; std::vector<const Function*> wl{F};
  while (!wl.empty()) {
    auto* G = wl.back(); wl.pop_back();
    if (!S.insert(G).second) continue;
    if (G->getName() == target) return true;
    for (auto& I : instructions(*G)) {
      if (auto* CB = dyn_cast<CallBase>(&I)) { bool r; int64_t sl; if (CHA::vcall(CB, &sl)) for (auto* T : cha.targets(CB, &r)) wl.push_back(T); }
      for (auto& o : I.operands()) if (auto* H = dyn_cast<Function>(o.get()->stripPointerCasts())) wl.push_back(H);
    }
  }
  return false;
}
string jniFunction(const CallBase* CB, Module& M) {
  if (auto* f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
    string d = fnName(f);
    if (d.rfind("JNIEnv_::", 0) == 0) return d.substr(9);
    return "";
  }
  auto* L = dyn_cast<LoadInst>(CB->getCalledOperand());
  if (!L) return "";
  const Value* b; int64_t off;
  if (!Walker::strip(M.getDataLayout(), L->getPointerOperand(), b, off) || !isa<LoadInst>(b) || off < 32) return "";
  static const DICompositeType* T = nullptr; static Module* forM = nullptr;
  if (forM != &M) { T = findClass(M, "JNINativeInterface_"); forM = &M; }
  if (!T) return "";
  for (auto* E : T->getElements())
    if (auto* D = dyn_cast<DIDerivedType>(E)) if (D->getOffsetInBits() / 8 == (uint64_t)off) return D->getName().str();
  return "";
}

struct Found { bool ok = true; std::set<string> bad; };

static const char* heavy[] = {"std::filesystem", "std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream", "std::future", "std::thread",
  "std::__future_base", "boost::", "std::regex", "std::basic_regex", "std::__detail", "std::_Rb_tree", "std::_Hashtable"};

static int e03(const std::map<string, string>& a) {
  std::set<string> mustInline;
  std::set<string> done;
  int reads = 0, destroys = 0;
  std::vector<string> roots;
  {
    LLVMContext C; auto M = loadModule(C, a.at("--bc"));
    auto* RP = M->getFunction("lg_read_program");
    std::set<const Function*> S; std::vector<const Function*> wl; std::set<string> tops;
    if (RP) for (auto* U : RP->users()) if (auto* I = dyn_cast<Instruction>(U)) wl.push_back(I->getFunction());
    if (auto* DP = M->getFunction("lg_destroy_program")) for (auto& F : *M) if (F.getName().starts_with("Java_"))
      for (auto* U : DP->users()) if (auto* I = dyn_cast<Instruction>(U)) if (I->getFunction() == &F) tops.insert(F.getName().str());
    while (!wl.empty()) {
      auto* F = wl.back(); wl.pop_back();
      if (!S.insert(F).second) continue;
      bool top = true;
      for (auto* U : F->users()) if (auto* I = dyn_cast<Instruction>(U)) { wl.push_back(I->getFunction()); top = false; }
      if (top) tops.insert(F->getName().str());
    }
    CHA cha(*M);
    for (auto& F : *M) if (F.getName().starts_with("Java_") && reaches(&F, "lg_destroy_program", cha) && !reaches(&F, "lg_create_program", cha)) tops.insert(F.getName().str());
    roots.assign(tops.begin(), tops.end());
    R.count("calls_of_lg_read_program", RP ? (int64_t)std::distance(RP->user_begin(), RP->user_end()) : 0);
  }
  for (auto& root : roots) {
    for (int round = 0; round < 6; ++round) {
      LLVMContext C; auto M = loadModule(C, a.at("--bc"));
      CHA cha(*M);
      Function* F = M->getFunction(root);
      std::map<const Function*, bool> rc;
      InlineOpts O;
      O.keep = [&](const Function& G) {
        if (mustInline.count(G.getName().str())) return false;
        string n = fnName(&G);
        for (auto* h : heavy) if (n.rfind(h, 0) == 0) return true;
        if (!inRepo(&G)) return false;
        auto it = rc.find(&G);
        if (it == rc.end()) it = rc.emplace(&G, reaches(&G, "lg_read_program", cha)).first;
        if (it->second) return false;
        // small ones are inlined anyway
        return instCount(G) > 60;
      };
      inlineAll(*F, O);
      R.count("instructions_analysed", instCount(*F));
      std::set<string> need;
      struct Job { CallBase* at; const Value* buf; const Value* h; bool jfield; };
      std::vector<Job> jobs;
      Value* jh = nullptr;
      for (auto& I : instructions(*F))
        if (auto* CB = dyn_cast<CallBase>(&I))
          if (auto* f = CB->getCalledFunction()) if (f->getName() == "lg_read_program") jobs.push_back({CB, CB->getArgOperand(0), CB, false});
      bool java = StringRef(root).starts_with("Java_");
      if (java && jobs.empty()) {
        for (auto& I : instructions(*F))
          if (auto* CB = dyn_cast<CallBase>(&I))
            if (auto* f = CB->getCalledFunction()) if (f->getName() == "lg_destroy_program") jh = CB->getArgOperand(0);
        if (jh) {
          const Value* v = jh->stripPointerCasts();
          while (isa<CastInst>(v)) v = cast<CastInst>(v)->getOperand(0);
          jobs.push_back({nullptr, nullptr, v, true});
        }
      }
      struct Out { bool ok; string rule, key, where, msg; };
      std::vector<Out> outs_;
      for (auto& J : jobs) {
        std::set<string> bad; int rel = 0, kills = 0;
        const int H = 1, N = 2;
        // values the buffer pointer may be known by when the program is read
        std::set<const Value*> web; std::set<const Value*> owners; std::set<std::pair<const Value*, int64_t>> cells; bool heap = false;
        std::function<void(const Value*)> close = [&](const Value* V) {
          V = V->stripPointerCasts();
          if (isa<Constant>(V) || !web.insert(V).second) return;
          if (auto* G = dyn_cast<GEPOperator>(V)) close(G->getPointerOperand());
          else if (auto* P = dyn_cast<PHINode>(V)) { for (auto& x : P->incoming_values()) close(x); }
          else if (auto* S = dyn_cast<SelectInst>(V)) { close(S->getTrueValue()); close(S->getFalseValue()); }
          else if (auto* L = dyn_cast<LoadInst>(V)) { const Value* b; int64_t o; if (Walker::strip(M->getDataLayout(), L->getPointerOperand(), b, o) && true) { cells.insert({b, o}); if (isa<AllocaInst>(b)) owners.insert(b); else heap = true; } else heap = true; }
          else if (auto* CB = dyn_cast<CallBase>(V)) {
            auto* f = CB->getCalledFunction();
            if (f && f->isDeclaration() && CB->arg_size() && !isFree(f) && f->getName().starts_with("_ZN")) {   // a member function handing out its object's memory
              const Value* b; int64_t o; if (Walker::strip(M->getDataLayout(), CB->getArgOperand(0), b, o) && isa<AllocaInst>(b)) owners.insert(b);
            }
          }
        };
        if (J.buf) close(J.buf);
        bool param = false; for (auto* v : web) if (isa<Argument>(v)) param = true;
        Walker W(*F);
        W.nothrow = [](const CallBase* CB) { auto* f = CB->getCalledFunction(); return f && f->getName().starts_with("lg_"); };
        W.visit = [&](WState& S, Instruction* I) {
          if (J.at && I == J.at) return false;       // read anew
          auto* CB = dyn_cast<CallBase>(I);
          if (J.jfield && I == J.h) { S.env[I] = Sym::obj(H); return true; }
          if (J.jfield && CB) {
            string j = jniFunction(CB, *M);
            if (j == "GetLongField" && I != J.h) { S.env[I] = Sym::obj(N); return true; }
          }
          if (!CB) return true;
          Sym c = W.eval(S, CB->getCalledOperand());
          const Function* f = c.k == Sym::Fn ? c.f : nullptr;
          auto argIs = [&](int id) { for (auto& x : CB->args()) if (W.eval(S, x) == Sym::obj(id)) return true; return false; };
          if (f && f->getName() == "lg_destroy_program") { if (argIs(H)) { S.flag[0] = 1; ++kills; if (!J.jfield) return false; } return true; }
          bool r = false; string how;
          if (f && isFree(f) && argIs(N)) { r = true; how = fnName(f); }
          string j = jniFunction(CB, *M);
          if (j.rfind("Release", 0) == 0 && argIs(N)) { r = true; how = j; }
          if (f && f->isDeclaration() && CB->arg_size() && !f->isIntrinsic()) {
            const Value* b; int64_t o;
            if (Walker::strip(M->getDataLayout(), CB->getArgOperand(0), b, o) && owners.count(b)) {
              StringRef n = f->getName();
              if (n.starts_with("_ZN") && !n.starts_with("_ZNK") && !n.contains("4data") && !n.contains("5beginEv") && !n.contains("ixEm") && !n.contains("5c_str")) { r = true; how = fnName(f); }
            }
          }
          // end of the lifetime of the array itself
          if (auto* II = dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID() == Intrinsic::lifetime_end)
            if (W.eval(S, II->getArgOperand(1)) == Sym::obj(N)) { r = true; how = "end of scope"; }
          if (r) {
            ++rel;
            if (!S.flag.count(0)) { bad.insert(where(I) + ": " + how); return false; }
            return true;
          }
          // a call that was not inlined and gets hold of the owners
          if (f && !f->isDeclaration()) {
            for (auto& x : CB->args()) {
              const Value* b; int64_t o;
              if (!Walker::strip(M->getDataLayout(), x, b, o)) continue;
              bool own = owners.count(b);
              for (auto& [k, s] : S.mem) if (k.first == b && s.k == Sym::Obj) own = true;
              if (own && !mustInline.count(f->getName().str())) need.insert(f->getName().str());
            }
            if (argIs(N) || (argIs(H) && reaches(f, "lg_destroy_program", cha))) if (!mustInline.count(f->getName().str())) need.insert(f->getName().str());
          }
          return true;
        };
        WState S0;
        bool okRun;
        if (J.at) {
          S0.env[J.h] = Sym::obj(H);
          for (auto* v : web) S0.env[v] = Sym::obj(N);
          for (auto& c : cells) S0.mem[c] = Sym::obj(N);
          // function pointers and nulls already stored before the call are found by walking from the entry
          okRun = W.run(J.at, S0);
        } else okRun = W.run(nullptr, S0);
        if (!okRun) R.error("E03: too many paths in " + root);
        string src = fnName(F);
        if (J.jfield) { ++destroys; outs_.push_back({bad.empty(), "buffer-freed-after-program", src, whereF(F), bad.empty() ? "every path frees native memory only after lg_destroy_program (" + std::to_string(rel) + " releases)" : "native memory of the handle is freed before lg_destroy_program at " + *bad.begin()}); }
        else {
          ++reads;
          string msg = "followed " + std::to_string(W.states) + " states: " + std::to_string(rel) + " releases of the buffer, " + std::to_string(kills) + " of the program first";
          if (!bad.empty()) { msg = "the memory the program refers to is released while the program exists:"; for (auto& b : bad) msg += " " + b; }
          outs_.push_back({bad.empty(), "buffer-outlives-program", src + "@lg_read_program", where(J.at), msg});
          bool known = param || !owners.empty();
          if (heap && !known) { known = true; R.notes.push_back(src + ": the buffer's owner lies on the heap"); }
          for (auto* v : web) if (auto* CB = dyn_cast<CallBase>(v)) { (void)CB; known = true; }
          for (auto* v : web) if (isa<AllocaInst>(v)) outs_.push_back({false, "buffer-not-on-stack", src, where(J.at), "the program is read from a local array"});
          outs_.push_back({known, "buffer-origin-known", src + "@lg_read_program", where(J.at), known ? "the allocation of the buffer was found" : "cannot tell who owns the buffer"});
          (void)param;
        }
      }
      if (!need.empty() && round < 5) { for (auto& n : need) mustInline.insert(n); continue; }
      for (auto& o : outs_) R.ob(o.ok, o.rule, o.key, o.where, o.msg);
      break;
    }
  }
  R.count("programs_read", reads); R.count("native_destroy_functions", destroys);
  return 0;
}
static Reg r3("E03", e03);
