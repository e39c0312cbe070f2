#include "typed.h"
// dump the inlined form of a function: --bc F --root NAME [--keep a,b] [--strip 1]
static int dump(const std::map<string, string>& a) {
  LLVMContext C; auto M = loadModule(C, a.at("--bc"));
  Function* F = M->getFunction(a.at("--root"));
  if (!F) for (auto& G : *M) if (!G.isDeclaration() && fnName(&G) == a.at("--root")) F = &G;
  if (!F) R.error("no root");
  InlineOpts O; std::set<string> keep;
  if (a.count("--keep")) { SmallVector<StringRef, 8> p; StringRef(a.at("--keep")).split(p, ','); for (auto x : p) keep.insert(x.str()); }
  O.keep = [&](const Function& G) { return keep.count(fnName(&G)) > 0 || keep.count(G.getName().str()) > 0; };
  if (a.count("--strip")) O.stripEH = true;
  if (a.count("--nocse")) O.cse = false;
  inlineAll(*F, O);
  if (a.count("--tag")) { Types T(*M); tagAndSimplify(*F, T);
    PathFinder PF(*M);
    for (auto& I : instructions(*F)) {
      const Value* P = getLoadStorePointerOperand(&I);
      if (P) { string s; for (auto& p : PF.paths(P)) s += p.str() + "{" + T.memClass(p) + "} "; errs() << where(&I) << ": " << I.getOpcodeName() << " " << s << "\n"; }
    } }
  for (auto& I : instructions(*F)) I.setMetadata(LLVMContext::MD_dbg, nullptr);
  stripDebugInfo(*F);
  outs() << *F;
  errs() << instCount(*F) << " instructions\n";
  outs().flush(); _exit(0);
}
static Reg r("dump", dump);
