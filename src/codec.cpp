#include "bits.h"
// D01: the UTF and ASCII codecs against the Unicode standard (Table 3-7 and the definitions of the encoding forms), D03: byte and character
// transforms and their inverses, D04: how much encoders write. All over a partition of the whole input domain.
namespace {
using namespace bv;
struct Res { uint64_t len = 0; BV cp; std::vector<BV> bytes; };
// -- the standard
Res spec8(const std::vector<BV>& b) { // what the first bytes of b are
  Res r; size_t n = b.size(); auto ok = [&](size_t i, uint64_t lo, uint64_t hi) { return i < n && in(b[i], lo, hi); }; if (!n) return r;
  if (in(b[0], 0, 0x7F)) { r.len = 1; r.cp = zext(b[0], 32); return r; }
  if (in(b[0], 0xC2, 0xDF)) { if (!ok(1, 0x80, 0xBF)) return r; r.len = 2; r.cp = zext(cat({slice(b[1], 0, 6), slice(b[0], 0, 5)}), 32); return r; }
  if (in(b[0], 0xE0, 0xEF)) { uint64_t lo = eq(b[0], con(0xE0, 8)) ? 0xA0 : 0x80, hi = eq(b[0], con(0xED, 8)) ? 0x9F : 0xBF; if (!ok(1, lo, hi) || !ok(2, 0x80, 0xBF)) return r; r.len = 3; r.cp = zext(cat({slice(b[2], 0, 6), slice(b[1], 0, 6), slice(b[0], 0, 4)}), 32); return r; }
  if (in(b[0], 0xF0, 0xF4)) { uint64_t lo = eq(b[0], con(0xF0, 8)) ? 0x90 : 0x80, hi = eq(b[0], con(0xF4, 8)) ? 0x8F : 0xBF; if (!ok(1, lo, hi) || !ok(2, 0x80, 0xBF) || !ok(3, 0x80, 0xBF)) return r; r.len = 4; r.cp = zext(cat({slice(b[3], 0, 6), slice(b[2], 0, 6), slice(b[1], 0, 6), slice(b[0], 0, 3)}), 32); return r; }
  return r; }
Res spec16(const std::vector<BV>& b, bool le) { Res r; auto unit = [&](size_t i) { return le ? cat({b[i], b[i + 1]}) : cat({b[i + 1], b[i]}); }; if (b.size() < 2) return r; BV u = unit(0);
  if (in(u, 0xD800, 0xDBFF)) { if (b.size() < 4) return r; BV t = unit(2); if (!in(t, 0xDC00, 0xDFFF)) return r; r.len = 4; BV w = slice(u, 0, 6); r.cp = zext(cat({slice(t, 0, 10), w, add(zext(slice(u, 6, 4), 5), con(1, 5))}), 32); return r; }
  if (in(u, 0xDC00, 0xDFFF)) return r; r.len = 2; r.cp = zext(u, 32); return r; }
Res spec32(const std::vector<BV>& b, bool le) { Res r; if (b.size() < 4) return r; BV u = le ? cat({b[0], b[1], b[2], b[3]}) : cat({b[3], b[2], b[1], b[0]}); if (ult(con(0x10FFFF, 32), u) || in(u, 0xD800, 0xDFFF)) return r; r.len = 4; r.cp = u; return r; }
Res specAscii(const std::vector<BV>& b) { Res r; if (b.empty() || !in(b[0], 0, 0x7F)) return r; r.len = 1; r.cp = zext(b[0], 32); return r; }
bool scalar(const BV& cp) { return !ult(con(0x10FFFF, 32), cp) && !in(cp, 0xD800, 0xDFFF); }
Res enc8(const BV& cp) { Res r; if (!scalar(cp)) return r; auto mk = [&](uint64_t top, unsigned keep, unsigned lo) { return cat({slice(cp, lo, keep), slice(con(top, 8), keep, 8 - keep)}); };
  if (in(cp, 0, 0x7F)) r.bytes = {slice(cp, 0, 8)}; else if (in(cp, 0x80, 0x7FF)) r.bytes = {mk(0xC0, 5, 6), mk(0x80, 6, 0)}; else if (in(cp, 0x800, 0xFFFF)) r.bytes = {mk(0xE0, 4, 12), mk(0x80, 6, 6), mk(0x80, 6, 0)}; else r.bytes = {mk(0xF0, 3, 18), mk(0x80, 6, 12), mk(0x80, 6, 6), mk(0x80, 6, 0)};
  r.len = r.bytes.size(); return r; }
Res enc16(const BV& cp, bool le) { Res r; if (!scalar(cp)) return r; std::vector<BV> us; if (in(cp, 0, 0xFFFF)) us = {slice(cp, 0, 16)}; else us = {cat({slice(cp, 10, 6), slice(add(slice(cp, 16, 5), con(31, 5)), 0, 4), slice(con(0xD800, 16), 10, 6)}), cat({slice(cp, 0, 10), slice(con(0xDC00, 16), 10, 6)})};
  for (auto& u : us) for (int i = 0; i < 2; ++i) r.bytes.push_back(slice(u, 8 * (i ^ !le), 8)); r.len = r.bytes.size(); return r; }
Res enc32(const BV& cp, bool le) { Res r; if (!scalar(cp)) return r; for (int i = 0; i < 4; ++i) r.bytes.push_back(slice(cp, 8 * (le ? i : 3 - i), 8)); r.len = 4; return r; }
Res encAscii(const BV& cp) { Res r; if (in(cp, 0, 0x7F)) { r.bytes = {slice(cp, 0, 8)}; r.len = 1; } return r; }
string casetext(Machine& m, const std::vector<std::pair<string, BV>>& v) { string s; for (auto& [n, b] : v) s += (s.empty() ? "" : ", ") + n + " = " + show(b); return s; }
struct Codec { string cls; std::function<Res(const std::vector<BV>&)> dec; std::function<Res(const BV&)> enc; };
const char* UNDECIDED = "not decided";
// one obligation: evaluate 'leaf' on a partition of the inputs; leaf returns what is wrong
void decide(Machine& m, const std::function<string(Machine&)>& leaf, size_t& leaves, string& bad, bool& open) {
  Stuck w{"", nullptr}; if (!bad.empty()) return; string b; bool ok = partition(m, [&](Machine& m) { if (b.empty()) b = leaf(m); }, leaves, w); if (!b.empty()) bad = b; else if (!ok && w.wrong) bad = w.why + (w.at ? " at " + where(w.at) : string()); else if (!ok) { open = true; if (getenv("LGSA_DBG")) fprintf(stderr, "undecided: %s %s\n", w.why.c_str(), w.at ? (where(w.at) + " in " + fnName(w.at->getFunction())).c_str() : ""); } }
void conclude(const string& rule, const string& key, const Function* F, const string& bad, bool open) { if (open && bad.empty()) { R.count("not decided (a construct the interpretation does not know)", 1); R.notes.push_back(UNDECIDED + string(": ") + key + ": " + rule); return; } R.ob(bad.empty(), rule, key, F ? whereF(F) : string(), bad); R.count("decided", 1); }
uint64_t conc(const Val& r) { uint64_t n; if (r.k != Val::I) throw Stuck{"the result is not understood", nullptr}; if (!isCon(r.b, n)) { for (auto& x : r.b) if (x.isVar()) throw Split{x.v}; } return n; }

// kind: 0 = (this, beg, end, cp&) or (beg, end, cp&): length 0 unless well-formed; 1 = (this, buf, cp&): the encoder's own inverse, on well-formed input; 2 = (cp&, beg, end&): pattern text, ill-formed gives -1 and at least one byte of the input
void decodeFn(Function& F, const Codec& C, int kind, bool self, size_t& leaves, const string& rule) {
  Module& M = *F.getParent(); string bad; bool open = false;
  for (int n = kind == 1 ? 4 : 0; n <= (kind == 1 ? 4 : 5) && bad.empty(); ++n) { Machine m(M);
    decide(m, [&](Machine& m) -> string {
      int buf = m.newBase("the input"), out = m.newBase("the result"), obj = m.newBase("the codec"), ep = m.newBase("the end"); std::vector<BV> b; for (int i = 0; i < n; ++i) b.push_back(m.var("byte " + std::to_string(i), 8));
      m.init = [&, buf](Machine& m, int base, int64_t off, Machine::Cell& c) { if (base == buf && off >= 0 && off < n) { c.b = b[off]; return true; } return false; };
      std::vector<Val> as; if (self) as.push_back(ptr(obj, 0)); if (kind == 2) as.push_back(ptr(out, 0)); as.push_back(ptr(buf, 0)); if (kind == 0) as.push_back(ptr(buf, n)); if (kind == 2) { m.store(ep, 0, ptr(buf, n), 8); as.push_back(ptr(ep, 0)); } if (kind != 2) as.push_back(ptr(out, 0));
      Res s = C.dec(b); if (kind == 1 && !s.len) return ""; uint64_t len = conc(m.run(F, as));
      std::vector<std::pair<string, BV>> w; for (int i = 0; i < n; ++i) w.push_back({"byte " + std::to_string(i), b[i]}); string cs = "for " + std::to_string(n) + " bytes" + (n ? " (" + casetext(m, w) + ")" : string());
      for (auto& [bs, off] : m.wrote) if (bs == buf) return "it writes to its input";
      if (kind == 2 && !s.len) { if (n && (len < 1 || len > (uint64_t)n)) return cs + " it consumes " + std::to_string(len) + " bytes of ill-formed text"; if (!n && len) return "it consumes bytes of an empty text"; if (!m.written(out, 0)) return cs + " the code point is not set"; BV cp = m.bytesAt(out, 0, 4); if (!(cp == con(0xFFFFFFFF, 32))) return cs + " ill-formed text yields " + show(cp) + ", not an error"; return ""; }
      if (len != s.len) return cs + " it reports a sequence of " + std::to_string(len) + " bytes; the standard says " + std::to_string(s.len);
      if (len) { if (!m.written(out, 0)) return cs + " the code point is not set"; BV cp = m.bytesAt(out, 0, 4); if (!(cp == s.cp)) return cs + " it yields code point " + show(cp) + ", not " + show(s.cp); } return ""; }, leaves, bad, open); }
  conclude(rule, C.cls + " " + fnName(&F), &F, bad, open); }

uint64_t encodeFn(Function& F, const Codec& C, bool self, bool ref, size_t& leaves, const string& rule, bool lengthOnly = false, uint64_t limit = 0) {
  // args: [this,] cp, buf (or a reference to the pointer)
  Module& M = *F.getParent(); string bad; bool open = false; uint64_t most = 0; Machine m(M);
  decide(m, [&](Machine& m) -> string { int buf = m.newBase("the output"), obj = m.newBase("the codec"), rp = m.newBase("the pointer"); BV cp = m.var("code point", 32); m.init = nullptr; m.sym.insert(obj);
    std::vector<Val> as; if (self) as.push_back(ptr(obj, 0)); as.push_back(val(cp)); if (ref) { m.store(rp, 0, ptr(buf, 0), 8); as.push_back(ptr(rp, 0)); } else as.push_back(ptr(buf, 0));
    Res s; if (!lengthOnly) s = C.enc(cp); uint64_t len = conc(m.run(F, as)); string cs = "for code point " + show(cp);
    for (auto& [bs, off] : m.wrote) if (bs == buf) { if (off < 0) return cs + " it writes before the buffer"; most = std::max<uint64_t>(most, off + 1); if (lengthOnly && off >= (int64_t)limit) return cs + " it writes " + std::to_string(off + 1) + " bytes but announces at most " + std::to_string(limit); if (off >= (int64_t)len) return cs + " it writes more than it reports"; }
    for (size_t i = 0; i < len; ++i) if (!m.written(buf, i)) return cs + " it reports " + std::to_string(len) + " bytes, but byte " + std::to_string(i) + " is not written";
    if (lengthOnly) { if (len > limit) return cs + " it reports " + std::to_string(len) + " bytes but announces at most " + std::to_string(limit); return ""; }
    if (len != s.len) return cs + " it reports " + std::to_string(len) + " bytes; the standard says " + std::to_string(s.len);
    for (size_t i = 0; i < len; ++i) { BV x = m.bytesAt(buf, i, 1); if (!(x == s.bytes[i])) return cs + " byte " + std::to_string(i) + " is " + show(x) + ", not " + show(s.bytes[i]); } return ""; }, leaves, bad, open);
  conclude(rule, C.cls + " " + fnName(&F), &F, bad, open); return most; }

// ---- the environment of the objects: virtual calls by method name, and a queue
string lastOf(const string& n) { size_t d = 0; for (size_t i = n.size(); i-- > 1;) { if (n[i] == '>') ++d; else if (n[i] == '<') --d; else if (!d && n[i] == ':' && n[i - 1] == ':') return n.substr(i + 1); } return n; }
string vname(CHA& cha, const CallBase* CB) { int64_t slot; if (!CHA::vcall(CB, &slot)) return ""; std::set<string> all, ours; for (auto* t : cha.vtargets(CB, slot)) { string f = fnName(t), n = lastOf(f); if (n == "__cxa_pure_virtual") continue; all.insert(n); if (f.find("ncoder::") != string::npos || f.find("ecoder::") != string::npos || f.find("ecoder<") != string::npos || f.find("ecoderBase::") != string::npos) ours.insert(n); } auto& s = ours.empty() ? all : ours; return s.size() == 1 ? *s.begin() : ""; }
struct Elem { BV v; int64_t p; };
Val pairVal(const Elem& e, int inp) { Val r; r.k = Val::S; r.s = {val(e.v), ptr(inp, e.p)}; return r; }
bool readPair(Machine& m, const Val& r, BV& v, Val& p) { if (r.k != Val::S || r.s.size() != 2 || r.s[0].k != Val::I || r.s[1].k != Val::P) return false; v = r.s[0].b; p = r.s[1]; return true; }
// the elements a decoder reads come from Trans->next(); its queue, if it has one, is a std::deque
struct Env { CHA& cha; int inp = -1; std::vector<Elem> stream; size_t taken = 0; std::vector<Val> q; const Function* decode = nullptr; bool queueUsed = false;
  bool hook(Machine& m, const CallBase* CB, std::vector<Val>& as, Val& r, int obj) {
    auto* f = CB->getCalledFunction();
    if (!f) { string n = vname(cha, CB); if (as.empty() || as[0].k != Val::P) return false; if (n == "next" && as[0].base != obj) { if (taken >= stream.size()) throw Stuck{"more input is read than it needs", CB}; r = pairVal(stream[taken++], inp); return true; } if (n == "decode" && as[0].base == obj && decode) { r = m.run(const_cast<Function&>(*decode), as, 5); return true; } return false; }
    string fn = fnName(f); if (fn.find("std::deque<") != 0 && fn.find("std::queue<") != 0) return false; string n = lastOf(fn); if (as.empty() || as[0].k != Val::P || as[0].base != obj) return false; queueUsed = true;
    auto at = [&](uint64_t i) { if (i >= q.size()) throw Stuck{"an element that is not in the queue is accessed", CB, true}; return q[i]; };
    auto put = [&](const Val& e) { int b = m.newBase("a queue element"); m.store(b, 0, e.s[0], 4); m.store(b, 8, e.s[1], 8); q.push_back(ptr(b, 0)); };
    if (n == "size") { r = val(con(q.size(), 64)); return true; } if (n == "empty") { r = val(con(q.empty(), 1)); return true; }
    if (n == "push_back" || n == "emplace_back<std::pair<int, unsigned char const*>>" || n == "push") { if (as.size() != 2 || as[1].k != Val::P) return false; Val e; e.k = Val::S; e.s = {m.load(as[1].base, as[1].off, Type::getInt32Ty(m.M.getContext()), CB), m.load(as[1].base, as[1].off + 8, PointerType::get(m.M.getContext(), 0), CB)}; put(e); r = q.back(); return true; }
    if (n == "front") { r = at(0); return true; } if (n == "back") { r = at(q.size() - 1); return true; } if (n == "operator[]" || n == "at") { r = at(conc(as[1])); return true; }
    if (n == "pop_front" || n == "pop") { at(0); q.erase(q.begin()); return true; } if (n == "clear") { q.clear(); return true; } return false; }
  void prefill(Machine& m, size_t k) { q.clear(); taken = k; for (size_t i = 0; i < k; ++i) { int b = m.newBase("a queue element"); m.store(b, 0, val(stream[i].v), 4); m.store(b, 8, ptr(inp, stream[i].p), 8); q.push_back(ptr(b, 0)); } } };

// next() of a decoder that assembles code points: what it returns and what it leaves for the next call
void nextFn(Function& F, const string& cls, const std::function<Res(const std::vector<BV>&)>& dec, const Function* decode, CHA& cha, size_t& leaves, const string& rule, bool queue) {
  string bad; bool open = false;
  for (size_t k : queue ? std::vector<size_t>{0, 1, 3, 4} : std::vector<size_t>{0}) { if (bad.size()) break; Machine m(*F.getParent()); Env E{cha}; E.decode = decode;
    decide(m, [&](Machine& m) -> string { E.inp = m.newBase("the input"); int obj = m.newBase("the decoder"); m.sym.insert(obj); E.stream.clear(); for (int i = 0; i < 4; ++i) E.stream.push_back({m.var("element " + std::to_string(i), 32), i}); E.prefill(m, k);
      m.init = nullptr; m.hook = [&](Machine& m, const CallBase* CB, std::vector<Val>& as, Val& r) { return E.hook(m, CB, as, r, obj); };
      Val r = m.run(F, {ptr(obj, 0)}); BV v; Val p; if (!readPair(m, r, v, p)) throw Stuck{"the result is not understood", nullptr};
      std::vector<BV> bytes; auto& S = E.stream; for (auto& e : S) { if (!in(e.v, 0, 0xFF)) break; bytes.push_back(slice(e.v, 0, 8)); if (!queue) break; }
      BV want; size_t used = 1; if (bytes.empty()) { if (queue || slt(S[0].v, con(0, 32))) want = S[0].v; else want = inv(S[0].v); } else { Res s = dec(bytes); if (s.len) { want = s.cp; used = s.len; } else want = inv(S[0].v); }
      std::vector<std::pair<string, BV>> w; for (size_t i = 0; i < (queue ? 4 : 1); ++i) w.push_back({"element " + std::to_string(i), S[i].v}); string cs = "for " + casetext(m, w);
      if (v != want) { for (size_t i = v.size(); i-- > 0;) if (!(v[i] == want[i])) { if (v[i].isVar()) throw Split{v[i].v}; if (want[i].isVar()) throw Split{want[i].v}; } return cs + " it yields " + show(v) + ", not " + show(want); }
      if (p.base != E.inp || p.off != 0) return cs + " the position it yields is not that of the first byte";
      if (E.q.size() + used != E.taken) return cs + " it drops " + std::to_string((int64_t)E.taken - (int64_t)E.q.size()) + " bytes of its input, not " + std::to_string(used);
      for (size_t i = 0; i < E.q.size(); ++i) { auto a = m.bytesAt(E.q[i].base, E.q[i].off, 4); Val pp = m.load(E.q[i].base, E.q[i].off + 8, PointerType::get(m.M.getContext(), 0)); if (!(a == S[used + i].v) || pp.base != E.inp || pp.off != S[used + i].p) return cs + " what it keeps for the next call is not what follows"; }
      return ""; }, leaves, bad, open); }
  conclude(rule, cls + " " + fnName(&F), &F, bad, open); }

Function* method(Module& M, const string& cls, const string& name, std::function<bool(Function&)> ok) { for (auto& F : M) if (!F.isDeclaration() && fnName(&F) == cls + "::" + name && ok(F)) return &F; return nullptr; }
std::vector<Codec> codecs() { std::vector<Codec> v; v.push_back({"UTF8", spec8, enc8}); v.push_back({"ASCII", specAscii, encAscii}); for (bool le : {true, false}) { v.push_back({string("UTF16Base<") + (le ? "true>" : "false>"), [le](const std::vector<BV>& b) { return spec16(b, le); }, [le](const BV& c) { return enc16(c, le); }}); v.push_back({string("UTF32Base<") + (le ? "true>" : "false>"), [le](const std::vector<BV>& b) { return spec32(b, le); }, [le](const BV& c) { return enc32(c, le); }}); } return v; }
bool isEnc(Function& F) { return F.arg_size() == 3 && F.getArg(1)->getType()->isIntegerTy(32) && F.getArg(2)->getType()->isPointerTy(); }
bool isRev(Function& F) { return F.arg_size() == 3 && F.getArg(2)->getType()->isPointerTy() && F.getArg(1)->getType()->isPointerTy() && F.getReturnType()->isIntegerTy(); }
void prepare(Module& M) { for (auto& F : M) if (!F.isDeclaration()) { string n = fnName(&F); if (inRepo(&F) && (n.find("UTF") != string::npos || n.find("ASCII") != string::npos || n.find("utf") != string::npos || n.find("coder") != string::npos)) simplify(F, false); } }

int runD01(const std::map<string, string>& args) {
  LLVMContext Cx; auto M = loadModule(Cx, args.at("--bc")); CHA cha(*M); size_t leaves = 0; prepare(*M);
  const string D = "a decoder accepts exactly the well-formed sequences and yields their code points", E = "an encoder writes exactly the well-formed sequence of a code point", I = "an encoder reads back every well-formed sequence", N = "a decoder reports what is not well-formed as one bad byte, keeps its place, and always advances", T = "pattern text is decoded exactly, and never read past its end";
  for (auto& C : codecs()) { auto* e = method(*M, C.cls, "write", isEnc); if (e) { encodeFn(*e, C, true, false, leaves, E); R.count("encoders", 1); } else R.ob(false, E, C.cls, "", "its function that writes a code point is not found");
    Function* d = method(*M, C.cls, "write", isRev); if (d) { decodeFn(*d, C, 1, true, leaves, I); R.count("decoders", 1); } else R.ob(false, I, C.cls, "", "its function that reads a code point is not found");
    string base = C.cls.substr(0, C.cls.find("Base")), dc = C.cls.find('<') != string::npos ? base + "Decoder" + C.cls.substr(C.cls.find('<')) : C.cls + "Decoder";
    Function* f = nullptr; if (C.cls != "ASCII") { f = method(*M, dc, "decode", [](Function& F) { return F.arg_size() == 4; }); if (f) { decodeFn(*f, {dc, C.dec, C.enc}, 0, true, leaves, D); R.count("decoders", 1); } else R.ob(false, D, dc, "", "its function that decodes is not found"); }
    Function* n = method(*M, dc, "next", [](Function& F) { return F.arg_size() == 1; }); if (!n && f) n = method(*M, "UTFDecoderBase", "next", [](Function& F) { return F.arg_size() == 1; });
    if (n) { nextFn(*n, dc, C.dec, f, cha, leaves, N, f != nullptr); R.count("decoders", 1); } else R.ob(false, N, dc, "", "its function that yields the next code point is not found"); }
  auto cs = codecs(); for (auto& F : *M) if (!F.isDeclaration() && inRepo(&F)) { string n = fnName(&F); auto has = [&](const char* s) { return n.rfind(string(s) + "<", 0) == 0 || n.find(string(" ") + s + "<") != string::npos; };
    if (has("cp_to_utf8") && F.arg_size() == 2) { encodeFn(F, {"UTF-8", cs[0].dec, cs[0].enc}, false, true, leaves, E); R.count("encoders", 1); }
    if (has("utf8_to_unicode") && F.arg_size() == 3) { decodeFn(F, {"UTF-8", cs[0].dec, cs[0].enc}, 2, false, leaves, T); R.count("decoders", 1); } }
  R.count("cases of the partition", leaves); return 0; }
Reg r1("D01", runD01);
// ---- D03 and D04: what decorates an encoder or a decoder
// the member which a constructor sets from its integer argument
bool keyOf(Module& M, const string& cls, int64_t& off, unsigned& w) { bool found = false; for (auto& F : M) { if (F.isDeclaration() || fnName(&F) != cls + "::" + cls || F.arg_size() < 2 || !F.getArg(1)->getType()->isIntegerTy()) continue; simplify(F, false);
    for (auto& I : instructions(F)) if (auto* S = dyn_cast<StoreInst>(&I)) { const Value* v = S->getValueOperand(); for (;;) { if (auto* C = dyn_cast<CastInst>(v)) { v = C->getOperand(0); continue; } auto* L = dyn_cast<LoadInst>(v); auto* A = L ? dyn_cast<AllocaInst>(L->getPointerOperand()) : nullptr; const Value* in = nullptr; if (A) for (auto* u : A->users()) if (auto* T = dyn_cast<StoreInst>(u)) if (T->getPointerOperand() == A) in = T->getValueOperand(); if (!in) break; v = in; } if (v != F.getArg(1)) continue; APInt o(64, 0); const Value* p = S->getPointerOperand()->stripAndAccumulateConstantOffsets(M.getDataLayout(), o, true); if (p == F.getArg(0)) { off = o.getSExtValue(); w = S->getValueOperand()->getType()->getIntegerBitWidth(); found = true; } } } return found; }
struct Obj { int base = -1; int64_t key = -1; unsigned w = 0; };
// objects: unknown pointer members, and the key
void objects(Machine& m, const std::vector<Obj>& os, const BV& key, const std::function<bool(int, int64_t, Machine::Cell&)>& more) { for (auto& o : os) m.sym.insert(o.base); m.init = [os, key, more](Machine&, int base, int64_t off, Machine::Cell& c) { for (auto& o : os) if (o.base == base && o.key >= 0 && off >= o.key && off < o.key + o.w / 8) { c.b = slice(zext(key, o.w), 8 * (off - o.key), 8); return true; } return more && more(base, off, c); }; }
bool same(const BV& a, const BV& b) { if (a == b) return true; if (a.size() != b.size()) return false; for (size_t i = a.size(); i-- > 0;) if (!(a[i] == b[i])) { if (a[i].isVar()) throw Split{a[i].v}; if (b[i].isVar()) throw Split{b[i].v}; } return false; }

int runD03(const std::map<string, string>& args) {
  LLVMContext Cx; auto M = loadModule(Cx, args.at("--bc")); CHA cha(*M); size_t leaves = 0; prepare(*M);
  const string Bt = "decoding undoes the byte transform of every byte", Bu = "the byte transform's own inverse undoes it", Er = "a transforming decoder passes errors on and never takes a non-byte for a byte", Ct = "decoding undoes the character transform of every character", Cu = "the character transform's own inverse undoes it";
  for (auto& F : *M) { if (F.isDeclaration() || !inRepo(&F)) continue; string n = fnName(&F), ln = lastOf(n); bool byteT = ln == "byteTransform", charT = ln == "charTransform"; if (!byteT && !charT) continue; string ec = n.substr(0, n.size() - ln.size() - 2), stem = ec.size() > 7 && ec.substr(ec.size() - 7) == "Encoder" ? ec.substr(0, ec.size() - 7) : ec, dc = stem + "Decoder";
    Function* inverse = nullptr; for (auto& G : *M) if (!G.isDeclaration() && fnName(&G) == ec + (byteT ? "::byteUntransform" : "::charUntransform")) inverse = &G; Function* next = method(*M, dc, "next", [](Function& F) { return F.arg_size() == 1; });
    R.count("transforms", 1); if (!next) { R.ob(false, byteT ? Bt : Ct, ec, whereF(&F), "there is no " + dc + " which undoes it"); continue; } if (!inverse) { R.ob(false, byteT ? Bu : Cu, ec, whereF(&F), "it has no inverse"); continue; }
    Obj eo, d; bool ek = keyOf(*M, ec, eo.key, eo.w), dk = keyOf(*M, dc, d.key, d.w); if (ek != dk) { R.ob(false, byteT ? Bt : Ct, ec, whereF(&F), "only one of " + ec + " and " + dc + " has a key"); continue; }
    auto setup = [&](Machine& m, const BV& key, Env& E, int& buf) { eo.base = m.newBase("the encoder"); d.base = m.newBase("the decoder"); E.inp = m.newBase("the input"); buf = m.newBase("the bytes"); E.stream.clear(); E.taken = 0; objects(m, {eo, d}, key, nullptr); int ob = d.base; int eb = eo.base; m.hook = [&M, &cha, ec, eb, &E, ob](Machine& m, const CallBase* CB, std::vector<Val>& as, Val& r) { if (!CB->getCalledFunction() && !as.empty() && as[0].k == Val::P && as[0].base == eb) { string n = vname(cha, CB); if (n.size()) for (auto& G : *M) if (!G.isDeclaration() && fnName(&G) == ec + "::" + n && G.arg_size() == as.size()) { r = m.run(G, as, 5); return true; } } return E.hook(m, CB, as, r, ob); }; };
    auto decoded = [&](Machine& m, Env& E, const BV& v, BV& out) { E.stream.push_back({v, (int64_t)E.stream.size()}); Val r = m.run(*next, {ptr(d.base, 0)}); Val p; if (!readPair(m, r, out, p)) throw Stuck{"the result is not understood", nullptr}; return p.base == E.inp && p.off == (int64_t)E.stream.size() - 1; };
    if (byteT) { string bt, bu, er; bool ot = false, ou = false, oe = false; Machine m(*M); Env E{cha}; int buf;
      for (unsigned len : {0u, 1u, 2u, 4u}) for (unsigned pos = 0; pos < std::max(len, 1u); ++pos) { auto fill = [&](Machine& m, std::vector<BV>& b) { for (unsigned i = 0; i < 4; ++i) { b.push_back(i == pos ? m.var("byte", 8) : con(0x41 + i, 8)); m.store(buf, i, val(b[i]), 1); } };
          auto keyv = [&](Machine& m) { return ek ? m.var("key", eo.w) : BV(); };
          decide(m, [&](Machine& m) -> string { BV key = keyv(m); setup(m, key, E, buf); std::vector<BV> b; fill(m, b); m.run(F, {ptr(eo.base, 0), ptr(buf, 0), val(con(len, 32))}); string cs = "for byte " + show(b[pos]) + (ek ? " and key " + show(key) : string()) + " at " + std::to_string(pos) + " of " + std::to_string(len) + ": ";
            for (unsigned i = 0; i < 4; ++i) { BV t = m.bytesAt(buf, i, 1), out; if (i >= len) { if (!same(t, b[i])) return cs + "a byte beyond the length is changed"; continue; } if (!decoded(m, E, zext(t, 32), out)) return cs + "the decoder yields the wrong position"; if (!same(out, zext(b[i], 32))) return cs + "byte " + show(b[i]) + " is transformed to " + show(t) + ", which decodes to " + show(out); } return ""; }, leaves, bt, ot);
          decide(m, [&](Machine& m) -> string { BV key = keyv(m); setup(m, key, E, buf); std::vector<BV> b; fill(m, b); m.run(F, {ptr(eo.base, 0), ptr(buf, 0), val(con(len, 32))}); m.run(*inverse, {ptr(eo.base, 0), ptr(buf, 0), val(con(len, 32))}); for (unsigned i = 0; i < 4; ++i) { BV t = m.bytesAt(buf, i, 1); if (!same(t, b[i])) return "byte " + show(b[i]) + " comes back as " + show(t); } return ""; }, leaves, bu, ou); }
      decide(m, [&](Machine& m) -> string { BV key = ek ? m.var("key", eo.w) : BV(); setup(m, key, E, buf); BV v = m.var("element", 32), out; if (in(v, 0, 0xFF)) return ""; if (!decoded(m, E, v, out)) return "the decoder yields the wrong position"; BV want = slt(v, con(0, 32)) ? v : inv(v); if (!same(out, want)) return "element " + show(v) + " becomes " + show(out) + ", not " + show(want); return ""; }, leaves, er, oe);
      conclude(Bt, ec, &F, bt, ot); conclude(Bu, ec, inverse, bu, ou); conclude(Er, dc, next, er, oe); }
    else { string ct, cu; bool ot = false, ou = false; for (uint64_t k = 0; k < (ek ? 26 : 1); ++k) { Machine m(*M); Env E{cha}; int buf; BV key = con(k, ek ? eo.w : 1); string ks = ek ? " (key " + std::to_string(k) + ")" : string();
        decide(m, [&](Machine& m) -> string { setup(m, key, E, buf); BV cp = m.var("code point", 32), out; Val t = m.run(F, {ptr(eo.base, 0), val(cp)}); if (t.k != Val::I) throw Stuck{"the result is not understood", nullptr}; if (!decoded(m, E, t.b, out)) return "the decoder yields the wrong position"; if (!same(out, cp)) return "code point " + show(cp) + " is transformed to " + show(t.b) + ", which decodes to " + show(out) + ks; return ""; }, leaves, ct, ot);
        decide(m, [&](Machine& m) -> string { setup(m, key, E, buf); BV cp = m.var("code point", 32); Val t = m.run(F, {ptr(eo.base, 0), val(cp)}); Val u = m.run(*inverse, {ptr(eo.base, 0), t}); if (u.k != Val::I) throw Stuck{"the result is not understood", nullptr}; if (!same(u.b, cp)) return "code point " + show(cp) + " comes back as " + show(u.b) + ks; return ""; }, leaves, cu, ou); }
      conclude(Ct, ec, &F, ct, ot); conclude(Cu, ec, inverse, cu, ou); } }
  R.count("cases of the partition", leaves); return 0; }
Reg r3("D03", runD03);

// every encoder: what write() does with the buffer, against maxByteLength()
int runD04(const std::map<string, string>& args) {
  LLVMContext Cx; auto M = loadModule(Cx, args.at("--bc")); CHA cha(*M); size_t leaves = 0; prepare(*M);
  const string L = "an encoder writes at most what it announces, and exactly what it reports", Dg = "an encoder which wraps another announces and reports what that one does, and writes nothing beyond it", Rv = "an encoder which wraps another hands it the bytes to read back";
  std::set<string> direct; 
  for (auto& F : *M) { if (F.isDeclaration() || !inRepo(&F)) continue; string n = fnName(&F); if (lastOf(n) != "write" || !isEnc(F) || !F.getReturnType()->isIntegerTy(32)) continue; string cls = n.substr(0, n.size() - 7); 
    // does it call another encoder?
    bool wraps = false; simplify(F, false); for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (vname(cha, CB) == "write") wraps = true; if (getenv("LGSA_DBG")) fprintf(stderr, "encoder %s wraps %d\n", cls.c_str(), wraps);
    Function* mx = nullptr; for (auto& G : *M) if (!G.isDeclaration() && fnName(&G) == cls + "::maxByteLength") mx = &G;
    if (!wraps) { if (!mx) { R.notes.push_back(cls + " does not announce a length itself"); continue; } uint64_t lim = 0; string b; bool o = false; Machine m(*M); decide(m, [&](Machine& m) -> string { int ob = m.newBase("the encoder"); m.sym.insert(ob); lim = conc(m.run(*mx, {ptr(ob, 0)})); return ""; }, leaves, b, o); if (o || b.size()) { R.notes.push_back(cls + ": what it announces is not a constant"); continue; } direct.insert(cls); R.count("encoders that write themselves", 1); encodeFn(F, {cls, nullptr, nullptr}, true, false, leaves, L, true, lim); continue; }
    R.count("encoders that wrap another", 1); string bad; bool open = false; Machine m(*M); bool isByte = false, isChar = false;
    for (unsigned max : {1u, 4u, 7u}) for (unsigned len = 0; len <= max; ++len) decide(m, [&](Machine& m) -> string { int ob = m.newBase("the encoder"), buf = m.newBase("the buffer"); m.sym.insert(ob); m.init = nullptr; BV cp = m.var("code point", 32); uint64_t wrote = 0, trans = 0; bool called = false, ct = false; string err;
        m.hook = [&](Machine& m, const CallBase* CB, std::vector<Val>& as, Val& r) { if (CB->getCalledFunction()) return false; string n = vname(cha, CB); if (as.empty() || as[0].k != Val::P) return false; bool self = as[0].base == ob;
          if (n == "maxByteLength") { r = val(con(max, 32)); return true; } if (n == "charTransform" && self) { ct = isChar = true; r = val(inv(as[1].b)); return true; }
          if (n == "byteTransform" && self) { isByte = true; uint64_t l = conc(as[2]); if (as[1].k != Val::P || as[1].base != buf || as[1].off != 0) { err = "its transform is applied to something else than the buffer"; return true; } trans = l; for (uint64_t i = 0; i < l; ++i) { if (!m.written(buf, i)) { err = "its transform is applied to bytes which were not written"; return true; } m.store(buf, i, val(inv(m.bytesAt(buf, i, 1))), 1); } return true; }
          if (n == "write" && !self && as.size() == 3 && as[1].k == Val::I && as[2].k == Val::P) { called = true; if (!same(as[1].b, ct ? inv(cp) : cp)) err = "it has another code point encoded"; if (as[2].base != buf || as[2].off != 0) { if (as[2].base == buf) err = "the wrapped encoder is given another place in the buffer"; else throw Stuck{"the wrapped encoder writes elsewhere", CB}; } for (unsigned i = 0; i < len; ++i) m.store(buf, i, val(m.var("byte " + std::to_string(i), 8)), 1); wrote = len; r = val(con(len, 32)); return true; } return false; };
        uint64_t ret = conc(m.run(F, {ptr(ob, 0), val(cp), ptr(buf, 0)})); if (err.size()) return err; if (!called) return "it does not use the encoder it wraps"; if (ret != wrote) return "the wrapped encoder writes " + std::to_string(wrote) + " bytes, but it reports " + std::to_string(ret); if (isByte && trans != wrote) return "its transform is applied to " + std::to_string(trans) + " of " + std::to_string(wrote) + " bytes";
        for (auto& [b, off] : m.wrote) if (b == buf && (off < 0 || off >= (int64_t)wrote)) return "it writes beyond what the wrapped encoder wrote"; 
        for (unsigned i = 0; i < len; ++i) { BV want = m.var("byte " + std::to_string(i), 8); if (isByte) want = inv(want); if (!same(m.bytesAt(buf, i, 1), want)) return "byte " + std::to_string(i) + " is changed"; }
        return ""; }, leaves, bad, open);
    conclude(Dg, cls + "::write", &F, bad, open);
    if (Function* rv = method(*M, cls, "write", isRev)) { simplify(*rv, false); string b3; bool o3 = false; for (unsigned max : {1u, 4u}) decide(m, [&](Machine& m) -> string { int ob = m.newBase("the encoder"), buf = m.newBase("the bytes"), out = m.newBase("the result"); m.sym.insert(ob); std::vector<BV> b; for (unsigned i = 0; i < max; ++i) b.push_back(m.var("byte " + std::to_string(i), 8)); m.init = [&](Machine&, int base, int64_t off, Machine::Cell& c) { if (base == buf && off >= 0 && off < max) { c.b = b[off]; return true; } return false; }; BV cp = m.var("code point", 32); bool called = false, bt = false, ct = false; string err;
        m.hook = [&](Machine& m, const CallBase* CB, std::vector<Val>& as, Val& r) { if (auto* f = CB->getCalledFunction()) { if (f->isDeclaration() && (f->getName() == "memmove" || f->getName() == "memcpy") && as.size() == 3) { uint64_t n = conc(as[2]); for (uint64_t i = 0; i < n; ++i) m.store(as[0].base, as[0].off + i, val(m.load(as[1].base, as[1].off + i, Type::getInt8Ty(m.M.getContext()), CB).b), 1); r = as[0]; return true; } return false; } string n = vname(cha, CB); if (as.empty() || as[0].k != Val::P) return false; bool self = as[0].base == ob;
          if (n == "maxByteLength") { r = val(con(max, 32)); return true; } if (n == "charUntransform" && self) { ct = true; r = val(inv(as[1].b)); return true; }
          if (n == "byteUntransform" && self) { bt = true; uint64_t l = conc(as[2]); for (uint64_t i = 0; i < l; ++i) m.store(as[1].base, as[1].off + i, val(inv(m.load(as[1].base, as[1].off + i, Type::getInt8Ty(m.M.getContext()), CB).b)), 1); return true; }
          if (n == "write" && !self && as.size() == 3 && as[1].k == Val::P && as[2].k == Val::P) { called = true; for (unsigned i = 0; i < max && err.empty(); ++i) { BV x = m.load(as[1].base, as[1].off + i, Type::getInt8Ty(m.M.getContext()), CB).b, want = bt ? inv(b[i]) : b[i]; if (!same(x, want)) err = "the wrapped encoder reads other bytes than it was given"; } m.store(as[2].base, as[2].off, val(cp), 4); r = val(con(max, 32)); return true; } return false; };
        uint64_t ret = conc(m.run(*rv, {ptr(ob, 0), ptr(buf, 0), ptr(out, 0)})); if (err.size()) return err; if (!called) return "it does not use the encoder it wraps"; if (ret != max) return "it reports another length than the wrapped encoder"; if ((isByte && !bt) || (isChar && !ct)) return "its transform is not undone"; if (!m.written(out, 0) || !same(m.bytesAt(out, 0, 4), ct ? inv(cp) : cp)) return "it yields another code point than the wrapped encoder read"; for (auto& [bs, off] : m.wrote) if (bs == buf) return "it writes to its input"; return ""; }, leaves, b3, o3); conclude(Rv, cls + "::write", rv, b3, o3); }
    // what it announces: its own, its base class's, or the wrapped one's
    string b2; bool o2 = false; if (mx) { decide(m, [&](Machine& m) -> string { int ob = m.newBase("the encoder"); m.sym.insert(ob); m.init = nullptr; bool ok = false; BV len = m.var("length", 32); m.hook = [&](Machine&, const CallBase* CB, std::vector<Val>& as, Val& r) { if (CB->getCalledFunction()) return false; if (vname(cha, CB) == "maxByteLength" && !as.empty() && as[0].base != ob) { ok = true; r = val(len); return true; } return false; }; Val r = m.run(*mx, {ptr(ob, 0)}); if (r.k != Val::I) throw Stuck{"the result is not understood", nullptr}; if (!ok) throw Stuck{"it announces a length of its own", nullptr}; if (ult(r.b, len)) return "it announces fewer bytes than the encoder it wraps"; return ""; }, leaves, b2, o2); conclude(Dg, cls + "::maxByteLength", mx, b2, o2); } }
  // subclasses which announce for a wrapping base class
  for (auto& F : *M) { if (F.isDeclaration() || !inRepo(&F) || F.arg_size() != 1) continue; string n = fnName(&F); if (lastOf(n) != "maxByteLength") continue; string cls = n.substr(0, n.size() - 15); if (cls.find("ncoder") == string::npos) continue; simplify(F, false); bool wraps = false; for (auto& I : instructions(F)) if (auto* CB = dyn_cast<CallBase>(&I)) if (vname(cha, CB) == "maxByteLength") wraps = true; bool own = false; for (auto& G : *M) if (!G.isDeclaration() && fnName(&G) == cls + "::write" && isEnc(G)) own = true; if (own || !wraps) continue;
    Machine m(*M); string b2; bool o2 = false; decide(m, [&](Machine& m) -> string { int ob = m.newBase("the encoder"); m.sym.insert(ob); m.init = nullptr; BV len = m.var("length", 32); m.hook = [&](Machine&, const CallBase* CB, std::vector<Val>& as, Val& r) { if (CB->getCalledFunction()) return false; if (vname(cha, CB) == "maxByteLength") { r = val(len); return true; } return false; }; Val r = m.run(F, {ptr(ob, 0)}); if (r.k != Val::I) throw Stuck{"the result is not understood", nullptr}; if (ult(r.b, len)) return "it announces fewer bytes than the encoder it wraps"; return ""; }, leaves, b2, o2); conclude(Dg, cls + "::maxByteLength", &F, b2, o2); }
  R.count("cases of the partition", leaves); return 0; }
Reg r4("D04", runD04);
}
