"""Path-enumerating abstract evaluation of Java bytecode over linear integer facts (nothing is executed)."""
import copy
from classfile import decode, parse_desc
from linear import L, sym, con, infeasible, proves

RANGE = {"I": (-2**31, 2**31-1), "J": (-2**63, 2**63-1), "S": (-2**15, 2**15-1), "B": (-128, 127), "C": (0, 65535), "Z": (0, 1)}
WIDE = "JD"

class State:
    __slots__ = ("facts", "null", "heap", "memo", "typ")
    def __init__(s): s.facts, s.null, s.heap, s.memo, s.typ = [], {}, {}, {}, {}
    def copy(s):
        n = State(); n.facts, n.null, n.heap, n.memo, n.typ = list(s.facts), dict(s.null), dict(s.heap), dict(s.memo), dict(s.typ)
        return n
    def add(s, *ls):
        """assume each l <= 0; False when that is impossible"""
        for l in ls:
            if not l.c:
                if l.k > 0: return False
                continue
            s.facts.append(l)
        return True
    def feasible(s): return not infeasible(s.facts)
    def le(s, a, b): return proves(s.facts, a - b)

class TooComplex(Exception): pass

class Eval:
    def __init__(self, W, on_native, budget=20000):
        self.W, self.on_native, self.n, self.budget = W, on_native, 0, budget
        self.mutating = lambda m: True
        self.incomplete = set()
    def fresh(self, S, d, name="v"):
        self.n += 1
        if d in RANGE:
            x = sym("%s#%d" % (name, self.n)); lo, hi = RANGE[d]
            S.add(con(lo) - x, x - con(hi)); return x
        if d in ("F", "D"): return ("fp",)
        r = ("ref", "%s#%d" % (name, self.n)); S.typ[r] = d; return r
    def obj(self, S, d, name="o"):
        r = self.fresh(S, d, name); S.null[r] = False; return r
    def memo(self, S, key, d, facts=None):
        if key not in S.memo: S.memo[key] = self.fresh(S, d, "%s" % (key[0],)); facts and facts(S.memo[key])
        return S.memo[key]
    # ---- buffers: position, remaining, capacity, array offset
    def buf(self, S, r, what):
        if ("buf", r) not in S.memo:
            S.memo[("buf", r)] = True
            p, m, c, o = [self.fresh(S, "I", x) for x in ("position", "remaining", "capacity", "arrayOffset")]
            a = self.obj(S, "[B", "array"); ln = self.alen(S, a)
            S.add(-p, -m, p + m - c, -o, o + c - ln)
            for k, v in zip(("pos", "rem", "cap", "off", "arr"), (p, m, c, o, a)): S.memo[(k, r)] = v
            for k in ("isDirect", "hasArray"): S.memo[(k, r)] = self.fresh(S, "Z", k)
        return S.memo[(what, r)]
    def alen(self, S, a): return self.memo(S, ("len", a), "I", lambda x: S.add(-x))
    def havoc(self, S):
        """unknown code ran: forget the contents of every object"""
        S.heap = {}; S.memo = {k: v for k, v in S.memo.items() if k[0] in ("len", "arr", "isDirect", "hasArray")}
    def isnull(self, S, v):
        if v == ("null",): return True
        return S.null.get(v)
    def nonnull(self, S, v):
        """execution goes on only if v is not null"""
        if self.isnull(S, v) is True: return False
        if v[0] == "ref": S.null[v] = False
        return True

    # run method m with arguments; yields (state, "ret", value) or (state, "throw", None)
    def call(self, m, args, S, depth=0, stack=()):
        if m.native:
            self.on_native(self, S, m, args, stack)
            if self.mutating(m): self.havoc(S)
            ret = parse_desc(m.desc)[1]
            v = None if ret == "V" else self.memo(S, ("native", m.cls.name + "." + m.name, tuple(map(str, args))), ret)
            yield S, "ret", v; yield S.copy(), "throw", None; return
        if m.code is None or depth > 12:
            self.havoc(S); ret = parse_desc(m.desc)[1]
            yield S, "ret", None if ret == "V" else self.fresh(S, ret); yield S.copy(), "throw", None; return
        ins = decode(m.code); ps, _ = parse_desc(m.desc)
        loc, i = {}, 0
        for a, d in zip(args, ([] if m.static else ["this"]) + ps):
            loc[i] = a; i += 2 if d in WIDE else 1
        work = [(0, [], loc, S, {})]
        while work:
            pc, st, loc, S, visits = work.pop()
            while True:
                self.budget -= 1
                if self.budget < 0: raise TooComplex(m.cls.name + "." + m.name)
                op, a, nx = ins[pc]
                # joins reached by a backward jump: forget what the loop may have changed
                k = visits.get(pc, 0) + 1
                if k > 2: break
                if k == 2:
                    visits = dict(visits); visits[pc] = k
                    ch = set()
                    for p2, (o2, a2, _) in ins.items():
                        if 0x36 <= o2 <= 0x3a: ch.add(a2[0])
                        elif 0x3b <= o2 <= 0x4e: ch.add((o2 - 0x3b) % 4)
                        elif o2 == 0x84: ch.add(a2[0])
                    old = loc; loc = dict(loc)
                    for x in ch:
                        if x in loc: loc[x] = self.fresh(S, "J", "loop") if isinstance(loc[x], L) else self.fresh(S, "Ljava/lang/Object;", "loop")
                    self.havoc(S)
                else: visits = {**visits, pc: k}
                res = self.step(m, pc, op, a, nx, st, loc, S, depth, stack)
                out = []
                for r in res:
                    if r[0] == "next": out.append(r[1:])
                    elif r[0] == "ret": yield r[2], "ret", r[1]
                    elif r[0] == "throw":
                        S2 = r[1]; caught = False
                        for (s, e, h, t) in m.exc:
                            if s <= pc < e:
                                out.append((h, [self.obj(S2, "Ljava/lang/Throwable;", "exc")], dict(loc), S2.copy())); caught = True
                                if t == 0: break
                        if not caught or all(t for (s, e, h, t) in m.exc if s <= pc < e): yield S2, "throw", None
                if not out: break
                for o in out[1:]: work.append((o[0], list(o[1]), dict(o[2]), o[3], dict(visits)))
                pc, st, loc, S = out[0]
    def branch(self, S, cond, t, f):
        """cond: (op, lin) meaning lin op 0; yields (target, state)"""
        op, x = cond
        neg = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
        def assume(S, op):
            if op == "==": return [S] if S.add(x, -x) else []
            if op == "<": return [S] if S.add(x + 1) else []
            if op == "<=": return [S] if S.add(x) else []
            if op == ">": return [S] if S.add(-x + 1) else []
            if op == ">=": return [S] if S.add(-x) else []
            S2 = S.copy()
            return assume(S, "<") + assume(S2, ">")
        for o, tgt in ((op, t), (neg[op], f)):
            for s in assume(S.copy(), o):
                if s.feasible(): yield tgt, s
    def arith(self, S, x, d):
        """results of an operation whose exact value is x, in type d: [(state, value)]"""
        lo, hi = RANGE[d]
        if x.const() is not None:
            k = x.const(); n = hi - lo + 1
            return [(S, con((k - lo) % n + lo))]
        if S.le(con(lo), x) and S.le(x, con(hi)): return [(S, x)]
        out = []; n = hi - lo + 1
        for sh in (0, -n, n):
            S2 = S.copy(); y = x + sh
            S2.add(con(lo) - y, y - con(hi))
            if S2.feasible(): out.append((S2, y))
        return out
    def step(self, m, pc, op, a, nx, st, loc, S, depth, stack):
        st = list(st); c = m.cls
        def nxt(): return [("next", nx, st, loc, S)]
        def thr(): return [("throw", S)]
        I = lambda d="I": self.fresh(S, d)
        if op == 0: return nxt()
        if op == 1: st.append(("null",)); return nxt()
        if 2 <= op <= 8: st.append(con(op - 3)); return nxt()
        if op in (9, 10): st.append(con(op - 9)); return nxt()
        if 11 <= op <= 15: st.append(("fp",)); return nxt()
        if op in (0x10, 0x11): st.append(con(a[0] - 256 if op == 0x10 and a[0] > 127 else a[0])); return nxt()
        if op in (0x12, 0x13, 0x14):
            e = c.cp[a[0]]
            if e[0] in ("int", "long"): st.append(con(e[1]))
            elif e[0] in ("float", "double"): st.append(("fp",))
            else: st.append(self.obj(S, "Ljava/lang/String;" if e[0] == "string" else "Ljava/lang/Class;", "const"))
            return nxt()
        if 0x15 <= op <= 0x19: st.append(loc[a[0]]); return nxt()
        if 0x1a <= op <= 0x2d: st.append(loc[(op - 0x1a) % 4]); return nxt()
        if op == 0xc4:
            if a[0] == 0x84:
                l2 = dict(loc); res = []
                for s2, v in self.arith(S, loc[a[1]] + a[2], "I"): res.append(("next", nx, list(st), {**l2, a[1]: v}, s2))
                return res
            if 0x15 <= a[0] <= 0x19: st.append(loc[a[1]]); return nxt()
            loc = dict(loc); loc[a[1]] = st.pop(); return nxt()
        if 0x2e <= op <= 0x35:      # array load
            st.pop(); r = st.pop()
            if not self.nonnull(S, r): return thr()
            d = "IJFDLBCS"[op - 0x2e]
            st.append(("fp",) if d in "FD" else self.fresh(S, d if d in RANGE else "Ljava/lang/Object;"))
            return nxt() + [("throw", S.copy())]
        if 0x36 <= op <= 0x3a: loc = dict(loc); loc[a[0]] = st.pop(); return nxt()
        if 0x3b <= op <= 0x4e: loc = dict(loc); loc[(op - 0x3b) % 4] = st.pop(); return nxt()
        if 0x4f <= op <= 0x56: st.pop(); st.pop(); r = st.pop(); return (nxt() if self.nonnull(S, r) else []) + [("throw", S.copy())]
        if op == 0x57: st.pop(); return nxt()
        if op == 0x58:
            v = st.pop()
            p = [x for x in decode(m.code).values() if x[2] == pc]
            if not (p and 0xb6 <= p[0][0] <= 0xb9 and parse_desc(c.ref(p[0][1][0])[2])[1] in "JD"): st.pop()
            return nxt()
        if op == 0x59: st.append(st[-1]); return nxt()
        if op == 0x5a: st.insert(-2, st[-1]); return nxt()
        if op in (0x5b, 0x5c): raise TooComplex("dup2")
        if op == 0x5f: st[-1], st[-2] = st[-2], st[-1]; return nxt()
        if op in (0x5d, 0x5e): raise TooComplex("dup2_x")
        if 0x60 <= op <= 0x83:
            d = "IJFD"[op % 4]
            kind = (op - 0x60) // 4   # add sub mul div rem neg | shifts and logic
            if op >= 0x78: d = "IJ"[op % 2]
            if d in "FD":
                st.pop()
                if kind != 5: st.pop()
                st.append(("fp",)); return nxt()
            if kind == 5 and op < 0x78: x = st.pop(); vals = self.arith(S, -x, d)
            else:
                y, x = st.pop(), st.pop()
                if op < 0x68: vals = self.arith(S, x + y if op < 0x64 else x - y, d)
                elif op < 0x6c and (x.const() is not None or y.const() is not None):
                    vals = self.arith(S, x.scale(y.const()) if y.const() is not None else y.scale(x.const()), d)
                else: vals = [(S, self.fresh(S, d))]
            return [("next", nx, st + [v], loc, s2) for s2, v in vals] + ([("throw", S.copy())] if kind in (3, 4) and op < 0x78 else [])
        if op == 0x84:
            return [("next", nx, list(st), {**loc, a[0]: v}, s2) for s2, v in self.arith(S, loc[a[0]] + a[1], "I")]
        if op == 0x85: return nxt()                       # i2l
        if op == 0x88: x = st.pop(); return [("next", nx, st + [v], loc, s2) for s2, v in self.l2i(S, x)]
        if 0x86 <= op <= 0x93:
            st.pop(); d = {0x8b: "I", 0x8e: "I", 0x8c: "J", 0x8f: "J", 0x91: "B", 0x92: "C", 0x93: "S"}.get(op)
            st.append(self.fresh(S, d) if d else ("fp",)); return nxt()
        if op == 0x94:
            y, x = st.pop(), st.pop(); st.append(("cmp", x - y)); return nxt()
        if 0x95 <= op <= 0x98: st.pop(); st.pop(); st.append(self.fresh(S, "I")); return nxt()
        R6 = ["==", "!=", "<", ">=", ">", "<="]
        if 0x99 <= op <= 0x9e or 0x9f <= op <= 0xa4:
            if op <= 0x9e:
                v = st.pop(); x = v[1] if isinstance(v, tuple) else v; o = R6[op - 0x99]
            else:
                y, x = st.pop(), st.pop()
                if isinstance(x, tuple) or isinstance(y, tuple): raise TooComplex("comparison of a comparison")
                x = x - y; o = R6[op - 0x9f]
            return [("next", t, list(st), loc, s) for t, s in self.branch(S, (o, x), a[0], nx)]
        if op in (0xa5, 0xa6):
            y, x = st.pop(), st.pop()
            if ("null",) in (x, y): return self.nullbranch(S, y if x == ("null",) else x, a[0] if op == 0xa5 else nx, nx if op == 0xa5 else a[0], st, loc)
            return [("next", a[0], list(st), loc, S), ("next", nx, list(st), loc, S.copy())]
        if op in (0xc6, 0xc7):
            x = st.pop()
            return self.nullbranch(S, x, a[0] if op == 0xc6 else nx, nx if op == 0xc6 else a[0], st, loc)
        if op in (0xa7, 0xc8): return [("next", a[0], st, loc, S)]
        if op in (0xaa, 0xab):
            st.pop(); return [("next", t, list(st), loc, S.copy()) for t in {a[0], *a[1]}]
        if 0xac <= op <= 0xb0: return [("ret", st.pop(), S)]
        if op == 0xb1: return [("ret", None, S)]
        if op in (0xb2, 0xb4):
            cl, nm, ds = c.ref(a[0])
            o = ("static", cl)
            if op == 0xb4:
                o = st.pop()
                if not self.nonnull(S, o): return thr()
            f = self.W.find_field(cl, nm, ds)
            if (o, nm) not in S.heap: S.heap[(o, nm)] = self.fresh(S, ds, nm)
            st.append(S.heap[(o, nm)]); return nxt()
        if op in (0xb3, 0xb5):
            cl, nm, ds = c.ref(a[0]); v = st.pop(); o = ("static", cl)
            if op == 0xb5:
                o = st.pop()
                if not self.nonnull(S, o): return thr()
                if o[0] == "ref":       # another name may denote the same object
                    for (o2, n2) in [k for k in S.heap if k[1] == nm and k[0] != o and not self.distinct(S, o, k[0])]: del S.heap[(o2, n2)]
            S.heap[(o, nm)] = self.tolin(S, v); return nxt()
        if 0xb6 <= op <= 0xb9: return self.invoke(m, op, a, nx, st, loc, S, depth, stack, pc)
        if op == 0xba:
            _, nm, ds = c.indy(a[0])
            ps, ret = parse_desc(ds)
            for _ in ps: st.pop()
            if ret != "V": st.append(self.obj(S, ret, "indy"))
            return nxt()
        if op == 0xbb: st.append(self.obj(S, "L" + c.cls(a[0]) + ";", "new")); return nxt()
        if op in (0xbc, 0xbd):
            n = st.pop(); r = self.obj(S, "[" + ("B" if op == 0xbc and a[0] == 8 else "?"), "newarray")
            S2 = S.copy(); S.memo[("len", r)] = n
            ok = S.add(-n) and S.feasible()
            st.append(r); return (nxt() if ok else []) + [("throw", S2)]
        if op == 0xc5: raise TooComplex("multianewarray")
        if op == 0xbe:
            r = st.pop()
            if not self.nonnull(S, r): return thr()
            st.append(self.alen(S, r)); return nxt()
        if op == 0xbf: return thr()
        if op == 0xc0: return nxt() + [("throw", S.copy())]
        if op == 0xc1: st.pop(); st.append(self.fresh(S, "Z")); return nxt()
        if op in (0xc2, 0xc3): return nxt() if self.nonnull(S, st.pop()) else thr()
        raise TooComplex("opcode 0x%x" % op)
    def tolin(self, S, v): return self.fresh(S, "I") if isinstance(v, tuple) and v[0] == "cmp" else v
    def l2i(self, S, x):
        lo, hi = RANGE["I"]
        if S.le(con(lo), x) and S.le(x, con(hi)): return [(S, x)]
        S2 = S.copy(); S2.add(con(lo) - x, x - con(hi))
        out = [(S2, x)] if S2.feasible() else []
        return out + [(S, self.fresh(S, "I", "l2i"))]
    def distinct(self, S, a, b):
        return a[0] != "ref" or b[0] != "ref" or "new#" in a[1] or "new#" in b[1]
    def nullbranch(self, S, x, tnull, tnon, st, loc):
        k = self.isnull(S, x)
        out = []
        if k is not False:
            S2 = S.copy(); 
            if x[0] == "ref": S2.null[x] = True
            out.append(("next", tnull, list(st), loc, S2))
        if k is not True:
            S2 = S.copy()
            if x[0] == "ref": S2.null[x] = False
            out.append(("next", tnon, list(st), loc, S2))
        return out
    def invoke(self, m, op, a, nx, st, loc, S, depth, stack, pc):
        cl, nm, ds = m.cls.ref(a[0]); ps, ret = parse_desc(ds)
        args = [st.pop() for _ in ps][::-1]
        args = [self.tolin(S, x) for x in args]
        out = []
        if op != 0xb8:
            o = st.pop()
            S0 = S.copy()
            if not self.nonnull(S, o): return [("throw", S)]
            if S0.null.get(o) is None and o[0] == "ref": out.append(("throw", S0))
            args = [o] + args
        def go(s, v): return ("next", nx, st + ([v] if ret != "V" else []), loc, s)
        known = self.jdk(S, cl, nm, ds, ps, ret, args)
        if known is not None:
            for s, kind, v in known: out.append(go(s, v) if kind == "ret" else ("throw", s))
            return out
        t = self.W.find_method(cl, nm, ds)
        if t is None or (t.abstract and not t.native):
            cands = []
            if t is not None: cands = [x for k in self.W.classes.values() if t.cls.name in self.W.supers(k.name) for x in k.methods if x.name == nm and x.desc == ds and not x.abstract]
            if not cands:
                if nm == "<init>" and cl.startswith("java/"): return out + [go(S, None)]
                if not cl.startswith("java/lang/"): self.havoc(S)
                s2 = S.copy()
                return out + [go(S, self.fresh(S, ret) if ret != "V" else None), ("throw", s2)]
        else:
            cands = [t]
            if op in (0xb6, 0xb9) and not t.private:
                cands += [x for k in self.W.classes.values() if k.name != t.cls.name and t.cls.name in self.W.supers(k.name) for x in k.methods if x.name == nm and x.desc == ds and not x.abstract]
        for t in cands:
            for s, kind, v in self.call(t, args, S.copy(), depth + 1, stack + ((m, pc),)):
                out.append(go(s, v) if kind == "ret" else ("throw", s))
        return out
    # ---- the few library methods that matter
    def jdk(self, S, cl, nm, ds, ps, ret, args):
        R = lambda v=None: [(S, "ret", v)]
        if cl in ("java/nio/ByteBuffer", "java/nio/Buffer"):
            r = args[0] if args and isinstance(args[0], tuple) else None
            simple = {"position": "pos", "remaining": "rem", "capacity": "cap"}
            if nm in simple and len(args) == 1: return R(self.buf(S, r, simple[nm]))
            if nm == "limit" and len(args) == 1: return R(self.buf(S, r, "pos") + self.buf(S, r, "rem"))
            if nm == "hasRemaining": return None
            if nm in ("isDirect", "hasArray") and ret == "Z": self.buf(S, r, "pos"); return R(S.memo[(nm, r)])
            if nm in ("array", "arrayOffset"):
                self.buf(S, r, "pos"); s2 = S.copy(); h = S.memo[("hasArray", r)]
                ok = S.add(con(1) - h) and S.feasible()
                return ([(S, "ret", self.buf(S, r, "arr" if nm == "array" else "off"))] if ok else []) + [(s2, "throw", None)]
            if nm in ("duplicate", "asReadOnlyBuffer", "slice") and len(args) == 1:
                n = self.obj(S, "Ljava/nio/ByteBuffer;", nm)
                for k in ("pos", "rem", "cap", "off", "arr", "isDirect", "hasArray"): S.memo[(k, n)] = self.buf(S, r, k) if k not in ("isDirect", "hasArray") else (self.buf(S, r, "pos"), S.memo[(k, r)])[1]
                S.memo[("buf", n)] = True
                if nm == "asReadOnlyBuffer": S.memo[("hasArray", n)] = con(0)
                if nm == "slice":
                    S.memo[("off", n)] = S.memo[("off", r)] + S.memo[("pos", r)]; S.memo[("pos", n)] = con(0); S.memo[("cap", n)] = S.memo[("rem", r)]
                return R(n)
            if nm == "get" and ps and ps[0] == "[B":
                if not self.nonnull(S, args[1]): return [(S, "throw", None)]
                n = self.alen(S, args[1]) if len(ps) == 1 else args[3]
                p, q = self.buf(S, r, "pos"), self.buf(S, r, "rem"); s2 = S.copy()
                ok = S.add(n - q) and S.feasible()
                S.memo[("pos", r)], S.memo[("rem", r)] = p + n, q - n
                return ([(S, "ret", r)] if ok else []) + [(s2, "throw", None)]
            if nm == "wrap":
                n = self.obj(S, "Ljava/nio/ByteBuffer;", "wrap"); self.buf(S, n, "pos"); S.memo[("arr", n)] = args[0]
                for k in ("isDirect",): S.memo[(k, n)] = con(0)
                ln = self.alen(S, args[0]); 
                if len(args) == 1: S.memo.update({("pos", n): con(0), ("rem", n): ln, ("cap", n): ln, ("off", n): con(0)})
                else: S.add(S.memo[("off", n)] + S.memo[("cap", n)] - ln)
                return [(S, "ret", n), (S.copy(), "throw", None)]
            if r:       # anything else may move it
                for k in [k for k in S.memo if k[0] in ("pos", "rem", "buf") and k[1] == r]: del S.memo[k]
                s2 = S.copy()
                v = r if ret.endswith("Buffer;") and nm in ("flip", "rewind", "clear", "mark", "reset", "limit", "position", "order", "put", "get", "compact") else (self.fresh(S, ret) if ret != "V" else None)
                return [(S, "ret", v), (s2, "throw", None)]
        if cl == "java/util/Objects" and nm == "requireNonNull":
            s2 = S.copy()
            return ([(S, "ret", args[0])] if self.nonnull(S, args[0]) else []) + [(s2, "throw", None)]
        if cl == "java/util/Objects" and nm == "checkFromIndexSize":
            s2 = S.copy(); o, n, l = args
            ok = S.add(-o, -n, o + n - l) and S.feasible()
            return ([(S, "ret", o)] if ok else []) + [(s2, "throw", None)]
        if cl == "java/util/Objects" and nm == "checkIndex":
            s2 = S.copy(); ok = S.add(-args[0], args[0] - args[1] + 1) and S.feasible()
            return ([(S, "ret", args[0])] if ok else []) + [(s2, "throw", None)]
        if cl == "java/lang/Math":
            if nm in ("addExact", "subtractExact"):
                x = args[0] + args[1] if nm[0] == "a" else args[0] - args[1]; lo, hi = RANGE[ret]; s2 = S.copy()
                ok = S.add(con(lo) - x, x - con(hi)) and S.feasible()
                return ([(S, "ret", x)] if ok else []) + [(s2, "throw", None)]
            if nm in ("min", "max") and ret in "IJ":
                res = []
                for s, (x, y) in ((S.copy(), args), (S.copy(), args[::-1])):
                    d = x - y if nm == "min" else y - x
                    if s.add(d) and s.feasible(): res.append((s, "ret", x))
                return res
            if nm == "toIntExact":
                lo, hi = RANGE["I"]; s2 = S.copy(); x = args[0]
                return ([(S, "ret", x)] if S.add(con(lo) - x, x - con(hi)) and S.feasible() else []) + [(s2, "throw", None)]
        if cl in ("java/lang/StringBuilder", "java/lang/String", "java/lang/Object") and nm == "<init>": return R()
        if cl == "java/lang/StringBuilder": return R(args[0] if ret.endswith("StringBuilder;") else self.obj(S, ret, "str"))
        return None
