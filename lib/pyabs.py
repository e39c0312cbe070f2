"""Path-enumerating abstract interpreter over the syntax tree of one Python module.

Nothing of the module is executed: statements are interpreted over symbolic values; every branch whose
condition is not known is followed both ways, every call of unknown code may return or raise."""
import ast, copy, itertools

class TooComplex(Exception): pass
NONE = ("c", None); TRUE = ("c", True); FALSE = ("c", False)
LIMIT = 6000
CT = {"c_char": ("char", 1), "c_bool": ("int", 1, False), "c_byte": ("int", 1, True), "c_ubyte": ("int", 1, False),
      "c_int8": ("int", 1, True), "c_uint8": ("int", 1, False), "c_short": ("int", 2, True), "c_ushort": ("int", 2, False),
      "c_int16": ("int", 2, True), "c_uint16": ("int", 2, False), "c_int": ("int", 4, True), "c_uint": ("int", 4, False),
      "c_int32": ("int", 4, True), "c_uint32": ("int", 4, False), "c_long": ("int", 8, True), "c_ulong": ("int", 8, False),
      "c_longlong": ("int", 8, True), "c_ulonglong": ("int", 8, False), "c_int64": ("int", 8, True),
      "c_uint64": ("int", 8, False), "c_size_t": ("int", 8, False), "c_ssize_t": ("int", 8, True),
      "c_float": ("float", 4), "c_double": ("float", 8), "c_void_p": ("voidp",), "c_char_p": ("charp",),
      "py_object": ("pyobj",), "c_wchar_p": ("wcharp",)}
STRUCTBASES = {"Structure", "Union", "BigEndianStructure", "LittleEndianStructure"}

class State:
    __slots__ = ("heap", "ev", "assume", "taint")
    def __init__(self): self.heap, self.ev, self.assume, self.taint = {}, [], {}, {}
    def copy(self):
        s = State()
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.ev, s.assume, s.taint = list(self.ev), dict(self.assume), dict(self.taint)
        return s

class Module:
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path).read(), path)
        self.counter = itertools.count()
        self.fns = []            # (FunctionDef, closure env or None, owner class or None)
        self.classes = {}        # name -> {"bases": [...], "attrs": {...}, "node":}
        self.protos = {}         # native name -> {"argtypes": value, "restype": value, "line":}
        self.glob = {}
        self.depth = 0
        self.steps = 0
        self.forking = False     # unknown calls may raise
        st = State()
        outs = list(self.block(self.tree.body, self.glob, st, None, True))
        # module code is straight-line: keep the normal outcome
        self.outs = outs

    # ---- helpers
    def fresh(self, *a): return a + (next(self.counter),)
    def line(self, n): return "%s:%d" % (self.path, getattr(n, "lineno", 0))
    def mro(self, c):
        out, seen = [], set()
        def go(x):
            if x in seen or x not in self.classes: return
            seen.add(x); out.append(x)
            for b in self.classes[x]["bases"]: go(b)
        go(c)
        return out
    def isstruct(self, c):
        return any(set(self.classes[k]["xbases"]) & STRUCTBASES for k in self.mro(c))
    def lookup(self, c, name, after=None):
        m = self.mro(c)
        if after: m = m[m.index(after) + 1:] if after in m else []
        for k in m:
            if name in self.classes[k]["attrs"]: return self.classes[k]["attrs"][name], k
        return None, None

    # ---- statements: generator of (kind, value, env, state)
    def block(self, stmts, env, st, ctx, top=False):
        self.steps += 1
        if self.steps > 400000: raise TooComplex("too many paths")
        states = [(env, st)]
        for s in stmts:
            nxt = []
            for (e, x) in states:
                for o in self.stmt(s, e, x, ctx):
                    if o[0] == "next": nxt.append((o[2], o[3]))
                    else: yield o
            states = nxt[:1] if top else nxt
            if len(states) > LIMIT: raise TooComplex("too many paths")
        for e, x in states: yield ("next", None, e, x)

    def fork(self, env): return env if env is self.glob else dict(env)

    def bind(self, target, val, env, st, ctx):
        """yields (env, st) or raise outcomes"""
        if isinstance(target, ast.Name):
            env = self.fork(env); env[target.id] = val
            yield ("next", None, env, st)
        elif isinstance(target, ast.Attribute):
            for o in self.expr(target.value, env, st, ctx):
                if o[0] != "val": yield o; continue
                st2 = o[3]; b = o[1]
                if b[0] == "cfn" and target.attr in ("argtypes", "restype", "errcheck"):
                    p = self.protos.setdefault(b[1], {"line": self.line(target)})
                    p[target.attr] = val
                elif b[0] == "cls": self.classes[b[1]]["attrs"][target.attr] = val
                elif b[0] == "obj":
                    st2 = st2.copy(); st2.heap[b[1]][target.attr] = val
                    st2.ev.append(("set", b, target.attr, val))
                yield ("next", None, o[2], st2)
        elif isinstance(target, (ast.Tuple, ast.List)):
            states = [(env, st)]
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred): v, t = ("top",), t.value
                elif val[0] == "seq" and i < len(val[1]): v = val[1][i]
                else: v = ("item", val, ("c", i))
                n = []
                for e, x in states:
                    for o in self.bind(t, v, e, x, ctx):
                        if o[0] == "next": n.append((o[2], o[3]))
                        else: yield o
                states = n
            for e, x in states: yield ("next", None, e, x)
        elif isinstance(target, ast.Subscript):
            yield ("next", None, env, st)
        else: yield ("next", None, env, st)

    def stmt(self, s, env, st, ctx):
        if isinstance(s, ast.Expr):
            for o in self.expr(s.value, env, st, ctx):
                yield ("next", None, o[2], o[3]) if o[0] == "val" else o
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                yield ("next", None, env, st); return
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for o in self.expr(s.value, env, st, ctx):
                if o[0] != "val": yield o; continue
                v = o[1] if not isinstance(s, ast.AugAssign) else self.fresh("top")
                states = [(o[2], o[3])]
                for t in targets:
                    n = []
                    for e, x in states:
                        for p in self.bind(t, v, e, x, ctx):
                            if p[0] == "next": n.append((p[2], p[3]))
                            else: yield p
                    states = n
                for e, x in states: yield ("next", None, e, x)
        elif isinstance(s, ast.If):
            for o in self.expr(s.test, env, st, ctx):
                if o[0] != "val": yield o; continue
                for b, x in self.truth(o[1], o[3]):
                    yield from self.block(s.body if b else s.orelse, o[2], x, ctx)
        elif isinstance(s, ast.Return):
            if s.value is None: yield ("return", NONE, env, st)
            else:
                for o in self.expr(s.value, env, st, ctx):
                    yield ("return", o[1], o[2], o[3]) if o[0] == "val" else o
        elif isinstance(s, ast.Raise): 
            if s.exc is None: yield ("raise", ("top",), env, st)
            else:
                old = self.forking; self.forking = False
                outs = list(self.expr(s.exc, env, st, ctx))
                self.forking = old
                for o in outs: yield ("raise", o[1], o[2], o[3])
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fns.append((s, env, None))
            v = ("fn", len(self.fns) - 1)
            for d in s.decorator_list:
                if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"): v = (d.id, v)
                else: v = self.fresh("top")
            env = self.fork(env); env[s.name] = v
            yield ("next", None, env, st)
        elif isinstance(s, ast.ClassDef):
            xb = [b.id if isinstance(b, ast.Name) else getattr(b, "attr", "?") for b in s.bases]
            c = {"bases": [b for b in xb if b in self.classes], "xbases": xb, "attrs": {}, "node": s}
            self.classes[s.name] = c
            cenv = dict(env)
            for o in self.block(s.body, cenv, st, ctx):
                if o[0] == "next":
                    c["attrs"].update({k: v for k, v in o[2].items() if k not in env or env[k] != v})
            for k, v in c["attrs"].items():
                f = v[1] if v[0] in ("staticmethod", "classmethod", "property") else v
                if f[0] == "fn":
                    n, _, _ = self.fns[f[1]]; self.fns[f[1]] = (n, None, s.name)
            env = self.fork(env); env[s.name] = ("cls", s.name)
            yield ("next", None, env, st)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            env = self.fork(env)
            for a in s.names:
                if isinstance(s, ast.ImportFrom) and s.module == "ctypes" and a.name != "*":
                    env[a.asname or a.name] = self.ctname(a.name) or ("top",)
                elif isinstance(s, ast.Import) and a.name == "ctypes": env[a.asname or "ctypes"] = ("ctmod",)
                elif a.name != "*": env[a.asname or a.name.split(".")[0]] = self.fresh("mod", a.name)
            yield ("next", None, env, st)
        elif isinstance(s, ast.Try):
            def handlers(o):
                if not s.handlers: yield o; return
                for h in s.handlers:
                    e = self.fork(o[2])
                    if h.name: e[h.name] = self.fresh("top")
                    yield from self.block(h.body, e, o[3], ctx)
                catchall = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")) for h in s.handlers)
                if not catchall: yield o
            def body():
                for o in self.block(s.body, env, st, ctx):
                    if o[0] == "raise": yield from handlers(o)
                    elif o[0] == "next" and s.orelse: yield from self.block(s.orelse, o[2], o[3], ctx)
                    else: yield o
            for o in body():
                if not s.finalbody: yield o; continue
                for p in self.block(s.finalbody, o[2], o[3], ctx):
                    yield (o[0], o[1], p[2], p[3]) if p[0] == "next" else p
        elif isinstance(s, ast.With):
            yield from self.with_(s, 0, env, st, ctx)
        elif isinstance(s, (ast.For, ast.While)):
            yield from self.loop(s, env, st, ctx)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Delete)): yield ("next", None, env, st)
        elif isinstance(s, ast.Assert): yield ("next", None, env, st)
        elif isinstance(s, ast.Break): yield ("break", None, env, st)
        elif isinstance(s, ast.Continue): yield ("continue", None, env, st)
        else: raise TooComplex("statement %s at %s" % (type(s).__name__, self.line(s)))

    def with_(self, s, i, env, st, ctx):
        if i == len(s.items):
            yield from self.block(s.body, env, st, ctx); return
        it = s.items[i]
        for o in self.expr(it.context_expr, env, st, ctx):
            if o[0] != "val": yield o; continue
            m = o[1]
            for en in self.callm(m, "__enter__", [], o[2], o[3], s):
                if en[0] != "val": yield en; continue
                outs = []
                if it.optional_vars is not None:
                    for b in self.bind(it.optional_vars, en[1], en[2], en[3], ctx):
                        if b[0] == "next": outs += list(self.with_(s, i + 1, b[2], b[3], ctx))
                        else: outs.append(b)
                else: outs += list(self.with_(s, i + 1, en[2], en[3], ctx))
                for r in outs:
                    exc = [self.fresh("top")] * 3 if r[0] == "raise" else [NONE] * 3
                    for x in self.callm(m, "__exit__", exc, r[2], r[3], s):
                        if x[0] != "val": yield x
                        elif r[0] == "raise":
                            for b, y in self.truth(x[1], x[3]):
                                if b and x[1] != TRUE and x[1][0] == "top": continue
                                yield ("next", None, x[2], y) if b else ("raise", r[1], x[2], y)
                        else: yield (r[0], r[1], x[2], x[3])

    def loop(self, s, env, st, ctx):
        items = None
        if isinstance(s, ast.For):
            outs = list(self.expr(s.iter, env, st, ctx))
        else: outs = [("val", ("top",), env, st)]
        for o in outs:
            if o[0] != "val": yield o; continue
            it = o[1]
            if isinstance(s, ast.For) and it[0] == "seq": items = list(it[1])
            elif isinstance(s, ast.For) and it[0] == "dict": items = [k for k, _ in it[1]]
            if isinstance(s, ast.For) and items is not None:
                states = [(o[2], o[3])]
                for v in items:
                    n = []
                    for e, x in states:
                        for b in self.bind(s.target, v, e, x, ctx):
                            if b[0] != "next": yield b; continue
                            for r in self.block(s.body, b[2], b[3], ctx):
                                if r[0] in ("next", "continue"): n.append((r[2], r[3]))
                                elif r[0] == "break": yield ("next", None, r[2], r[3])
                                else: yield r
                    states = n
                for e, x in states: yield from self.block(s.orelse, e, x, ctx)
                continue
            # unknown number of iterations: zero or one, values unknown
            z = o[3].copy(); z.ev.append(("loop0",))
            yield ("next", None, o[2], z)
            e, x = o[2], o[3].copy()
            bs = [("next", None, e, x)] if isinstance(s, ast.While) else list(self.bind(s.target, ("item", it, self.fresh("top")), e, x, ctx))
            for b in bs:
                for r in self.block(s.body, b[2], b[3], ctx):
                    if r[0] in ("next", "continue", "break"): yield ("next", None, r[2], r[3])
                    else: yield r

    # ---- truth of a value: yields (bool, state)
    def truth(self, v, st):
        if v[0] == "c": yield bool(v[1]), st; return
        if v[0] == "seq": yield bool(v[1]), st; return
        if v[0] in ("fn", "cls", "bm", "cfn", "ct", "ref"): yield True, st; return
        if v[0] == "not":
            for b, s in self.truth(v[1], st): yield (not b), s
            return
        if v[0] == "isnone":
            if v[1][0] == "c": yield v[1] == NONE, st; return
            if v[1][0] in ("obj", "seq", "fn", "cls", "inst"): yield False, st; return
        if v[0] == "obj":
            cls = st.heap[v[1]]["__class__"]
            f, k = self.lookup(cls, "__bool__")
            if f:
                for o in self.call(("bm", f, v), [], {}, {}, st, None):
                    if o[0] == "val": yield from self.truth(o[1], o[3])
                return
        if v in st.assume: yield st.assume[v], st; return
        for b in (True, False):
            s = st.copy(); s.assume[v] = b
            yield b, s

    # ---- expressions: generator of ("val"|"raise", value, env, state)
    def exprs(self, es, env, st, ctx):
        """evaluates a list; yields (list|None, outcome)"""
        acc = [([], env, st)]
        for e in es:
            n = []
            for vs, en, x in acc:
                for o in self.expr(e.value if isinstance(e, ast.Starred) else e, en, x, ctx):
                    if o[0] == "val":
                        if isinstance(e, ast.Starred):
                            n.append((vs + (list(o[1][1]) if o[1][0] == "seq" else [("star", o[1])]), o[2], o[3]))
                        else: n.append((vs + [o[1]], o[2], o[3]))
                    else: yield None, o
            acc = n
        for vs, en, x in acc: yield vs, ("val", None, en, x)

    def ctname(self, n):
        if n in CT: return ("ct", CT[n])
        if n in ("POINTER", "CFUNCTYPE", "byref", "cast", "pointer", "sizeof", "addressof", "pythonapi", "WINFUNCTYPE", "PYFUNCTYPE"):
            return ("ctf", n)
        if n in STRUCTBASES: return ("structbase",)
        return None

    def expr(self, e, env, st, ctx):
        V = lambda v, en=env, s=st: ("val", v, en, s)
        if isinstance(e, ast.Constant): yield V(("c", e.value))
        elif isinstance(e, ast.Name):
            if e.id in env: yield V(env[e.id])
            elif e.id in self.glob: yield V(self.glob[e.id])
            else: yield V(self.ctname(e.id) or ("builtin", e.id))
        elif isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            for vs, o in self.exprs(e.elts, env, st, ctx):
                yield o if vs is None else V(("seq", tuple(vs)), o[2], o[3])
        elif isinstance(e, ast.Dict):
            ks = [k for k in e.keys if k is not None]
            for vs, o in self.exprs(ks + list(e.values), env, st, ctx):
                if vs is None: yield o
                elif len(ks) != len(e.values): yield V(self.fresh("top"), o[2], o[3])
                else: yield V(("dict", tuple(zip(vs[:len(ks)], vs[len(ks):]))), o[2], o[3])
        elif isinstance(e, ast.Attribute):
            for o in self.expr(e.value, env, st, ctx):
                if o[0] != "val": yield o; continue
                yield from self.attr(o[1], e.attr, o[2], o[3], e)
        elif isinstance(e, ast.Call): yield from self.callexpr(e, env, st, ctx)
        elif isinstance(e, ast.UnaryOp):
            for o in self.expr(e.operand, env, st, ctx):
                if o[0] != "val": yield o; continue
                if isinstance(e.op, ast.Not):
                    yield V(("c", not o[1][1]) if o[1][0] == "c" else ("not", o[1]), o[2], o[3])
                elif isinstance(e.op, ast.USub) and o[1][0] == "c" and isinstance(o[1][1], int): yield V(("c", -o[1][1]), o[2], o[3])
                else: yield V(("op", type(e.op).__name__, o[1]), o[2], o[3])
        elif isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            def go(i, en, x):
                for o in self.expr(e.values[i], en, x, ctx):
                    if o[0] != "val" or i == len(e.values) - 1: yield o; continue
                    for b, y in self.truth(o[1], o[3]):
                        if b == isand: yield from go(i + 1, o[2], y)
                        else: yield V(o[1], o[2], y)
            yield from go(0, env, st)
        elif isinstance(e, ast.IfExp):
            for o in self.expr(e.test, env, st, ctx):
                if o[0] != "val": yield o; continue
                for b, y in self.truth(o[1], o[3]):
                    yield from self.expr(e.body if b else e.orelse, o[2], y, ctx)
        elif isinstance(e, ast.Compare):
            for vs, o in self.exprs([e.left] + e.comparators, env, st, ctx):
                if vs is None: yield o; continue
                op = e.ops[0]
                r = ("cmp", tuple(type(p).__name__ for p in e.ops), tuple(vs))
                if len(vs) == 2 and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    eq = None
                    if NONE in vs:
                        w = vs[0] if vs[1] == NONE else vs[1]
                        r = ("isnone", w)
                        if w[0] == "c": r = ("c", w == NONE)
                        elif w[0] in ("nat", "ext"): r = ("not", w)   # native handles: null or not
                    elif vs[0][0] == "c" and vs[1][0] == "c": r = ("c", vs[0] == vs[1])
                    if isinstance(op, (ast.IsNot, ast.NotEq)): r = ("c", not r[1]) if r[0] == "c" else ("not", r)
                elif len(vs) == 2 and vs[0][0] == "c" and vs[1][0] == "c" and isinstance(vs[0][1], int) and isinstance(vs[1][1], int):
                    a, b = vs[0][1], vs[1][1]
                    t = {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}.get(type(op).__name__)
                    if t is not None: r = ("c", t)
                yield V(r, o[2], o[3])
        elif isinstance(e, ast.BinOp):
            for vs, o in self.exprs([e.left, e.right], env, st, ctx):
                if vs is None: yield o; continue
                a, b = vs
                r = ("op", type(e.op).__name__, a, b)
                t = self.astype(a)
                if isinstance(e.op, ast.Mult) and t is not None: r = ("ct", ("arr", t, b))
                elif a[0] == "seq" and b[0] == "seq" and isinstance(e.op, ast.Add): r = ("seq", a[1] + b[1])
                elif a[0] == "seq" and b[0] == "c" and isinstance(e.op, ast.Mult): r = ("seq", a[1] * b[1])
                elif a[0] == "c" and b[0] == "c" and isinstance(e.op, ast.Add) and type(a[1]) is type(b[1]) and isinstance(a[1], (str, int)):
                    r = ("c", a[1] + b[1])
                yield V(r, o[2], o[3])
        elif isinstance(e, ast.JoinedStr):
            parts, known = [], True
            sub = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
            for vs, o in self.exprs(sub, env, st, ctx):
                if vs is None: yield o; continue
                it, s = iter(vs), ""
                for v in e.values:
                    if isinstance(v, ast.Constant): s += v.value
                    else:
                        x = next(it)
                        if x[0] == "c" and s is not None: s += str(x[1])
                        else: s = None; break
                yield V(("c", s) if s is not None else self.fresh("top"), o[2], o[3])
        elif isinstance(e, ast.Subscript):
            for vs, o in self.exprs([e.value] + ([e.slice] if not isinstance(e.slice, ast.Slice) else []), env, st, ctx):
                if vs is None: yield o; continue
                b = vs[0]; r = ("item", b, vs[1] if len(vs) > 1 else ("c", "slice"))
                if len(vs) > 1 and vs[1][0] == "c" and b[0] == "seq" and isinstance(vs[1][1], int) and -len(b[1]) <= vs[1][1] < len(b[1]): r = b[1][vs[1][1]]
                elif len(vs) > 1 and b[0] == "dict":
                    for k, v in b[1]:
                        if k == vs[1]: r = v
                yield V(r, o[2], o[3])
        elif isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            for o in self.expr(g.iter, env, st, ctx):
                if o[0] != "val" or o[1][0] != "seq": yield V(self.fresh("top"), o[2], o[3]) if o[0] == "val" else o; continue
                acc = [((), o[2], o[3])]
                for v in o[1][1]:
                    n = []
                    for vs, en, x in acc:
                        for b in self.bind(g.target, v, en, x, ctx):
                            for r in self.expr(e.elt, b[2], b[3], ctx):
                                if r[0] == "val": n.append((vs + (r[1],), r[2], r[3]))
                    acc = n
                for vs, en, x in acc: yield V(("seq", vs), en, x)
        elif isinstance(e, ast.Lambda):
            f = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
            ast.copy_location(f, e); ast.fix_missing_locations(f)
            self.fns.append((f, env, None))
            yield V(("fn", len(self.fns) - 1))
        elif isinstance(e, ast.NamedExpr):
            for o in self.expr(e.value, env, st, ctx):
                if o[0] != "val": yield o; continue
                for b in self.bind(e.target, o[1], o[2], o[3], ctx): yield V(o[1], b[2], b[3])
        elif isinstance(e, ast.Starred): yield from self.expr(e.value, env, st, ctx)
        else: yield V(self.fresh("top"))

    def astype(self, v):
        if v[0] == "ct": return v[1]
        if v[0] == "cls" and self.isstruct(v[1]): return ("struct", v[1])
        return None

    def attr(self, b, name, env, st, node):
        V = lambda v, s=st: ("val", v, env, s)
        if name.startswith("lg_"): yield V(("cfn", name)); return
        if b[0] == "ctmod": yield V(self.ctname(name) or ("ctf", name)); return
        if b[0] == "obj":
            at = st.heap[b[1]]
            if name in at: yield V(at[name]); return
            if name == "__class__": yield V(("cls", at["__class__"])); return
            f, k = self.lookup(at["__class__"], name)
            if f is None: yield V(("attr", b, name)); return
            if f[0] == "fn": yield V(("bm", f, b))
            elif f[0] == "property": yield from self.call(("bm", f[1], b), [], {}, env, st, node)
            elif f[0] == "staticmethod": yield V(f[1])
            elif f[0] == "classmethod": yield V(("bm", f[1], ("cls", at["__class__"])))
            else: yield V(f)
            return
        if b[0] == "cls":
            if name == "__name__": yield V(("c", b[1])); return
            f, k = self.lookup(b[1], name)
            if f is None: yield V(("attr", b, name)); return
            if f[0] == "staticmethod": yield V(f[1])
            elif f[0] == "classmethod": yield V(("bm", f[1], b))
            else: yield V(f)
            return
        if b[0] == "super":
            cls = b[1]; obj = b[2]
            oc = st.heap[obj[1]]["__class__"] if obj[0] == "obj" else obj[1]
            f, k = self.lookup(oc, name, after=cls)
            if f is None: yield V(("superx", name)); return
            yield V(("bm", f, obj) if f[0] == "fn" else (f[1] if f[0] == "staticmethod" else f)); return
        if b[0] == "dict" and name in ("items", "keys", "values", "get"): yield V(("dictm", b, name)); return
        yield V(("attr", b, name))

    def callexpr(self, e, env, st, ctx):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and ctx:
            yield ("val", ("super", ctx[0], ctx[1]), env, st); return
        for o in self.expr(e.func, env, st, ctx):
            if o[0] != "val": yield o; continue
            for vs, p in self.exprs(list(e.args) + [k.value for k in e.keywords], o[2], o[3], ctx):
                if vs is None: yield p; continue
                nk = len(e.keywords)
                pos = vs[:len(vs) - nk] if nk else vs
                kw = {k.arg: v for k, v in zip(e.keywords, vs[len(vs) - nk:])} if nk else {}
                yield from self.call(o[1], pos, kw, p[2], p[3], e)

    def callm(self, obj, name, args, env, st, node):
        for o in self.attr(obj, name, env, st, node):
            if o[0] != "val": yield o; continue
            yield from self.call(o[1], args, {}, o[2], o[3], node)

    def new(self, cls, st):
        oid = next(self.counter)
        st.heap[oid] = {"__class__": cls}
        return ("obj", oid)

    def call(self, f, args, kw, env, st, node):
        V = lambda v, s=st: ("val", v, env, s)
        k = f[0]
        if k == "cfn":
            s = st.copy(); r = self.fresh("nat", f[1])
            allargs = list(args) + list(kw.values())
            s.ev.append(("native", f[1], tuple(allargs), r, self.line(node) if node is not None else "?"))
            yield V(r, s); return
        if k == "ctf":
            if f[1] == "POINTER":
                t = self.astype(args[0]) if args else None
                yield V(("ct", ("ptr", t)) if t else (("ct", ("voidp",)) if args and args[0] == NONE else ("top",))); return
            if f[1] in ("CFUNCTYPE", "WINFUNCTYPE", "PYFUNCTYPE"):
                ts = [("void",) if a == NONE else self.astype(a) for a in args]
                yield V(("ct", ("fun", ts[0] if ts else None, tuple(ts[1:])))); return
            if f[1] in ("byref", "pointer"): yield V(("ref", args[0]) if args else ("top",)); return
            yield V(("callv", f[1], tuple(args))); return
        if k == "ct":
            yield V(self.fresh("inst", f[1], tuple(args))); return
        if k == "cls" and self.isstruct(f[1]):
            yield V(self.fresh("inst", ("struct", f[1]), tuple(args))); return
        if k == "cls":
            s = st.copy(); o = self.new(f[1], s)
            init, _ = self.lookup(f[1], "__init__")
            if init is None: yield V(o, s); return
            for r in self.call(("bm", init, o), args, kw, env, s, node):
                yield ("val", o, env, r[3]) if r[0] == "val" else r
            return
        if k == "dictm":
            d = f[1][1]
            if f[2] == "items": yield V(("seq", tuple(("seq", p) for p in d)))
            elif f[2] == "keys": yield V(("seq", tuple(p[0] for p in d)))
            elif f[2] == "values": yield V(("seq", tuple(p[1] for p in d)))
            else: yield V(dict(d).get(args[0], NONE) if args else ("top",))
            return
        if k == "builtin":
            n = f[1]
            if n == "getattr" and len(args) >= 2 and args[1][0] == "c" and isinstance(args[1][1], str):
                yield from self.attr(args[0], args[1][1], env, st, node); return
            if n == "setattr" and len(args) == 3 and args[1][0] == "c":
                b = args[0]; s = st
                if b[0] == "cfn": self.protos.setdefault(b[1], {"line": self.line(node)})[args[1][1]] = args[2]
                elif b[0] == "obj":
                    s = st.copy(); s.heap[b[1]][args[1][1]] = args[2]; s.ev.append(("set", b, args[1][1], args[2]))
                elif b[0] == "cls": self.classes[b[1]]["attrs"][args[1][1]] = args[2]
                yield V(NONE, s); return
            if n == "bool" and len(args) == 1:
                for b, s in self.truth(args[0], st): yield V(("c", b), s)
                return
            if n == "isinstance":
                yield V(self.fresh("isinst", tuple(args))); return
            if n == "len" and args and args[0][0] == "seq": yield V(("c", len(args[0][1]))); return
            if n in ("list", "tuple", "sorted", "reversed") and args and args[0][0] == "seq": yield V(args[0]); return
            if n == "zip" and args and all(a[0] == "seq" for a in args):
                yield V(("seq", tuple(("seq", t) for t in zip(*[a[1] for a in args])))); return
            if n == "enumerate" and args and args[0][0] == "seq":
                yield V(("seq", tuple(("seq", (("c", i), v)) for i, v in enumerate(args[0][1])))); return
            if n in ("super",): yield V(("top",)); return
            yield from self.unknown(("callv", n, tuple(args)), args, env, st); return
        if k == "bm":
            yield from self.invoke(f[1], [f[2]] + list(args), kw, env, st, node); return
        if k == "fn":
            yield from self.invoke(f, list(args), kw, env, st, node); return
        if k == "superx": yield V(NONE); return
        if k == "attr":
            s = st.copy(); r = self.fresh("mcall", f[1], f[2], tuple(args))
            s.ev.append(("mcall", f[1], f[2], tuple(args), r))
            yield from self.unknown(r, [f[1]] + list(args), env, s); return
        yield from self.unknown(("callv", f, tuple(args)), args, env, st)

    def unknown(self, r, args, env, st):
        s = st
        refs = [a[1] for a in args if a[0] == "ref"]
        if refs:
            s = st.copy()
            for x in refs: s.taint[x] = s.taint.get(x, ()) + tuple(a for a in args if a[0] != "ref")
        yield ("val", r, env, s)
        if self.forking: yield ("raise", ("top",), env, s)

    def invoke(self, fv, args, kw, env, st, node):
        fd, cenv, owner = self.fns[fv[1]]
        if self.depth > 12:
            yield ("val", self.fresh("top"), env, st); return
        e = dict(cenv) if cenv is not None and cenv is not self.glob else {}
        a = fd.args
        names = [p.arg for p in a.posonlyargs + a.args]
        rest = []
        for i, v in enumerate(args):
            if v[0] == "star":
                for n in names[i:]: e[n] = ("item", v[1], ("c", n))
                break
            if i < len(names): e[names[i]] = v
            else: rest.append(v)
        if a.vararg: e[a.vararg.arg] = ("seq", tuple(rest)) if not any(v[0] == "star" for v in args) else [v[1] for v in args if v[0] == "star"][0]
        for n, v in kw.items():
            if n in names or any(p.arg == n for p in a.kwonlyargs): e[n] = v
        if a.kwarg: e[a.kwarg.arg] = self.fresh("top")
        ds = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in ds:
            if n not in e:
                e[n] = next(iter(self.expr(d, {}, st, None)))[1]
        for n in names:
            if n not in e: e[n] = self.fresh("ext", n)
        ctx = (owner, args[0]) if owner and args else None
        self.depth += 1
        try:
            outs = list(self.block(fd.body, e, st, ctx))
        finally: self.depth -= 1
        if len(outs) > LIMIT: raise TooComplex("too many paths in " + fd.name)
        for o in outs:
            if o[0] == "next": yield ("val", NONE, env, o[3])
            elif o[0] == "return": yield ("val", o[1], env, o[3])
            elif o[0] == "raise": yield ("raise", o[1], env, o[3])
            else: yield ("val", NONE, env, o[3])

    def paramvals(self, fv, skip=1):
        """symbolic arguments for a function (after self)"""
        fd = self.fns[fv[1]][0]
        ps = (fd.args.posonlyargs + fd.args.args)[skip:]
        return [("ext", p.arg, p.annotation.id if isinstance(p.annotation, ast.Name) else None, next(self.counter)) for p in ps]

    def argsets(self, fv, skip=1):
        """paramvals, with every small number of extra positional arguments for a *args parameter"""
        va = self.fns[fv[1]][0].args.vararg
        base = self.paramvals(fv, skip)
        return [base + [("ext", va.arg, i, next(self.counter)) for i in range(n)] for n in (range(4) if va else [0])]

def roots(v, taint=None, seen=None):
    """every sub-value a value is built from"""
    seen = set() if seen is None else seen
    if not isinstance(v, tuple) or v in seen: return seen
    seen.add(v)
    for x in v:
        if isinstance(x, tuple): roots(x, taint, seen)
    if taint and v in taint:
        for x in taint[v]: roots(x, taint, seen)
    return seen
