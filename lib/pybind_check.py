"""G01, G02 and the Python part of E03: the ctypes binding against the C headers."""
import ast, os
import capi, pyabs
from pyabs import NONE, roots

REPO = os.environ.get("LG_REPO", "/repo")
PY = os.path.join(REPO, "pylightgrep", "lightgrep", "__init__.py")

class R:
    def __init__(self): self.obs, self.counts = [], {}
    def ob(self, rule, key, where, ok, msg):
        self.obs.append({"rule": rule, "key": key, "where": str(where).replace(REPO + "/", ""), "ok": bool(ok), "msg": msg})
    def out(self): return {"obligations": self.obs, "counts": self.counts, "notes": []}

# ---------------------------------------------------------------- G01
class Compat:
    def __init__(self, h, m):
        self.h, self.m = h, m
        self.pairs = {}       # python struct -> C struct
        self.busy = set()

    def fields(self, pycls):
        for k in self.m.mro(pycls):
            f = self.m.classes[k]["attrs"].get("_fields_")
            if f: 
                if f[0] != "seq": return None
                out = []
                for p in f[1]:
                    if p[0] != "seq" or len(p[1]) < 2 or p[1][0][0] != "c": return None
                    out.append((p[1][0][1], self.m.astype(p[1][1]), len(p[1])))
                return out
        return None

    def pack(self, pycls): return any("_pack_" in self.m.classes[k]["attrs"] for k in self.m.mro(pycls))

    def same(self, c, p):
        """None if the ctypes type p describes the C type c, else why not"""
        if p is None: return "the declared type is not a ctypes type that can be determined"
        if c[0] == "void": return None if p == ("void",) else "void in C, %s in Python" % (p,)
        if c[0] == "int":
            return None if p == c else "%d-byte %s integer in C, %s in Python" % (c[1], "signed" if c[2] else "unsigned", show(p))
        if c[0] == "char": return None if p[0] == "char" or (p[0] == "int" and p[1] == 1) else "char in C, %s in Python" % show(p)
        if c[0] == "float": return None if p == c else "floating point in C, %s in Python" % show(p)
        if c[0] == "struct": return self.struct(c[1], p)
        if c[0] == "ptr":
            t = c[1]
            if t[0] == "fun":
                if p[0] != "fun": return "function pointer in C, %s in Python" % show(p)
                if len(p[2]) != len(t[2]): return "callback with %d parameters in C, %d in Python" % (len(t[2]), len(p[2]))
                for a, b in [(t[1], p[1])] + list(zip(t[2], p[2])):
                    w = self.same(a, b)
                    if w: return "callback: " + w
                return None
            if p == ("voidp",):
                return None
            if p[0] == "pyobj": return None if t == ("void",) else "pointer to %s in C, a Python object in Python" % (t,)
            if p[0] == "charp": return None if t[0] in ("char", "void") else "%s in C, char* in Python" % show(c)
            if p[0] == "ptr":
                if t == ("void",): return None
                if self.h.handle_kind(c): return "opaque handle in C, %s in Python" % show(p)
                return self.same(t, p[1])
            if p[0] == "arr": return "pointer in C, array in Python"
            return "pointer in C, %s in Python" % show(p)
        return "unsupported C type %s" % (c,)

    def struct(self, cname, p):
        if p[0] != "struct": return "struct %s in C, %s in Python" % (cname, show(p))
        if cname not in self.h.structs: return "opaque struct %s in C" % cname
        if (cname, p[1]) in self.busy: return None
        if self.pairs.setdefault(p[1], cname) != cname: return "%s stands for both %s and %s" % (p[1], self.pairs[p[1]], cname)
        self.busy.add((cname, p[1]))
        try:
            fs = self.fields(p[1])
            if fs is None: return "fields of %s cannot be determined" % p[1]
            cf = self.h.structs[cname]
            if self.pack(p[1]): return "%s changes the packing" % p[1]
            if len(fs) != len(cf): return "struct %s has %d fields in C, %d in %s" % (cname, len(cf), len(fs), p[1])
            cn = {n.lower(): i for i, (n, _) in enumerate(cf)}
            for i, ((n, t, k), (fn, ft)) in enumerate(zip(fs, cf)):
                if k != 2: return "%s.%s is a bit field" % (p[1], n)
                if n.lower() in cn and cn[n.lower()] != i: return "%s.%s is field %d, in C %s is field %d" % (p[1], n, i, fn, cn[n.lower()])
                w = self.same(self.h.parse(ft), t)
                if w: return "field %s.%s: %s" % (p[1], n, w)
        finally: self.busy.discard((cname, p[1]))
        return None

def show(p):
    if p[0] == "int": return "%d-byte %s integer" % (p[1], "signed" if p[2] else "unsigned")
    if p[0] == "ptr": return "pointer to " + (show(p[1]) if p[1] else "?")
    if p[0] == "struct": return "struct " + p[1]
    return {"void": "no value", "voidp": "void*", "charp": "char*", "char": "char", "pyobj": "Python object", "fun": "callback"}.get(p[0], str(p))

def natives_called(m):
    """(native name, line, arg count or None) for every native call expression in the module, also through local aliases"""
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            f = n.func
            name = None
            if isinstance(f, ast.Attribute) and f.attr.startswith("lg_"): name = f.attr
            if name:
                star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
                out.append((name, m.line(n), None if star else len(n.args) + len(n.keywords)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith("lg_"):
            out.append((n.value, m.line(n), None))
        elif isinstance(n, ast.Attribute) and n.attr.startswith("lg_"): out.append((n.attr, m.line(n), None))
    return out

def g01():
    r = R(); h = capi.Headers(); m = pyabs.Module(PY); c = Compat(h, m)
    for name, p in sorted(m.protos.items()):
        if "argtypes" not in p and "restype" not in p: continue
        ex = name in h.funcs
        r.ob("exists", name, p["line"], ex, "%s is declared in the C headers" % name if ex else "%s does not exist in the C API" % name)
        if not ex: continue
        ret, args = h.fun(name)
        if "restype" not in p: w = None if ret == ("int", 4, True) else "no result type declared (C int assumed)"
        else: w = c.same(ret, ("void",) if p["restype"] == NONE else m.astype(p["restype"]))
        r.ob("result", name, p["line"], w is None, "result type agrees with the C header" if w is None else "result: " + w)
        if "argtypes" not in p: continue
        at = p["argtypes"]
        if at[0] != "seq":
            r.ob("arguments", name, p["line"], False, "argument types cannot be determined"); continue
        ok = len(at[1]) == len(args)
        r.ob("arguments", name, p["line"], ok, "%d parameters" % len(args) if ok else "%d parameters in C, %d in Python" % (len(args), len(at[1])))
        for i, (a, b) in enumerate(zip(args, at[1])):
            w = c.same(a, m.astype(b))
            pn = h.funcs[name][1][i][0]
            r.ob("argument", "%s.%d.%s" % (name, i, pn), p["line"], w is None,
                 "parameter '%s' has the C type" % pn if w is None else "parameter '%s': %s" % (pn, w))
    for pyc, cs in sorted(c.pairs.items()):
        w = c.struct(cs, ("struct", pyc))
        r.ob("struct", "%s=%s" % (pyc, cs), m.line(m.classes[pyc]["node"]), w is None, "same fields as %s" % cs if w is None else w)
    seen = set()
    for name, line, n in natives_called(m):
        p = m.protos.get(name, {})
        ex = name in h.funcs
        full = "argtypes" in p and "restype" in p
        need = len(h.funcs[name][1]) if ex else -1
        ok = ex and full and (n is None or n == need)
        key = "%s/%s" % (name, n)
        if key in seen and ok: continue
        seen.add(key)
        r.ob("call", key, line, ok, "call of a function with declared types and %d arguments" % need if ok else
             ("%s does not exist in the C API" % name if not ex else "%s is used without declared argument and result types" % name if not full
              else "%s takes %d arguments, %d given" % (name, need, n)))
    r.counts = {"prototypes": len(m.protos), "structs": len(c.pairs), "api_functions": len(h.funcs)}
    return r.out()

# ---------------------------------------------------------------- G02
ERR = ("ptr", ("ptr", ("struct", "LG_Error")))

class Handles:
    def __init__(self):
        self.h = capi.Headers(); self.m = pyabs.Module(PY)
        self.makers, self.rel = self.h.makers()
        self.make_of = {f: k for k, fs in self.makers.items() for f in fs}
        m = self.m
        self.open = {}      # class -> list of (state, obj, attr, handle value, kind, rel function)
        for c in m.classes:
            if m.isstruct(c): continue
            ctor, _ = m.lookup(c, "__init__")
            if ctor is None or ctor[0] != "fn": continue
            st = pyabs.State()
            for o in [o for args in m.argsets(ctor) for o in m.call(("cls", c), args, {}, {}, st, None)]:
                if o[0] != "val": continue
                obj = o[1]; at = o[3].heap[obj[1]]
                for a, v in at.items():
                    k, rel = self.kind(v)
                    if k and (v[0] != "nat" or o[3].assume.get(v) is not False):
                        if not any(ob[2] == a and ob[3] == v for ob in self.open.get(c, [])):
                            self.open.setdefault(c, []).append((o[3], obj, a, v, k, rel))
        # keep only one state per way of making the handle
        self.bykind = {}
        for c, l in self.open.items():
            for x in l: self.bykind.setdefault(x[4], set()).add(c)

    def kind(self, v):
        if v[0] == "nat" and v[1] in self.make_of: k = self.make_of[v[1]]; return k, self.rel.get(k)
        if v[0] == "inst" and v[1][0] == "ptr" and v[1][1] is not None and v[1][1][0] == "struct":
            return "error", "lg_free_error"
        return None, None

    def opened(self, x):
        """(state with the handle known to be non-null, obj, handle)"""
        st, obj, a, v, k, rel = x
        s = st.copy(); s.ev = []; s.assume[v] = True
        return s, obj, v

    def closed(self, x):
        st, obj, a, v, k, rel = x
        s = st.copy(); s.ev = []; s.heap[obj[1]][a] = NONE
        return s, obj

    def methods(self, c):
        seen = {}
        for k in self.m.mro(c):
            for n, v in self.m.classes[k]["attrs"].items():
                f = v[1] if v[0] in ("property",) else v
                if n not in seen and f[0] == "fn": seen[n] = f
        return seen

    def run(self, st, obj, f, skip=1):
        return [o for args in self.m.argsets(f, skip) for o in self.m.call(("bm", f, obj), args, {}, {}, st, None)]

    def guards(self, c):
        """methods of c that always raise when the handle is closed; those that also return the handle when open"""
        g, get = set(), set()
        for n, f in self.methods(c).items():
            if n.startswith("__"): continue
            try:
                ok = all(all(o[0] == "raise" for o in self.run(*self.closed(x), f)) for x in self.open[c])
                if ok:
                    g.add(n)
                    if all(all(o[0] == "val" and o[1] == v for o in self.run(s, obj, f)) for x in self.open[c] for s, obj, v in [self.opened(x)]):
                        get.add(n)
            except pyabs.TooComplex: pass
        return g, get

def g02():
    r = R(); H = Handles(); m = H.m; h = H.h
    need = {k for k, fs in H.makers.items() if any(f in {n for n, _, _ in natives_called(m)} for f in fs)}
    for k in sorted(need):
        ok = k in H.bykind
        r.ob("owner", k, PY, ok, "handles of kind %s are owned by class %s" % (k, "/".join(sorted(H.bykind.get(k, [])))) if ok else
             "no class stores the handles of kind %s in a way that can be followed" % k)
    gs = {c: H.guards(c) for c in H.open}
    def getter(kind): return set.intersection(*[gs[c][1] for c in H.bykind[kind]]) if kind in H.bykind else set()
    def guard(kind): return set.intersection(*[gs[c][0] for c in H.bykind[kind]]) if kind in H.bykind else set()

    for c in sorted(H.open):
        for x in H.open[c]:
            st0, obj, a, v, kind, rel = x
            how = v[1] if v[0] == "nat" else "null error pointer"
            w = m.line(m.classes[c]["node"])
            # --- close
            f, owner = m.lookup(c, "close")
            key = "%s(%s)" % (c, how)
            if f is None or f[0] != "fn":
                r.ob("close", key, w, False, "%s has no close method" % c); continue
            def finals(fn, args):
                """(problem or None) for running fn on the open object"""
                s, o, hv = H.opened(x)
                outs = list(m.call(("bm", fn, o), args, {}, {}, s, None))
                if not outs: return "does not return"
                for out in outs:
                    evs = [e for e in out[3].ev if e[0] == "native"]
                    freed = [e for e in evs if hv in e[2] and e[1] in H.rel.values() or (hv in e[2] and e[1].startswith("lg_free"))]
                    if len(freed) != 1: return "on some path the handle is released %d times" % len(freed)
                    if freed[0][1] != rel: return "the handle made by %s is released with %s instead of %s" % (how, freed[0][1], rel)
                    later = evs[evs.index(freed[0]) + 1:]
                    if any(hv in e[2] for e in later): return "the handle is used after its release"
                    if out[3].heap[o[1]].get(a) == hv or any(val == hv for val in out[3].heap[o[1]].values()): return "the object still holds the handle after close"
                    # again
                    s2 = out[3].copy(); s2.ev = []
                    for o2 in m.call(("bm", f, o), [], {}, {}, s2, None):
                        for e in o2[3].ev:
                            if e[0] == "native" and any(ar == hv for ar in e[2]): return "a second close releases the handle again"
                return None
            p = finals(f, [])
            r.ob("close", key, m.line(m.fns[f[1]][0]), p is None, "close() releases the handle once with %s, forgets it, and can be repeated" % rel if p is None else p)
            en, _ = m.lookup(c, "__enter__"); ex, _ = m.lookup(c, "__exit__")
            if en and ex:
                s, o, hv = H.opened(x)
                ok = all(q[0] == "val" and q[1] == o for q in m.call(("bm", en, o), [], {}, {}, s, None))
                r.ob("enter", key, m.line(m.fns[en[1]][0]), ok, "entering a with-block gives the object itself" if ok else "__enter__ does not return the object")
                for what, args in (("normally", [NONE] * 3), ("by exception", [("ext", "e", None, i) for i in (-1, -2, -3)])):
                    p = finals(ex, args)
                    r.ob("exit", key + " " + what, m.line(m.fns[ex[1]][0]), p is None, "leaving a with-block %s closes the object" % what if p is None else p)
            else: r.ob("enter", key, w, False, "%s cannot be used in a with-block" % c)
            # --- other methods
            for n, f in sorted(H.methods(c).items()):
                if n in ("close", "__init__", "__enter__", "__exit__", "__bool__"): continue
                s, o, hv = H.opened(x)
                try: outs = H.run(s, o, f)
                except pyabs.TooComplex as e:
                    r.ob("use", "%s.%s" % (key, n), m.line(m.fns[f[1]][0]), False, str(e)); continue
                used = check_uses(r, H, c, n, f, outs, hv, kind, getter, guard, key)
                if not used: continue
                s, o = H.closed(x)
                bad = None
                for out in H.run(s, o, f):
                    for e in out[3].ev:
                        if e[0] != "native" or e[1].startswith("lg_free") or e[1].startswith("lg_destroy"): continue
                        bad = bad or "%s is called although the handle is closed" % e[1]
                    if out[0] != "raise" and kind != "error" and ("loop0",) not in out[3].ev: bad = bad or "no exception is raised when the handle is closed"
                r.ob("closed", "%s.%s" % (key, n), m.line(m.fns[f[1]][0]), bad is None, "raises before anything native is called when the handle is closed" if bad is None else bad)
    # --- constructors and plain functions
    for c in sorted(m.classes):
        if m.isstruct(c): continue
        ctor, k = m.lookup(c, "__init__")
        if ctor and ctor[0] == "fn" and k == c:
            st = pyabs.State()
            outs = [o for args in m.argsets(ctor) for o in m.call(("cls", c), args, {}, {}, st, None)]
            check_uses(r, H, c, "__init__", ctor, outs, None, None, getter, guard, c)
    for n, f in sorted(m.glob.items()):
        if f[0] != "fn": continue
        st = pyabs.State()
        m.forking = True
        try: outs = list(m.call(f, m.paramvals(f, 0), {}, {}, st, None))
        except pyabs.TooComplex as e: continue
        finally: m.forking = False
        check_uses(r, H, None, n, f, outs, None, None, getter, guard, n)
        # objects created inside a function and not returned must be closed on every path
        leak = None
        for o in outs:
            objs = {("obj", i) for i, at in o[3].heap.items() if at["__class__"] in H.open}
            kept = roots(o[1]) if o[0] == "val" else set()
            for ob in objs:
                if ob in kept: continue
                for a, v in o[3].heap[ob[1]].items():
                    k, _ = H.kind(v)
                    if k and k != "error": leak = "an object of class %s made here is neither closed nor returned on some path" % o[3].heap[ob[1]]["__class__"]
        if any(at["__class__"] in H.open for o in outs for at in o[3].heap.values()):
            r.ob("scope", n, m.line(m.fns[f[1]][0]), leak is None, "every handle object made here is closed or returned on every path" if leak is None else leak)
    # --- memory handed out through an output parameter is released once on every path
    outparams = {}
    for fn in h.funcs:
        for i, t in enumerate(h.fun(fn)[1]):
            if t[0] == "ptr" and t[1][0] == "ptr" and t[1] != ERR[1]:
                for g in h.funcs:
                    if g.startswith("lg_free_") and h.fun(g)[1] == [t[1]] and fn in ("lg_hit_context", "lg_read_window"):
                        outparams[(fn, i)] = g
    for c in [None] + sorted(H.open):
        for x in (H.open[c] if c else [None]):
            for n, f in (sorted(H.methods(c).items()) if c else sorted((k, v) for k, v in m.glob.items() if v[0] == "fn")):
                m.forking = True
                try:
                    if c:
                        s, o, hv = H.opened(x); outs = H.run(s, o, f)
                    else: outs = list(m.call(f, m.paramvals(f, 0), {}, {}, pyabs.State(), None))
                except pyabs.TooComplex: continue
                finally: m.forking = False
                prob, any_ = None, False
                for out in outs:
                    evs = [e for e in out[3].ev if e[0] == "native"]
                    for i, e in enumerate(evs):
                        for j, ar in enumerate(e[2]):
                            g = outparams.get((e[1], j))
                            if g:
                                any_ = True
                                if ar[0] != "ref": prob = "output argument of %s is not passed by reference" % e[1]; continue
                                k = sum(1 for d in evs[i + 1:] if d[1] == g and ar[1] in d[2])
                                if k != 1: prob = "what %s hands out is released %d times on a path that ends by %s" % (e[1], k, "return" if out[0] == "val" else "exception")
                            if j < len(h.funcs.get(e[1], (0, []))[1]) and h.fun(e[1])[1][j] == ERR and ar[0] == "ref":
                                any_ = True
                                k = sum(1 for d in evs[i + 1:] if d[1] == "lg_free_error" and ar[1] in d[2])
                                if k != 1: prob = "the error list filled by %s is released %d times on a path that ends by %s" % (e[1], k, "return" if out[0] == "val" else "exception")
                if any_: r.ob("outputs", "%s.%s" % (c or "module", n), m.line(m.fns[f[1]][0]), prob is None, "what native calls hand out is released once on every path" if prob is None else prob)
    r.counts = {"handle_classes": len(H.open), "kinds": len(need)}
    return r.out()

def check_uses(r, H, c, n, f, outs, hv, kind, getter, guard, key):
    """every handle passed to a native function is a checked one of the right kind"""
    h, m = H.h, H.m
    bad, used, sites = None, False, set()
    for out in outs:
        evs = out[3].ev
        for i, e in enumerate(evs):
            if e[0] != "native" or e[1] not in h.funcs: continue
            args = h.fun(e[1])[1]
            for j, v in enumerate(e[2]):
                if j >= len(args): continue
                k = h.handle_kind(args[j])
                if not k: 
                    if hv is not None and (v == hv or v == ("ref", hv)): used = True
                    continue
                if e[1] in H.rel.values(): continue
                sites.add((e[1], j))
                if hv is not None and v == hv:
                    used = True
                    if k != kind: bad = bad or "a %s is passed to %s where a %s is expected" % (kind, e[1], k)
                    continue
                vk, _ = H.kind(v)
                if vk:
                    if vk != k: bad = bad or "a %s is passed to %s where a %s is expected" % (vk, e[1], k)
                    elif out[3].assume.get(v) is False: bad = bad or "a null handle is passed to %s" % e[1]
                    continue
                if v == NONE: bad = bad or "a closed handle is passed to %s" % e[1]; continue
                if v[0] == "mcall":
                    if v[2] in getter(k): continue
                    bad = bad or "the handle passed to %s comes from %s(), which does not refuse a closed one" % (e[1], v[2]); continue
                bad = bad or "the %s passed to %s (%s) is not checked to be open" % (k, e[1], v[0] if v[0] != "attr" else "." + v[2])
            # searching needs the program too
            if e[1] in ("lg_search", "lg_starts_with", "lg_search_resolve", "lg_closeout_search") and hv is not None:
                progs = {a for a in out[3].heap.values() for a in a.values() if isinstance(a, tuple) and a[0] == "ext"}
                before = [d for d in evs[:i] if d[0] == "mcall" and d[1] in progs and d[2] in guard("ProgramHandle")]
                if not before: bad = bad or "%s is called without checking that the program is still open" % e[1]
    if sites or bad:
        r.ob("use", "%s.%s" % (key, n) if key != n else n, m.line(m.fns[f[1]][0]), bad is None,
             "%d handle arguments are open and of the right kind" % len(sites) if bad is None else bad)
    return used

# ---------------------------------------------------------------- E03 (Python)
def e03():
    r = R(); H = Handles(); m = H.m
    n = 0
    for c in sorted(H.open):
        for x in H.open[c]:
            st, obj, a, v, kind, rel = x
            if v[0] != "nat" or v[1] != "lg_read_program": continue
            n += 1
            ev = [e for e in st.ev if e[0] == "native" and e[3] == v][0]
            src = roots(ev[2][0], st.taint)
            keep = None
            for an, av in st.heap[obj[1]].items():
                if av[0] == "callv" and av[1] == "memoryview" and av[2] and av[2][0] in src: keep = (an, av)
                elif av in src and (av[0] == "callv" and av[1] in ("bytes",) or (av[0] == "mcall" and av[2] == "from_buffer")): keep = (an, av)
            r.ob("python retains", c, ev[4], keep is not None, "the program object keeps the exported buffer in .%s" % keep[0] if keep else
                 "nothing keeps the buffer given to lg_read_program alive and in place")
            if not keep: continue
            f, _ = m.lookup(c, "close")
            bad = None
            s, o, hv = H.opened(x)
            for out in m.call(("bm", f, o), [], {}, {}, s, None):
                done = False
                for e in out[3].ev:
                    if e[0] == "native" and hv in e[2] and e[1] == rel: done = True
                    if e[0] == "set" and e[1] == obj and e[2] == keep[0] and not done: bad = "the buffer is let go before the program is destroyed"
                    if e[0] == "mcall" and e[1] == keep[1] and not done: bad = "the buffer may be released before the program is destroyed"
            r.ob("python order", c, m.line(m.fns[f[1]][0]), bad is None, "the buffer is let go only after the program is destroyed" if bad is None else bad)
            for mn, mf in sorted(H.methods(c).items()):
                if mn in ("close", "__init__", "__exit__"): continue
                s, o, hv = H.opened(x)
                if any(e[0] == "set" and e[1] == obj and e[2] == keep[0] for out in H.run(s, o, mf) for e in out[3].ev):
                    r.ob("python other", "%s.%s" % (c, mn), m.line(m.fns[mf[1]][0]), False, "%s replaces the kept buffer" % mn)
    # every call of lg_read_program in the module goes through such a class
    for name, line, k in natives_called(m):
        if name == "lg_read_program": r.counts["reads"] = r.counts.get("reads", 0) + 1
    if n == 0: r.ob("python retains", "lg_read_program", PY, False, "no class owns the programs made by lg_read_program")
    return r.out()

if __name__ == "__main__":
    import sys
    x = {"g01": g01, "g02": g02, "e03": e03}[sys.argv[1]]()
    for o in x["obligations"]:
        if not o["ok"] or len(sys.argv) > 2: print("ok " if o["ok"] else "BAD", o["rule"], o["key"], "|", o["where"], "|", o["msg"])
    print(len(x["obligations"]), x["counts"])
