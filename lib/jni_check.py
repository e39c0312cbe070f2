"""H01: the native code of the Java binding against the compiled Java classes; H03: checks before native calls."""
import json, os, re, subprocess
import irbuild
from classfile import World, parse_desc, decode

LLT = {"J": "i64", "I": "i32", "S": "i16", "C": "i16", "B": "i8", "Z": "i8", "F": "float", "D": "double", "V": "void"}
VARARG = {"J": "i64", "I": "i32", "S": "i32", "C": "i32", "B": "i32", "Z": "i32", "F": "double", "D": "double"}
TYPES = {"Boolean": "Z", "Byte": "B", "Char": "C", "Short": "S", "Int": "I", "Long": "J", "Float": "F", "Double": "D", "Void": "V", "Object": "L"}

def mangle(s):
    r = ""
    for c in s:
        if c == "/": r += "_"
        elif c == "_": r += "_1"
        elif c == ";": r += "_2"
        elif c == "[": r += "_3"
        elif c.isascii() and c.isalnum(): r += c
        else: r += "_0%04x" % ord(c)
    return r

class Rep:
    def __init__(self): self.obs, self.counts = [], {}
    def ob(self, ok, rule, key, where, msg): self.obs.append({"ok": bool(ok), "rule": rule, "key": key, "where": where, "msg": msg})
    def out(self): return {"obligations": self.obs, "counts": self.counts, "notes": []}

def world():
    irbuild.prepare(); irbuild.jni_headers()
    return World(os.path.join(irbuild.GEN, "jcls"))

def jwhere(m, pc=None):
    f = "src/java/src/main/java/" + m.cls.name.split("$")[0] + ".java"
    l = 0
    for p, n in sorted(m.lines.items()):
        if pc is None or p <= pc: l = n
        if pc is None: break
    return "%s%s (%s.%s)" % (f, ":%d" % l if l else "", m.cls.name.split("/")[-1], m.name)

_jdk = {}
def jdk_class(n):
    if n not in _jdk:
        r = subprocess.run(["javap", "-cp", "/nonexistent", n.replace("/", ".")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        _jdk[n] = r.returncode == 0
    return _jdk[n]

def short(t): return "L" if t[0] in "L[" else t

def h01():
    import check
    W = world(); R = Rep()
    bc, srcs = irbuild.build("jni")
    facts = check.lgsa("jnifacts", bc=bc)["counts"]
    natives = {n["name"]: n for n in facts["natives"]}
    # ---- native methods have matching implementations
    jnat, of_root = [], {}
    for c in W.classes.values():
        nat = [m for m in c.methods if m.native]
        for m in nat:
            over = sum(1 for k in nat if k.name == m.name) > 1
            base = "Java_" + mangle(c.name) + "_" + mangle(m.name)
            full = base + "__" + mangle(m.desc[1:m.desc.index(")")])
            fn = natives.get(full) or (None if over else natives.get(base))
            key = "%s.%s%s" % (c.name.split("/")[-1], m.name, m.desc)
            if not fn:
                R.ob(False, "native-implemented", key, jwhere(m), "no exported C function named %s" % (full if over else base)); continue
            of_root[fn["name"]] = m
            ps, ret = parse_desc(m.desc)
            want = ["ptr", "ptr"] + [LLT.get(p, "ptr") for p in ps]
            wr = LLT.get(ret, "ptr")
            ok = fn["params"] == want and fn["ret"] == wr
            R.ob(ok, "native-signature", key, fn["where"], "parameters %s and result %s agree" % (", ".join(want), wr) if ok else
                 "the Java method takes %s and returns %s, the C function takes %s and returns %s" % (want, wr, fn["params"], fn["ret"]))
            jnat.append(m)
    # ---- values in the native code
    calls = {c["id"]: c for c in facts["calls"]}
    stores = {}
    for s in facts["stores"]: stores.setdefault(s["global"], []).append(s)

    def arg_class(root, i):
        """class of the i-th C argument of a native: (class name, is the class object itself)"""
        m = of_root.get(root)
        if not m: return None
        if i == 1: return ("class", m.cls.name) if m.static else ("obj", m.cls.name)
        ps, _ = parse_desc(m.desc)
        if 2 <= i < 2 + len(ps):
            t = ps[i - 2]
            return ("obj", t[1:-1] if t[0] == "L" else t)
        return None
    def klass(v, root, seen=()):
        """names of the classes a jclass value may denote; None if unknown"""
        if "any" in v:
            r = set()
            for x in v["any"]:
                k = klass(x, root, seen)
                if k is None: return None
                r |= k
            return r
        if "null" in v: return set()
        if "arg" in v:
            a = arg_class(root, v["arg"])
            return {a[1]} if a and a[0] == "class" else None
        if "global" in v:
            if v["global"] in seen: return set()
            r = set()
            for s in stores.get(v["global"], []):
                k = klass(s["value"], s["root"], seen + (v["global"],))
                if k is None: return None
                r |= k
            return r or None
        if "call" in v:
            c = calls[v["call"]]
            if c["fn"] == "FindClass": return {c["args"][1]["str"]} if "str" in c["args"][1] else None
            if c["fn"] in ("NewGlobalRef", "NewLocalRef", "NewWeakGlobalRef"): return klass(c["args"][1], c["root"], seen)
            if c["fn"] == "GetObjectClass":
                o = objclass(c["args"][1], c["root"]); return {o} if o else None
            if c["fn"] == "GetSuperclass":
                k = klass(c["args"][1], c["root"], seen)
                return {W.classes[x].super for x in k if x in W.classes} if k else None
        return None
    def objclass(v, root):
        if "arg" in v:
            a = arg_class(root, v["arg"])
            return a[1] if a and a[0] == "obj" else None
        if "call" in v:
            c = calls[v["call"]]
            if c["fn"].startswith("NewObject"):
                k = klass(c["args"][1], c["root"]); return next(iter(k)) if k and len(k) == 1 else None
            if c["fn"].startswith("NewString"): return "java/lang/String"
        return None
    def ids(v, root, seen=()):
        """the Get*ID calls a jfieldID/jmethodID value comes from; None if unknown"""
        if "any" in v:
            r = []
            for x in v["any"]:
                k = ids(x, root, seen)
                if k is None: return None
                r += k
            return r
        if "null" in v: return []
        if "call" in v:
            c = calls[v["call"]]
            return [c] if re.match(r"Get(Static)?(Field|Method)ID$", c["fn"]) else None
        if "global" in v:
            if v["global"] in seen: return []
            r = []
            for s in stores.get(v["global"], []):
                k = ids(s["value"], s["root"], seen + (v["global"],))
                if k is None: return None
                r += k
            return r
        return None
    # ---- lookups
    n = 0
    for c in calls.values():
        fn, a, w = c["fn"], c["args"], c["where"]
        if fn == "FindClass":
            s = a[1].get("str")
            if s is None: R.ob(False, "class-exists", c["root"] + ":FindClass", w, "the class name is not a constant"); continue
            ok = s in W.classes or (not s.startswith("com/lightboxtechnologies/") and jdk_class(s))
            R.ob(ok, "class-exists", "%s:%s" % (c["root"], s), w, "class %s %s" % (s, "exists" if ok else "does not exist"))
        m = re.match(r"Get(Static)?(Field|Method)ID$", fn)
        if m:
            st, kind = bool(m.group(1)), m.group(2)
            ks = klass(a[1], c["root"]); nm, sg = a[2].get("str"), a[3].get("str")
            key = "%s:%s %s" % (c["root"], nm, sg)
            if not ks or nm is None or sg is None:
                R.ob(False, "member-exists", key, w, "cannot tell which class, name or signature is looked up"); continue
            for k in sorted(ks):
                if k not in W.classes: R.ob(False, "member-exists", key, w, "class %s is not one of the binding's" % k); continue
                if kind == "Field":
                    f = W.find_field(k, nm, sg); ok = bool(f) and bool(f[1] & 8) == st
                else:
                    f = [x for x in W.classes[k].methods if x.name == nm and x.desc == sg] if nm == "<init>" else [W.find_method(k, nm, sg)]
                    f = f[0] if f else None
                    ok = bool(f) and f.static == st
                R.ob(ok, "member-exists", key, w, "%s.%s %s %s" % (k, nm, sg, "exists" if ok else "does not exist (or is static where it should not be)"))
    # ---- uses
    for c in calls.values():
        fn, a, w = c["fn"], c["args"], c["where"]
        m = re.match(r"(Get|Set)(Static)?(%s)Field$" % "|".join(TYPES), fn)
        mc = re.match(r"Call(Static|Nonvirtual)?(%s)Method([VA]?)$" % "|".join(TYPES), fn)
        mn = re.match(r"NewObject([VA]?)$", fn)
        if not (m or mc or mn): continue
        idpos = 3 if mc and mc.group(1) == "Nonvirtual" else 2
        src = ids(a[idpos], c["root"])
        key = "%s:%s(%s)" % (c["root"], fn, a[idpos].get("global", "?"))
        if not src:
            R.ob(False, "member-type", key, w, "the field or method ID is never looked up" if src == [] else "cannot tell where the field or method ID comes from"); continue
        for s in src:
            ks, nm, sg = klass(s["args"][1], s["root"]) or set(), s["args"][2].get("str"), s["args"][3].get("str") or "?"
            bad = []
            if m:
                if s["fn"] != "Get%sFieldID" % (m.group(2) or ""): bad.append("the ID is of another kind")
                if short(sg) != TYPES[m.group(3)]: bad.append("field %s has type %s" % (nm, sg))
            else:
                ps, ret = parse_desc(sg) if sg.startswith("(") else ([], "?")
                if not sg.startswith("("): bad.append("the ID is not a method's")
                if mc and short(ret) != TYPES[mc.group(2)]: bad.append("method %s returns %s" % (nm, ret))
                if mn and nm != "<init>": bad.append("%s is not a constructor" % nm)
                if mn:
                    kc = klass(a[1], c["root"])
                    if kc is None or (ks and kc != ks): bad.append("the object is of class %s, the constructor of %s" % (sorted(kc or []) or "unknown", sorted(ks)))
                if not (mc or mn).groups()[-1]:
                    got = [x["type"] for x in a[idpos + 1:]]
                    want = [VARARG.get(p, "ptr") for p in ps]
                    if got != want: bad.append("arguments are %s, %s takes %s" % (got, sg, want))
            if (m or mc) and not (m and m.group(2)) and not (mc and mc.group(1) == "Static"):
                o = objclass(a[1], c["root"])
                if o and ks and not any(k in W.supers(o) for k in ks): bad.append("the object's class %s has no such member (it is %s's)" % (o, sorted(ks)))
            R.ob(not bad, "member-type", key, w, "%s %s used as its type says" % (nm, sg) if not bad else "; ".join(bad))
    # ---- IDs are initialised before any native method can run
    ini = {}
    for g, ss in stores.items():
        for s in ss:
            v = s["value"]
            if "call" in v and re.match(r"Get(Static)?(Field|Method)ID$|NewGlobalRef|FindClass", calls[v["call"]]["fn"]): ini.setdefault(s["root"], set()).add(g)
    used = {}
    for c in calls.values():
        for x in c["args"]:
            if "global" in x: used.setdefault(x["global"], set()).add(c["root"])
    # what each static initialiser reaches
    def reach(m0):
        seen, wl, order = set(), [m0], []
        while wl:
            m = wl.pop(0)
            if id(m) in seen: continue
            seen.add(id(m)); order.append(m)
            if not m.code: continue
            for pc, (op, arg, _) in sorted(decode(m.code).items()):
                if op in (0xb8, 0xb7, 0xb6):
                    cl, nm, ds = m.cls.ref(arg[0])
                    t = W.find_method(cl, nm, ds)
                    if t: wl.append(t)
                    else: order.append((cl, nm, ds))
        return order
    for cn in sorted(W.classes):
        c = W.classes[cn]
        if not any(m.native for m in c.methods): continue
        order = []
        for s in W.supers(cn):
            if s in W.classes:
                for m in W.classes[s].methods:
                    if m.name == "<clinit>": order += reach(m)
        loads = any(isinstance(x, tuple) and x[0] == "java/lang/System" and x[1] in ("loadLibrary", "load") for x in order)
        R.ob(loads, "library-loaded", cn.split("/")[-1], "src/java/src/main/java/%s.java" % cn, "the static initialiser %s the native library" % ("loads" if loads else "never loads"))
        called = {id(m) for m in order if not isinstance(m, tuple)}
        for root, gs in sorted(ini.items()):
            if root.startswith("JNI_On"): continue
            m = of_root.get(root)
            us = sorted(g for g in gs if g in used)
            if not us: continue
            ok = m is not None and m.static and id(m) in called
            R.ob(ok, "ids-initialised", "%s before %s" % (root, cn.split("/")[-1]), natives.get(root, {}).get("where", root),
                 "%s runs in the static initialiser of %s and sets %s" % (root, cn, ", ".join(us)) if ok else
                 "%s, which sets %s, %s" % (root, ", ".join(us), "is not called when class %s is initialised" % cn if m else "is not a native method of any class"))
    for g, us in sorted(used.items()):
        ok = any(g in gs for gs in ini.values())
        R.ob(ok, "id-set", g, sorted(us)[0], "set by " + ", ".join(sorted(r for r, gs in ini.items() if g in gs)) if ok else "used by %s but never set" % ", ".join(sorted(us)))
    R.counts.update(native_methods=len(jnat), classes=len(W.classes), jni_calls=len(calls))
    return R.out()

# ------------------------------------------------------------------ H03
# index and size arguments of natives, by position (Java parameters); None: any value
INDEX = {"getPatternInfoImpl": [0], "getUserIndexImpl": [0], "setUserIndexImpl": [0], "create": "all"}
def h03():
    import check
    from jvm_abs import Eval, State, TooComplex
    from linear import proves, con
    W = world(); R = Rep()
    bc, srcs = irbuild.build("jni")
    facts = check.lgsa("jnifacts", bc=bc)["counts"]
    natives = {n["name"]: n for n in facts["natives"]}
    calls = {c["id"]: c for c in facts["calls"]}
    root = {}
    for c in W.classes.values():
        for m in c.methods:
            if m.native:
                base = "Java_" + mangle(c.name) + "_" + mangle(m.name)
                root[id(m)] = next((x for x in (base + "__" + mangle(m.desc[1:m.desc.index(")")]), base) if x in natives), None)
    handles = {c for c in W.classes if "com/lightboxtechnologies/lightgrep/Handle" in W.supers(c)}
    opens, frees = {}, {}
    for c in facts["calls"]:
        if c["fn"] == "GetLongField" and "arg" in c["args"][1]: opens.setdefault(c["root"], set()).add(c["args"][1]["arg"])
        if c["fn"].startswith("Set") and c["fn"].endswith("Field") and "arg" in c["args"][1]: frees.setdefault(c["root"], set()).add(c["args"][1]["arg"])
    # what every native call needs
    def needs(m):
        ps, _ = parse_desc(m.desc); r = []; k0 = 0 if m.static else 1
        rt = root[id(m)]
        for i, d in enumerate((["L" + m.cls.name + ";"] if k0 else []) + ps):
            if d[0] not in "L[": continue
            carg = 1 if k0 and i == 0 else i - k0 + 2
            r.append(("nonnull", i))
            if d[1:-1] in handles and carg in opens.get(rt, ()) and m.name != "destroy": r.append(("open", i))
        for i, d in enumerate(ps):
            if d in ("[B", "Ljava/nio/ByteBuffer;") and ps[i+1:i+3] == ["I", "I"]:
                r.append(("range", i + k0, i + k0 + 1, i + k0 + 2))
                if ps[i+3:i+4] == ["J"]: r.append(("natural", i + k0 + 3))
                if ps[i+3:i+6] == ["J", "J", "J"]: r.append(("hit", i + k0 + 2, i + k0 + 3, i + k0 + 4, i + k0 + 5))
                if ps[i+3:] == ["J", "J", "J", "Ljava/lang/String;", "I", "I"]: r.append(("natural", i + k0 + 7))
            elif d == "[B" and ps[i+1:i+2] == ["I"]: r.append(("room", i + k0, i + k0 + 1))
            if d == "Ljava/nio/ByteBuffer;": r.append(("direct", i + k0))
        ix = INDEX.get(m.name, [])
        for i in range(len(ps)) if ix == "all" else ix:
            if i < len(ps) and ps[i] in "IJ": r.append(("natural", i + k0))
        return r
    POINTER = "Pointer"
    def handle_field(S, o):
        return S.heap.get((o, POINTER))
    def holds(E, S, m, args, n):
        le = S.le
        if n[0] == "nonnull": return E.isnull(S, args[n[1]]) is False
        if n[0] == "open":
            p = handle_field(S, args[n[1]])
            return p is not None and (le(con(1), p) or le(p, con(-1)))
        if n[0] == "natural": return le(con(0), args[n[1]])
        if n[0] == "direct": return le(con(1), (E.buf(S, args[n[1]], "pos"), S.memo[("isDirect", args[n[1]])])[1])
        if n[0] == "range":
            b, o, z = args[n[1]], args[n[2]], args[n[3]]
            if S.typ.get(b) == "Ljava/nio/ByteBuffer;" or parse_desc(m.desc)[0][n[1] - (0 if m.static else 1)] != "[B":
                end = E.buf(S, b, "pos") + E.buf(S, b, "rem")
                if not le(E.buf(S, b, "pos"), o): return False
            else:
                end = E.alen(S, b)
                for (k, bb), v in [x for x in S.memo.items() if len(x[0]) == 2]:
                    if k == "arr" and v == b:      # the array behind a buffer: exactly its remaining bytes
                        st = S.memo[("off", bb)] + E.buf(S, bb, "pos"); end = st + E.buf(S, bb, "rem")
                        if not (le(st, o) and le(o, st)): return False
            return le(con(0), o) and le(con(0), z) and le(o + z, end)
        if n[0] == "hit":
            z, s, b, e = (args[k] for k in n[1:])
            return le(s, b) and le(b, e) and le(e, s + z)
        if n[0] == "room":
            b, o = args[n[1]], args[n[2]]
            if not le(con(0), o): return False
            k = [v for kk, v in S.memo.items() if kk[0] == "native" and kk[1].endswith(".sizeImpl") and kk[2] == (str(args[0]),)]
            return any(le(o + v, E.alen(S, b)) for v in k)
    TEXT = {"nonnull": "argument %s is not null", "open": "the handle in argument %s is open", "natural": "argument %s is not negative", "direct": "the buffer in argument %s is direct",
            "range": "offset and size lie in the buffer (arguments %s)", "hit": "start and end of the hit lie in the buffer (arguments %s)", "room": "the program fits into the buffer after the offset (arguments %s)"}
    verdict, seen_native, curr = {}, set(), [None]
    def on_native(E, S, m, args, stack):
        seen_native.add(id(m))
        for n in needs(m):
            key = (curr[0], m, n)
            ok = holds(E, S, m, args, n)
            pm, pc = stack[-1] if stack else (m, None)
            w = jwhere(pm, pc)
            v = verdict.setdefault(key, [True, w, 0]); v[2] += 1
            if not ok and v[0]: v[0], v[1] = False, w
    paths = 0
    for cn in sorted(W.classes):
        for m in W.classes[cn].methods:
            if m.abstract or (m.private and not m.native) or m.name == "<clinit>": continue
            if m.private: continue
            curr[0] = m
            E = Eval(W, on_native)
            E.mutating = lambda x: bool(frees.get(root[id(x)])) or "HitCallback" in x.desc
            S = State(); args = []
            ps, _ = parse_desc(m.desc)
            if not m.static:
                o = E.obj(S, "L" + cn + ";", "this"); args.append(o)
            for i, d in enumerate(ps): args.append(E.fresh(S, d, "arg%d" % i))
            if m.native and m.name == "destroy" or (m.native and m.static and not ps): continue
            try:
                for s, kind, v in E.call(m, args, S): paths += 1
            except TooComplex as e:
                R.counts["methods_too_complex"] = R.counts.get("methods_too_complex", 0) + 1
                R.notes_ = getattr(R, "notes_", []) + ["%s: not decided (%s)" % (m.name, e)]
    for (m, nm, n), (ok, w, k) in sorted(verdict.items(), key=lambda x: (x[0][0].cls.name, x[0][0].name, x[0][0].desc, x[0][1].name, x[0][1].desc, str(x[0][2]))):
        t = TEXT[n[0]] % ", ".join(str(x) for x in n[1:])
        R.ob(ok, "checked-before-native", "%s.%s%s -> %s%s: %s" % (m.cls.name.split("/")[-1], m.name, m.desc, nm.name, nm.desc, n[0] + ",".join(map(str, n[1:]))), w,
             "%s on all %d ways to reach the native call" % (t, k) if ok else "%s.%s can reach the native method %s although it is not certain that %s" % (m.cls.name.split("/")[-1], m.name, nm.name, t))
    # the pointer of a destroyed handle is cleared
    for c in sorted(handles):
        for m in W.classes[c].methods:
            if not (m.native and m.name == "destroy"): continue
            rt = root[id(m)]
            st = [x for x in facts["calls"] if x["root"] == rt and x["fn"] == "SetLongField" and x["args"][1].get("arg") == 1 and x["args"][3].get("const") == 0 and x.get("always")]
            R.ob(bool(st), "destroy-clears-pointer", c.split("/")[-1], natives.get(rt, {}).get("where", rt or "?"), "the handle's pointer is set to 0 on every path" if st else "destroy() can return with the handle still pointing to the freed object")
    R.counts.update(paths=paths, natives_reached=len(seen_native))
    out = R.out(); out["notes"] = getattr(R, "notes_", [])
    return out
