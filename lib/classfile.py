"""Reads Java class files: constant pool, fields, methods and bytecode (no execution)."""
import glob, os, struct

class Method:
    def __init__(self, cls, flags, name, desc, code, exc):
        self.cls, self.flags, self.name, self.desc, self.code, self.exc = cls, flags, name, desc, code, exc
        self.lines = {}
    native = property(lambda s: bool(s.flags & 0x100))
    static = property(lambda s: bool(s.flags & 0x8))
    public = property(lambda s: bool(s.flags & 0x1))
    private = property(lambda s: bool(s.flags & 0x2))
    abstract = property(lambda s: bool(s.flags & 0x400))

class ClassFile:
    def __init__(self, path):
        self.path = path
        b = open(path, "rb").read(); self.b = b
        magic, mi, ma, n = struct.unpack_from(">IHHH", b, 0)
        assert magic == 0xCAFEBABE
        p = 10; cp = [None] * n; i = 1
        while i < n:
            t = b[p]; p += 1
            if t == 1:
                l, = struct.unpack_from(">H", b, p); cp[i] = ("utf8", b[p+2:p+2+l].decode("utf-8", "replace")); p += 2 + l
            elif t == 3: cp[i] = ("int", struct.unpack_from(">i", b, p)[0]); p += 4
            elif t == 4: cp[i] = ("float", struct.unpack_from(">f", b, p)[0]); p += 4
            elif t == 5: cp[i] = ("long", struct.unpack_from(">q", b, p)[0]); p += 8; i += 1
            elif t == 6: cp[i] = ("double", struct.unpack_from(">d", b, p)[0]); p += 8; i += 1
            elif t == 7: cp[i] = ("class", struct.unpack_from(">H", b, p)[0]); p += 2
            elif t == 8: cp[i] = ("string", struct.unpack_from(">H", b, p)[0]); p += 2
            elif t in (9, 10, 11): cp[i] = ("ref", *struct.unpack_from(">HH", b, p)); p += 4
            elif t == 12: cp[i] = ("nt", *struct.unpack_from(">HH", b, p)); p += 4
            elif t == 15: cp[i] = ("mh", b[p], struct.unpack_from(">H", b, p+1)[0]); p += 3
            elif t == 16: cp[i] = ("mt", struct.unpack_from(">H", b, p)[0]); p += 2
            elif t in (17, 18): cp[i] = ("indy", *struct.unpack_from(">HH", b, p)); p += 4
            elif t in (19, 20): cp[i] = ("mod", struct.unpack_from(">H", b, p)[0]); p += 2
            else: raise ValueError("constant pool tag %d" % t)
            i += 1
        self.cp = cp
        self.flags, this, sup, nif = struct.unpack_from(">HHHH", b, p); p += 8
        self.name = self.cls(this); self.super = self.cls(sup) if sup else None
        self.interfaces = [self.cls(struct.unpack_from(">H", b, p + 2*k)[0]) for k in range(nif)]; p += 2 * nif
        self.fields, self.methods = [], []
        nf, = struct.unpack_from(">H", b, p); p += 2
        for _ in range(nf):
            fl, nm, ds, na = struct.unpack_from(">HHHH", b, p); p += 8
            self.fields.append((fl, self.u(nm), self.u(ds)))
            for _ in range(na):
                _, l = struct.unpack_from(">HI", b, p); p += 6 + l
        nm_, = struct.unpack_from(">H", b, p); p += 2
        for _ in range(nm_):
            fl, nm, ds, na = struct.unpack_from(">HHHH", b, p); p += 8
            m = Method(self, fl, self.u(nm), self.u(ds), None, [])
            for _ in range(na):
                an, l = struct.unpack_from(">HI", b, p); p += 6
                if self.u(an) == "Code":
                    ms, ml, cl = struct.unpack_from(">HHI", b, p)
                    m.code = b[p+8:p+8+cl]
                    q = p + 8 + cl
                    ne, = struct.unpack_from(">H", b, q); q += 2
                    for _ in range(ne): m.exc.append(struct.unpack_from(">HHHH", b, q)); q += 8
                    nca, = struct.unpack_from(">H", b, q); q += 2
                    for _ in range(nca):
                        cn, c_l = struct.unpack_from(">HI", b, q); q += 6
                        if self.u(cn) == "LineNumberTable":
                            k, = struct.unpack_from(">H", b, q)
                            for z in range(k):
                                pc, ln = struct.unpack_from(">HH", b, q + 2 + 4*z); m.lines[pc] = ln
                        q += c_l
                p += l
            self.methods.append(m)
        self.source = None
    def u(self, i): return self.cp[i][1]
    def cls(self, i): return self.u(self.cp[i][1])
    def ref(self, i):
        _, c, nt = self.cp[i]; _, n, d = self.cp[nt]
        return self.cls(c), self.u(n), self.u(d)
    def indy(self, i):
        _, _, nt = self.cp[i]; _, n, d = self.cp[nt]
        return None, self.u(n), self.u(d)

def parse_desc(d):
    """method descriptor -> ([param descriptors], return descriptor)"""
    assert d[0] == "("
    i, ps = 1, []
    def one(i):
        s = i
        while d[i] == "[": i += 1
        if d[i] == "L": i = d.index(";", i)
        return d[s:i+1], i + 1
    while d[i] != ")":
        t, i = one(i); ps.append(t)
    return ps, d[i+1:]

class World:
    def __init__(self, root):
        self.classes = {}
        for f in sorted(glob.glob(os.path.join(root, "**/*.class"), recursive=True)):
            c = ClassFile(f); self.classes[c.name] = c
    def supers(self, n):
        r = []
        while n:
            r.append(n)
            c = self.classes.get(n)
            n = c.super if c else None
        return r
    def find_method(self, cls, name, desc):
        for n in self.supers(cls):
            c = self.classes.get(n)
            if not c: continue
            for m in c.methods:
                if m.name == name and m.desc == desc: return m
            for i in c.interfaces:
                m = self.find_method(i, name, desc)
                if m: return m
        return None
    def find_field(self, cls, name, desc):
        for n in self.supers(cls):
            c = self.classes.get(n)
            if c:
                for fl, nm, ds in c.fields:
                    if nm == name and ds == desc: return (c, fl, nm, ds)
        return None

OPS = {}
def _t(s):
    for k, v in s.items(): OPS[k] = v
# operand formats: '' none, b u1/i1, s i2/u2, w branch16, W branch32, c cp16, etc.
FORMAT = {0x10: "b", 0x11: "s", 0x12: "cb", 0x13: "c", 0x14: "c", 0xa9: "b", 0x84: "bb", 0xbc: "b", 0xbd: "c", 0xbb: "c", 0xc0: "c", 0xc1: "c",
          0xc4: "wide", 0xaa: "ts", 0xab: "ls", 0xb9: "c00", 0xba: "c00", 0xc5: "cb", 0xc8: "W", 0xc9: "W"}
for o in (0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a): FORMAT[o] = "b"
for o in list(range(0x99, 0xa9)) + [0xc6, 0xc7]: FORMAT[o] = "w"
for o in range(0xb2, 0xb9): FORMAT[o] = "c"

def decode(code):
    """pc -> (opcode, operands, next pc)"""
    out, p = {}, 0
    while p < len(code):
        op = code[p]; f = FORMAT.get(op, ""); q = p + 1; a = ()
        if f == "b": a = (code[q],); q += 1
        elif f == "s": a = struct.unpack_from(">h", code, q); q += 2
        elif f == "bb": a = (code[q], struct.unpack_from(">b", code, q+1)[0]); q += 2
        elif f == "c": a = struct.unpack_from(">H", code, q); q += 2
        elif f == "cb":
            if op == 0x12: a = (code[q],); q += 1
            else: a = (struct.unpack_from(">H", code, q)[0], code[q+2]); q += 3
        elif f == "c00": a = struct.unpack_from(">H", code, q); q += 4
        elif f == "w": a = (p + struct.unpack_from(">h", code, q)[0],); q += 2
        elif f == "W": a = (p + struct.unpack_from(">i", code, q)[0],); q += 4
        elif f == "wide":
            if code[q] == 0x84: a = (0x84,) + struct.unpack_from(">Hh", code, q+1); q += 5
            else: a = (code[q],) + struct.unpack_from(">H", code, q+1); q += 3
        elif f == "ts":
            q = (q + 3) & ~3
            d, lo, hi = struct.unpack_from(">iii", code, q); q += 12
            t = [p + struct.unpack_from(">i", code, q + 4*k)[0] for k in range(hi-lo+1)]; q += 4 * (hi-lo+1)
            a = (p + d, t)
        elif f == "ls":
            q = (q + 3) & ~3
            d, n = struct.unpack_from(">ii", code, q); q += 8
            t = [p + struct.unpack_from(">ii", code, q + 8*k)[1] for k in range(n)]; q += 8 * n
            a = (p + d, t)
        out[p] = (op, a, q); p = q
    return out
