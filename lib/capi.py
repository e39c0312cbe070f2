"""The C API as its headers declare it (types from clang's AST)."""
import json, os, re, subprocess
REPO = os.environ.get("LG_REPO", "/repo")

class CError(Exception): pass

PRIM = {"char": ("char", 1), "signed char": ("int", 1, True), "unsigned char": ("int", 1, False),
        "short": ("int", 2, True), "unsigned short": ("int", 2, False), "int": ("int", 4, True),
        "unsigned int": ("int", 4, False), "long": ("int", 8, True), "unsigned long": ("int", 8, False),
        "long long": ("int", 8, True), "unsigned long long": ("int", 8, False), "_Bool": ("int", 1, False),
        "void": ("void",), "float": ("float", 4), "double": ("float", 8)}

class Headers:
    def __init__(self, headers=("lightgrep/api.h", "lightgrep/util.h", "lightgrep/search_hit.h")):
        src = "".join("#include <%s>\n" % h for h in headers)
        r = subprocess.run(["clang", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json",
                            "-I" + os.path.join(REPO, "include"), "-"], input=src, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0: raise CError("headers do not compile: " + r.stderr[:500])
        tu = json.loads(r.stdout)
        self.typedefs, self.structs, self.funcs, self.enums = {}, {}, {}, set()
        byid = {}
        for d in tu["inner"]:
            k = d["kind"]
            if k == "RecordDecl":
                byid[d["id"]] = d
                fields = [(f["name"], f["type"]["qualType"]) for f in d.get("inner", []) if f["kind"] == "FieldDecl"]
                if d.get("name"):
                    if d.get("completeDefinition"): self.structs[d["name"]] = fields
                else: byid[d["id"]]["_fields"] = fields
            elif k == "TypedefDecl":
                n = d["name"]
                t = d["type"]["qualType"]
                own = None
                def find(x):
                    nonlocal own
                    if isinstance(x, dict):
                        o = x.get("ownedTagDecl") or x.get("decl")
                        if o and o.get("kind") == "RecordDecl" and o["id"] in byid and "_fields" in byid[o["id"]]:
                            own = own or o["id"]
                        for v in x.get("inner", []): find(v)
                if "*" not in t and "(" not in t:
                    for i in d.get("inner", []): find(i)
                if own:
                    self.structs[n] = byid[own]["_fields"]; self.typedefs[n] = "struct " + n
                else: self.typedefs[n] = t
            elif k == "FunctionDecl" and d["name"].startswith("lg_"):
                ps = [(p.get("name", ""), p["type"]["qualType"]) for p in d.get("inner", []) if p["kind"] == "ParmVarDecl"]
                self.funcs[d["name"]] = (d["type"]["qualType"].split("(")[0].strip(), ps)

    def parse(self, t):
        """Structured form of a C type: ('int',size,signed) ('char',1) ('void',) ('ptr',t) ('struct',name) ('fun',ret,[args])"""
        t = re.sub(r"\b(const|volatile|restrict|__restrict)\b", " ", t).strip()
        m = re.match(r"^(.*)\(\s*\*\s*\)\s*\((.*)\)$", t)
        if m:
            args = [a.strip() for a in m.group(2).split(",")] if m.group(2).strip() not in ("", "void") else []
            return ("ptr", ("fun", self.parse(m.group(1)), tuple(self.parse(a) for a in args)))
        t = " ".join(t.split())
        if t.endswith("*"): return ("ptr", self.parse(t[:-1]))
        if t.startswith("struct "): return ("struct", t[7:].strip())
        if t.startswith("enum "): return ("int", 4, False)
        if t in PRIM: return PRIM[t]
        if t in self.typedefs:
            u = self.typedefs[t]
            if u == t: raise CError("type " + t)
            return self.parse(u)
        raise CError("unknown C type '%s'" % t)

    def fun(self, name):
        r, ps = self.funcs[name]
        return self.parse(r), [self.parse(t) for _, t in ps]

    def handle_kind(self, t):
        """name of the handle struct if t is a pointer to an opaque struct"""
        if t[0] == "ptr" and t[1][0] == "struct" and t[1][1] not in self.structs: return t[1][1]
        return None

    def makers(self):
        """{handle kind: {functions returning it}}, {handle kind: release function}, outs {type: release}"""
        mk, rel = {}, {}
        for f in self.funcs:
            ret, args = self.fun(f)
            k = self.handle_kind(ret)
            if k: mk.setdefault(k, set()).add(f)
            if f.startswith("lg_destroy_") and ret == ("void",) and len(args) == 1 and self.handle_kind(args[0]):
                rel[self.handle_kind(args[0])] = f
        return mk, rel

if __name__ == "__main__":
    h = Headers()
    for f in h.funcs: print(f, h.fun(f))
    print(h.structs); print(h.makers())
