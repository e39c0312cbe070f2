"""Compiles /repo's current sources to LLVM IR, in /verif/build (git-ignored).

Nothing from /repo's build products is used: the configuration header, the
generated encoding tables and the bison parser are made anew from the sources.
Results are cached per translation unit; a cache entry is used only if the
SHA-256 of the source and of every file it included is unchanged.
"""
import hashlib, json, os, subprocess, sys, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LG_REPO", "/repo")
BUILD = os.environ.get("LG_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18/bin/"
CLANGXX = LLVM + "clang++"
CLANG = LLVM + "clang"
LLVM_LINK = LLVM + "llvm-link"

class BuildError(Exception):
    pass

CONFIG_H = """
#define HAVE_BOOST 1
#define HAVE_BOOST_ASIO 1
#define HAVE_BOOST_PROGRAM_OPTIONS 1
#define HAVE_CXX17 1
#define HAVE_ICU 1
#define HAVE_STDINT_H 1
#define LG_TEST_DATA_DIR "./test/data"
#define PACKAGE "lightgrep"
#define PACKAGE_COMPANY "x"
#define PACKAGE_DESCRIPTION "x"
#define PACKAGE_NAME "lightgrep"
#define PACKAGE_STRING "lightgrep 0"
#define PACKAGE_VERSION "0"
#define PACKAGE_VERSION_MAJOR 1
#define PACKAGE_VERSION_MICRO 0
#define PACKAGE_VERSION_MINOR 0
#define PACKAGE_YEAR 2024
#define VERSION "0"
"""

PRELUDE = """#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <functional>
#include <cstdint>
"""

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout

_hcache = {}
def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _hcache:
        with open(path, "rb") as f:
            _hcache[k] = hashlib.sha256(f.read()).hexdigest()
    return _hcache[k]

def cached(key, inputs_of, make, outputs):
    """key: name; make() -> list of dependency files; outputs: list of files."""
    meta = os.path.join(BUILD, "meta", key.replace("/", "__") + ".json")
    os.makedirs(os.path.dirname(meta), exist_ok=True)
    try:
        m = json.load(open(meta))
        if m["sig"] == inputs_of and all(os.path.exists(o) for o in outputs) and \
           all(fhash(p) == h for p, h in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(meta): os.unlink(meta)
    deps = make()
    m = {"sig": inputs_of, "deps": {p: fhash(p) for p in deps}}
    tmp = meta + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f: json.dump(m, f)
    os.replace(tmp, meta)
    return True

def parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.abspath(x) for x in txt.split()]

GEN = os.path.join(BUILD, "gen")

def prepare():
    os.makedirs(GEN, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    cfg = os.path.join(GEN, "config.h")
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG_H:
        open(cfg, "w").write(CONFIG_H)
    # std::string's members are instantiated in the IR instead of left external
    pre = os.path.join(GEN, "prelude.h")
    if not os.path.exists(pre) or open(pre).read() != PRELUDE:
        open(pre, "w").write(PRELUDE)
    # bison parser
    ypp = os.path.join(REPO, "src/lib/re_grammar.ypp")
    out = os.path.join(GEN, "re_grammar.cpp")
    def mk():
        tmp = out + ".tmp.cpp"
        sh(["bison", "-o", tmp, "--report=none", ypp], cwd=GEN)
        t = open(tmp).read().replace(tmp, out)
        open(out, "w").write(t)
        os.unlink(tmp)
        for f in glob.glob(os.path.join(GEN, "re_grammar.cpp.tmp.*")): os.unlink(f)
        return [ypp]
    cached("gen-bison", "1", mk, [out])
    # encoding tables
    enc_src = os.path.join(REPO, "src/enc/encodings.cpp")
    enc_bin = os.path.join(GEN, "enc")
    enc_h = os.path.join(GEN, "encodings.h")
    def mk2():
        d = os.path.join(GEN, "enc.d")
        libs = sh(["pkg-config", "--libs", "icu-uc", "icu-i18n"]).split()
        sh([CLANGXX, "-std=c++17", "-O1", "-include", "functional", "-include", "cstdint",
            "-DHAVE_CONFIG_H", "-I" + GEN, "-I" + os.path.join(REPO, "include"),
            "-MD", "-MF", d, enc_src, "-o", enc_bin] + libs)
        txt = sh([enc_bin], cwd=GEN)
        open(enc_h, "w").write(txt)
        return parse_d(d)
    cached("gen-enc", "1", mk2, [enc_h])
    vfs = os.path.join(GEN, "vfs.yaml")
    y = json.dumps({"version": 0, "case-sensitive": True, "use-external-names": True, "roots": [
        {"name": os.path.join(REPO, "include/lightgrep/encodings.h"), "type": "file", "external-contents": enc_h},
        {"name": os.path.join(REPO, "config.h"), "type": "file", "external-contents": cfg}]})
    if not os.path.exists(vfs) or open(vfs).read() != y:
        open(vfs, "w").write(y)

BASE_FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug",
    "-fno-discard-value-names",
    "-DHAVE_CONFIG_H", "-DU_USING_ICU_NAMESPACE=0", "-DU_CHARSET_IS_UTF8=1",
    "-DUNISTR_FROM_CHAR_EXPLICIT=explicit", "-DUNSTR_FROM_STRING_EXPLICIT=explicit",
    "-pthread", "-w", "-fPIC"]

def flags(extra=()):
    return BASE_FLAGS + ["-include", os.path.join(GEN, "prelude.h"), "-I" + GEN, "-ivfsoverlay", os.path.join(GEN, "vfs.yaml"),
        "-I" + os.path.join(REPO, "include")] + list(extra)

def compile_tu(src, tag, extra=()):
    rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else os.path.basename(src)
    out = os.path.join(BUILD, "bc", tag + "__" + rel.replace("/", "__") + ".bc")
    def mk():
        d = out + ".d"
        tmp = out + ".tmp%d" % os.getpid()
        sh([CLANGXX] + flags(extra) + ["-MD", "-MF", d, "-emit-llvm", "-c", src, "-o", tmp])
        os.replace(tmp, out)
        return parse_d(d)
    ch = cached("tu-" + tag + "-" + rel, json.dumps([src] + flags(extra)), mk, [out])
    return out, ch

def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src/lib/**/*.cpp"), recursive=True))
    s = [x for x in s if not x.endswith("/re_grammar.cpp")]
    return s + [os.path.join(GEN, "re_grammar.cpp")]

def cmd_sources():
    return sorted(glob.glob(os.path.join(REPO, "src/cmd/*.cpp")))

def jni_dirs():
    jdk = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
    return ["-I" + jdk + "/include", "-I" + jdk + "/include/linux"]

def jni_headers():
    out = os.path.join(GEN, "jni")
    srcs = sorted(glob.glob(os.path.join(REPO, "src/java/src/main/java/**/*.java"), recursive=True))
    def mk():
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        cls = os.path.join(GEN, "jcls"); shutil.rmtree(cls, ignore_errors=True); os.makedirs(cls)
        sh(["javac", "-nowarn", "-d", cls, "-h", out] + srcs)
        with open(os.path.join(out, "jlightgrep.h"), "w") as f:
            for h in sorted(os.listdir(out)):
                if h.startswith("com_"): f.write('#include "%s"\n' % h)
        return srcs
    cached("gen-jni", json.dumps(srcs), mk, [os.path.join(out, "jlightgrep.h"), os.path.join(GEN, "jcls")])
    return out

def build(tag):
    """tag: lib | cmd | jni | app -> (linked bitcode path, list of sources)."""
    prepare()
    extra = []
    if tag == "app":      # the command-line program with the library
        (l, ls), (c, cs) = build("lib"), build("cmd")
        out = os.path.join(BUILD, "bc", "whole-app.bc")
        def mk():
            tmp = out + ".tmp%d" % os.getpid()
            sh([LLVM_LINK, "-o", tmp, c, l])
            os.replace(tmp, out)
            return [l, c]
        cached("link-app", json.dumps([l, c]), mk, [out])
        return out, cs + ls
    if tag == "lib": srcs = lib_sources()
    elif tag == "cmd": srcs = cmd_sources()
    elif tag == "jni":
        h = jni_headers()
        # headers the repository's own build left behind must not be used: they may be out of date
        ov = os.path.join(GEN, "vfs-jni.yaml")
        y = json.dumps({"version": 0, "case-sensitive": True, "use-external-names": True, "roots": [
            {"name": os.path.join(REPO, "src/java/jni", x), "type": "file", "external-contents": os.path.join(h, x)} for x in sorted(os.listdir(h))]})
        if not os.path.exists(ov) or open(ov).read() != y: open(ov, "w").write(y)
        extra = ["-I" + h, "-ivfsoverlay", ov] + jni_dirs()
        srcs = sorted(glob.glob(os.path.join(REPO, "src/java/jni/*.cpp")))
    else: raise BuildError("unknown tag")
    if not srcs: raise BuildError("no sources for " + tag)
    with ThreadPoolExecutor(8) as ex:
        r = list(ex.map(lambda s: compile_tu(s, tag, extra), srcs))
    out = os.path.join(BUILD, "bc", "whole-%s.bc" % tag)
    bcs = [b for b, _ in r]
    def mk():
        tmp = out + ".tmp%d" % os.getpid()
        sh([LLVM_LINK, "-o", tmp] + bcs)
        os.replace(tmp, out)
        return bcs
    cached("link-" + tag, json.dumps(bcs), mk, [out])
    return out, srcs

if __name__ == "__main__":
    import time
    for t in sys.argv[1:]:
        t0 = time.time(); o, s = build(t); print(o, len(s), "%.1fs" % (time.time() - t0))
