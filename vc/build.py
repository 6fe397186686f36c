"""Mechanical extraction: compile /repo's current sources to LLVM IR on every run, and native harnesses."""
import os, re, subprocess, tempfile, shutil, atexit, glob
from . import llir
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANGXX = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
CXXFILT = "/usr/bin/c++filt"
INC = ["-I", VERIF + "/inc", "-I", REPO + "/lib/glm", "-I", REPO + "/lib/src", "-I", REPO + "/lib/include", "-I", REPO + "/tool"]
DEFS = ["-DCUTTLEFISH_ISPC=0", "-DNDEBUG", "-std=gnu++14"]
PASSES = "cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg<no-switch-to-lookup>,jump-threading,early-cse,simplifycfg<no-switch-to-lookup>,loop-simplify,lcssa)"

_scratch = [None]
def scratch():
    if _scratch[0] is None:
        d = tempfile.mkdtemp(prefix="verifvc.")
        _scratch[0] = d
        pid = os.getpid()
        def clean():
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch[0]

class BuildError(Exception): pass

def sources():
    return sorted(glob.glob(REPO + "/lib/src/*.cpp"))

def ir(src, noinline=(), extra=(), passes=None, tag=""):
    """src relative to REPO; noinline: regexes on demangled names kept as calls (they have contracts)"""
    out = os.path.join(scratch(), os.path.basename(src) + tag)
    raw = out + ".raw.ll"
    path = src if src.startswith("/") else os.path.join(REPO, src)
    cmd = [CLANGXX, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-discard-value-names"] + DEFS + list(extra) + INC + ["-S", "-emit-llvm", path, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError("clang failed on %s:\n%s" % (src, r.stderr[-3000:]))
    lines = open(raw, encoding="latin-1").read().split("\n")
    if noinline:
        idx = [i for i, l in enumerate(lines) if l.startswith("define ")]
        names = []
        for i in idx:
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', lines[i]); names.append(m.group(1).strip('"'))
        dem = subprocess.run([CXXFILT], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        rxs = [re.compile(x) if isinstance(x, str) else x for x in noinline]
        for i, d in zip(idx, dem):
            if any(rx.search(d) for rx in rxs):
                lines[i] = re.sub(r' (#\d+)', r' noinline \1', lines[i], count=1)
        open(raw, "w", encoding="latin-1").write("\n".join(lines))
    fin = out + ".ll"
    r = subprocess.run([OPT, "-S", "-passes=" + (passes or PASSES), raw, "-o", fin], capture_output=True, text=True)
    if r.returncode: raise BuildError("opt failed on %s:\n%s" % (src, r.stderr[-3000:]))
    os.unlink(raw)
    return llir.Module(fin)

def enum_values(header, items):
    """numeric values of C++ constant expressions, taken from the current headers through the compiler"""
    src = os.path.join(scratch(), "enums_%d.cpp" % (abs(hash(tuple(items))) % 10**9))
    with open(src, "w") as f:
        for h in ([header] if isinstance(header, str) else header): f.write("#include <%s>\n" % h)
        f.write("using namespace cuttlefish;\n")
        for i, e in enumerate(items): f.write("extern \"C\" const unsigned long long vcenum_%d = (unsigned long long)(%s);\n" % (i, e))
    out = src + ".ll"
    r = subprocess.run([CLANGXX, "-O0"] + DEFS + INC + ["-S", "-emit-llvm", src, "-o", out], capture_output=True, text=True)
    if r.returncode: raise BuildError("enum extraction failed:\n" + r.stderr[-2000:])
    vals = {}
    for m in re.finditer(r"@vcenum_(\d+) = [^\n]*?i64 (-?\d+)", open(out).read()): vals[items[int(m.group(1))]] = int(m.group(2))
    return vals

NATIVE_FLAGS = ["-std=gnu++14", "-DCUTTLEFISH_ISPC=0", "-DNDEBUG", "-O1", "-pthread", "-w"]
_native = {}
def native_objs(extra=(), only=None):
    """object files of the library, compiled from the current sources with the project's compiler"""
    key = (tuple(extra), tuple(only or ()))
    if key in _native: return _native[key]
    from concurrent.futures import ThreadPoolExecutor
    srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
    tag = "n%d" % len(_native)
    def one(s):
        o = os.path.join(scratch(), tag + os.path.basename(s) + ".o")
        r = subprocess.run(["g++"] + NATIVE_FLAGS + list(extra) + INC + ["-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode: raise BuildError("g++ failed on %s:\n%s" % (s, r.stderr[-3000:]))
        return o
    with ThreadPoolExecutor(8) as p: objs = list(p.map(one, srcs))
    _native[key] = objs
    return objs

def native(harness, extra=(), libs=("-lfreeimage",), objs=None, more=()):
    """compile and link /verif/native/<harness> against the library; returns the executable's path"""
    exe = os.path.join(scratch(), os.path.basename(harness) + ".exe")
    objs = native_objs(extra) if objs is None else objs
    r = subprocess.run(["g++"] + NATIVE_FLAGS + list(extra) + INC + ["-I", VERIF + "/native", os.path.join(VERIF, "native", harness)] + list(more) + objs + ["-o", exe] + list(libs), capture_output=True, text=True)
    if r.returncode: raise BuildError("native harness %s:\n%s" % (harness, r.stderr[-3000:]))
    return exe

def run_native(exe, args=(), timeout=300, env=None, cwd=None):
    """-> dict with violations = lines starting with 'FAIL '"""
    e = dict(os.environ); e.update(env or {})
    try: r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd or scratch(), errors="replace")
    except subprocess.TimeoutExpired: return {"ok": False, "cases": 0, "violations": ["FAIL timeout: the call does not return within %d s" % timeout]}
    v = [l[5:] for l in r.stdout.split("\n") if l.startswith("FAIL ")]
    info = {}
    for l in r.stdout.split("\n"):
        m = re.match(r"CASES (\d+)(?: (.*))?", l)
        if m: info["cases"] = int(m.group(1)); info["bound"] = m.group(2) or ""
    if r.returncode != 0 and not v: v = ["the program ended with status %d after: %s %s" % (r.returncode, r.stdout[-200:].replace("\n", " | "), r.stderr[-300:].replace("\n", " | "))]
    return dict(info, ok=not v, violations=v)

def run_series(harness, argss, san=(), san_argss=(), env=None, timeout=200):
    """runs of one harness, then runs with a sanitizer; stops at the first that fails"""
    tot = {"cases": 0, "bound": "", "ok": True, "violations": []}
    for flags, lists in (((), argss), (tuple(san), san_argss)):
        if not lists: continue
        try: exe = native(harness, flags)
        except BuildError:
            if not flags: raise
            tot["bound"] += "; sanitizer build not possible"; continue
        for a in lists:
            d = run_native(exe, a, timeout, env if flags else None)
            tot["cases"] += d.get("cases", 0); tot["bound"] += ("; " if tot["bound"] else "") + str(d.get("bound", "")) + (" with " + " ".join(flags) if flags else "")
            if not d["ok"]: tot.update(ok=False, violations=d["violations"]); return tot
    return tot
