"""Contracts of saving: container type from the file name (C16), stream error handling (C12), file contents (C09-C11)."""
import re
from vc import term as T, smt, build, execu as X, run, loops
from . import tex
from .tex import C32, C64, Z64, E, fmt, bool_of

# ---------------------------------------------------------------- C strings
NAME = "name"
def lower(c): return T.ite(T.and_(T.ule(T.const(65, 8), c), T.ule(c, T.const(90, 8))), T.add(c, T.const(32, 8)), c)
class Str:
    """the argument string: contents are a function of the index, length `len`, terminated by the first zero"""
    def __init__(self, ex):
        self.ex = ex; self.len = T.var("len", 64); self.idx = []
        ex.init_hooks[NAME] = self.hook; ex.sizes[NAME] = lambda b: T.add(self.len, C64(1))
        ex.assumptions.append(T.ult(self.len, C64(1 << 62)))
        ex.contracts += [(re.compile(r"^strlen$"), self.strlen), (re.compile(r"^str(case)?cmp$"), self.strcmp), (re.compile(r"^strn(case)?cmp$"), self.strcmp), (re.compile(r"^mem(cmp)$"), self.strcmp),
                         (re.compile(r"^strrchr$"), self.strrchr), (re.compile(r"^strchr$"), self.strchr), (re.compile(r"^(std::)?tolower(\(int\))?$"), self.tolower), (re.compile(r"^(std::)?toupper(\(int\))?$"), self.toupper)]
    def at(self, i):
        if not any(i is x for x in self.idx): self.idx.append(i)
        c = T.uf("name.char", [i], 8)
        f = [T.implies(T.eq(i, self.len), T.eq(c, T.const(0, 8))), T.implies(T.ult(i, self.len), T.ne(c, T.const(0, 8)))]
        for x in f:
            if not any(x is y for y in self.ex.assumptions): self.ex.assumptions.append(x)
        return c
    def hook(self, ex, b, off, size, ty):
        if size == 1: return self.at(off)
        if size in (2, 4, 8):
            r = self.at(off)
            for i in range(1, size): r = T.concat(self.at(T.add(off, C64(i))), r)
            return r
        raise X.Unsupported("read of the string")
    def const_str(self, st, b, o):
        """bytes of a constant string up to its end"""
        out = []
        while True:
            c = self.ex.read(st, b, T.add(o, C64(len(out))), 1, ("int", 8))
            if not T.isc(c): raise X.Unsupported("string contents")
            if c.x == 0: return out
            out.append(c.x)
            if len(out) > 64: raise X.Unsupported("string contents")
    def kind(self, st, p):
        r = []
        for c, b, o in p.cases:
            if b is None: raise X.Unsupported("null string")
            if b.name == NAME: r.append((c, "arg", o))
            elif b.name.startswith("ro:"): r.append((c, "const", self.const_str(st, b, o)))
            else: raise X.Unsupported("string " + b.name)
        return r
    def strlen(self, ex, fr, st, ins, dem, v):
        (k,) = self.kind(st, v[0])
        if k[1] == "const": return C64(len(k[2]))
        ex.oblige(st, "strlen: within the string", T.ule(k[2], self.len), "bounds"); return T.sub(self.len, k[2])
    def strcmp(self, ex, fr, st, ins, dem, v):
        (a,), (b,) = self.kind(st, v[0]), self.kind(st, v[1]); ci = "case" in dem
        if a[1] == "const" and b[1] == "const": raise X.Unsupported("comparison of constants")
        if a[1] == "const": a, b = b, a
        if b[1] != "const": raise X.Unsupported("comparison of the name with itself")
        ex.oblige(st, dem + ": within the string", T.ule(a[2], self.len), "bounds")
        cs = b[2] + [0]
        if "n" in dem.replace("strncasecmp", "n").replace("strncmp", "n") and dem.startswith(("strn", "mem")):
            n = v[2]
            if T.isc(n): cs = cs[:n.x]
            if dem.startswith("mem"): ex.oblige(st, "memcmp: within the string", T.ule(T.add(a[2], v[2]), T.add(self.len, C64(1))), "bounds")
        low = lambda c: c + 32 if ci and 65 <= c <= 90 else c
        eq = T.TRUE; n = v[2] if len(v) > 2 else None
        # the comparison stops at the first difference, so a later character is only looked at inside the string
        for i, c in enumerate(cs):
            x = self.at(T.add(a[2], C64(i))); x = lower(x) if ci else x
            eq = T.and_(eq, T.or_(T.eq(x, T.const(low(c), 8)), T.FALSE if n is None else T.not_(T.ult(C64(i), n))))
        d = X.fresh("cmp", 32)
        st.assume = st.assume + [T.ne(d, C32(0))]
        return T.ite(eq, C32(0), d)
    def strrchr(self, ex, fr, st, ins, dem, v): return self.find(ex, st, v, True)
    def strchr(self, ex, fr, st, ins, dem, v): return self.find(ex, st, v, False)
    def find(self, ex, st, v, last):
        (k,) = self.kind(st, v[0])
        if k[1] != "arg" or not T.isc(v[1]): raise X.Unsupported("search in a string")
        ch = T.const(v[1].x & 255, 8); o = k[2]; j = X.fresh("found", 64); f = X.fresh("isfound", 0)
        ex.oblige(st, "search: within the string", T.ule(o, self.len), "bounds")
        st.assume = st.assume + [T.implies(f, T.and_(T.ule(o, j), T.ule(j, self.len), T.eq(self.at(j), ch)))]
        def inst(i):
            nofind = T.and_(T.ule(o, i), T.ule(i, self.len), T.or_(T.not_(f), T.ult(j, i) if last else T.ult(i, j)))
            return T.implies(nofind, T.ne(self.at(i), ch))
        self.insts = getattr(self, "insts", []) + [inst]
        return X.Ptr([(f, X.Base(NAME), j), (T.not_(f), None, Z64)])
    def tolower(self, ex, fr, st, ins, dem, v):
        c = v[0]; return T.ite(T.and_(T.sle(C32(65), c), T.sle(c, C32(90))), T.add(c, C32(32)), c)
    def toupper(self, ex, fr, st, ins, dem, v):
        c = v[0]; return T.ite(T.and_(T.sle(C32(97), c), T.sle(c, C32(122))), T.sub(c, C32(32)), c)
    def close(self):
        for f in getattr(self, "insts", []):
            for i in list(self.idx): self.ex.assumptions.append(f(i))
    def ext(self, s):
        return T.and_(T.ule(C64(len(s)), self.len), *[T.eq(lower(self.at(T.sub(self.len, C64(len(s) - i)))), T.const(ord(c), 8)) for i, c in enumerate(s)])

def unit_filetype(res):
    ex = X.Executor(tex.modules()); s = Str(ex)
    st, r = tex.call(ex, X.State(), tex.find(r"^cuttlefish::Texture::fileType\(char const\*\)$"), [X.ptr(X.Base(NAME))])
    F = lambda n: C32(E("Texture::FileType::" + n)); ins = [s.len]
    e = {k: s.ext("." + k.lower()) for k in ("DDS", "KTX", "PVR")}
    s.at(s.len); s.close()
    # (obligations collected before the facts about the string were complete get them as well)
    for o in ex.obs: o.hyps = ex.assumptions + o.hyps
    for k in e: ex.oblige(st, "fileType: %s exactly for names ending in .%s in any case" % (k, k.lower()), T.iff(T.eq(r, F(k)), e[k]), "post", ins)
    ex.oblige(st, "fileType: Auto for every other name", T.iff(T.eq(r, F("Auto")), T.not_(T.or_(*e.values()))), "post", ins)
    res.functions.append("Texture::fileType"); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)

# ---------------------------------------------------------------- output streams
class Stream:
    """std::ostream by contract: every operation that writes may fail; a failure stays visible until clear().  `failed` is ghost state."""
    def __init__(self, ex, initially=None):
        self.ex = ex; self.n = 0; self.initial = T.var("failedBefore", 0) if initially is None else initially
        ex.init_hooks["os"] = ex.init_hooks["vt"] = self.vt
        O = r"^std::basic_(ostream|iostream|ofstream|fstream)<char, std::char_traits<char> ?>::"; I = r"^std::basic_ios<char, std::char_traits<char> ?>::"
        ex.contracts += [(re.compile(O + r"write\("), self.write), (re.compile(O + r"put\("), self.put), (re.compile(O + r"flush\("), self.flush),
                         (re.compile(I + r"(fail\(\) const|operator!\(\) const)"), lambda ex, fr, st, ins, dem, v: st.ghost["failed"]),
                         (re.compile(I + r"(good\(\) const|operator bool\(\) const)"), lambda ex, fr, st, ins, dem, v: T.not_(st.ghost["failed"])),
                         (re.compile(I + r"bad\(\) const"), self.bad)]
    def vt(self, ex, b, off, size, ty):
        if b.name == "os": return X.ptr(X.Base("vt")) if ty == ("ptr",) and T.isc(off) and off.x == 0 else None
        return Z64 if ty == ("int", 64) else None
    def state(self):
        st = X.State(); st.ghost["failed"] = self.initial; return st
    def maybe_fail(self, st):
        st.ghost["failed"] = T.or_(st.ghost["failed"], X.fresh("fails", 0))
    def this(self, p):
        if any(b is None or b.name != "os" for c, b, o in p.cases): raise X.Unsupported("another stream")
    def write(self, ex, fr, st, ins, dem, v):
        self.this(v[0]); n = v[2]
        if T.isc(n) and n.x <= 256 and len(v[1].cases) == 1 and not v[1].cases[0][1].name == "TD":
            b, o = v[1].single(); out = []; i = 0
            ex.check_bounds(st, b, o, n.x, "written bytes")
            while i < n.x:
                k = 4 if n.x - i >= 4 else 1
                x = ex.load(fr, st, ("int", 8*k), X.ptr(b, T.add(o, C64(i))))
                out += [T.extract(x, 8*j + 7, 8*j) for j in range(k)]; i += k
            st.trace.append(X.Event("bytes", tuple(out)))
        else: st.trace.append(X.Event("data", (v[1], n)))
        self.maybe_fail(st); return v[0]
    def put(self, ex, fr, st, ins, dem, v):
        self.this(v[0]); st.trace.append(X.Event("bytes", (v[1],))); self.maybe_fail(st); return v[0]
    def flush(self, ex, fr, st, ins, dem, v): self.this(v[0]); self.maybe_fail(st); return v[0]
    def bad(self, ex, fr, st, ins, dem, v):
        b = X.fresh("bad", 0); st.assume = st.assume + [T.implies(b, st.ghost["failed"])]; return b

class Tex:
    """a converted texture, through the contracts of its observers (proved by C05-C07, sizes by C02)"""
    def __init__(self, ex, f=None, t=None):
        self.ex = ex
        self.dim, self.w, self.h, self.d, self.L, self.cs, self.alpha = [T.var(n, 32) for n in ("dimension", "width", "height", "depth", "levels", "colorSpace", "alphaType")]
        self.f = f if f is not None else T.var("format", 32); self.t = t if t is not None else T.var("type", 32)
        D = {n: T.eq(self.dim, C32(E("Texture::Dimension::" + n))) for n in tex.DIMS}; self.D_ = D
        self.is3d, self.cube = D["Dim3D"], D["Cube"]; self.srgb = T.eq(self.cs, C32(E("ColorSpace::sRGB")))
        self.array = T.and_(T.not_(self.is3d), T.ne(self.d, C32(0)))
        self.F = T.ite(self.cube, C32(6), C32(1))
        self.isconv = T.TRUE
        self.facts = [T.or_(*D.values()), T.ne(self.w, C32(0)), T.ne(self.h, C32(0)), T.implies(self.is3d, T.ne(self.d, C32(0))), T.ule(C32(1), self.L), T.ule(self.L, C32(32)),
                      T.or_(*[T.eq(self.alpha, C32(E("Texture::Alpha::" + a))) for a in ("None", "Standard", "PreMultiplied", "Encoded")]),
                      tex.valid_term(self.f, self.t), T.or_(T.eq(self.cs, C32(E("ColorSpace::Linear"))), T.and_(self.srgb, tex.srgb_term(self.f, self.t)))]
        self.bs = T.var('bytesPerTexel', 32); self.facts.append(T.eq(self.bs, blocksize(self)))
        self.args = [self.dim, self.w, self.h, self.d, self.L, self.cs, self.alpha, self.f, self.t]
        S = r"^cuttlefish::Texture::"
        def c(rx, fn): ex.contracts.append((re.compile(S + rx), fn))
        one = lambda fn: (lambda ex, fr, st, ins, dem, v: fn(v[1] if len(v) > 1 else None))
        c(r"width\(unsigned int\) const$", one(lambda m: self.W(m))); c(r"height\(unsigned int\) const$", one(lambda m: self.H(m))); c(r"depth\(unsigned int\) const$", one(lambda m: self.Dp(m)))
        c(r"dimension\(\) const$", one(lambda m: self.dim)); c(r"isArray\(\) const$", one(lambda m: self.array)); c(r"faceCount\(\) const$", one(lambda m: self.F)); c(r"mipLevelCount\(\) const$", one(lambda m: self.L))
        c(r"format\(\) const$", one(lambda m: self.f)); c(r"type\(\) const$", one(lambda m: self.t)); c(r"colorSpace\(\) const$", one(lambda m: self.cs)); c(r"alphaType\(\) const$", one(lambda m: self.alpha))
        c(r"converted\(\) const$", one(lambda m: self.isconv)); c(r"isValid\(\) const$", one(lambda m: T.TRUE))
        c(r"(blockWidth|blockHeight|blockSize|hasAlpha)\(cuttlefish::Texture::Format\)$", self.table)
        c(r"data\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", lambda ex, fr, st, ins, dem, v: self.data(st, v[2], v[3], v[1]))
        c(r"data\(unsigned int, unsigned int\) const$", lambda ex, fr, st, ins, dem, v: self.data(st, v[1], v[2], None))
        c(r"dataSize\(cuttlefish::Texture::CubeFace, unsigned int, unsigned int\) const$", lambda ex, fr, st, ins, dem, v: self.size(st, v[2], v[3], v[1]))
        c(r"dataSize\(unsigned int, unsigned int\) const$", lambda ex, fr, st, ins, dem, v: self.size(st, v[1], v[2], None))
    def table(self, ex, fr, st, ins, dem, v):
        """the format tables (C05) at this texture's format: uncompressed in this build (the pair is valid), so blocks are single texels"""
        key = re.search(r"::(\w+)\(cuttlefish", dem).group(1)
        ex.oblige(st, "format tables are asked about this texture's format", T.eq(v[0], self.f), "pre")
        return {"blockWidth": C32(1), "blockHeight": C32(1), "blockSize": self.bs, "hasAlpha": hasalpha(self)}[key]
    def W(self, m): return T.ite(T.ult(m, self.L), tex.shr1(self.w, m), C32(0))
    def H(self, m): return T.ite(T.ult(m, self.L), tex.shr1(self.h, m), C32(0))
    def Dp(self, m): return T.ite(T.ult(m, self.L), T.ite(self.is3d, tex.shr1(self.d, m), tex.umax(self.d, C32(1))), C32(0))
    def inr(self, m, d, f): return T.and_(T.ult(m, self.L), T.ult(d, self.Dp(m)), T.ult(f, self.F) if f is not None else T.not_(self.cube))
    def data(self, st, m, d, f):
        self.ex.oblige(st, "the data that is written exists", self.inr(m, d, f), "pre")
        return X.ptr(X.Base("TD", (m, d, f if f is not None else C32(0))))
    def bytes(self, m, d, f): return T.uf("dataBytes", [m, d, f], 64)
    def size(self, st, m, d, f):
        self.ex.oblige(st, "the data whose size is taken exists", self.inr(m, d, f), "pre")
        return self.bytes(m, d, f if f is not None else C32(0))

R = lambda n: C32(E("Texture::SaveResult::" + n))
SAVERS = {"DDS": r"^cuttlefish::saveDds\(", "KTX": r"^cuttlefish::saveKtx\(", "PVR": r"^cuttlefish::savePvr\("}
def unit_dispatch(res):
    """save(stream, type) goes to the writer of that container; unconverted textures and other types write nothing"""
    ex = X.Executor(tex.modules()); tx = Tex(ex); tx.isconv = T.var("converted", 0)
    for k, rx in SAVERS.items():
        def h(ex, fr, st, ins, dem, v, k=k): st.trace.append(X.Event("writer", (k, v[0], v[1]))); return T.var("result" + k, 32)
        ex.contracts.append((re.compile(rx), h))
    ty = T.var("fileType", 32); st = X.State(); ins = [ty]
    st1, r = tex.call(ex, st, tex.find(r"^cuttlefish::Texture::save\(std::basic_ostream<char, std::char_traits<char> ?>&, cuttlefish::Texture::FileType\)$"), [X.ptr(X.Base("tex")), X.ptr(X.Base("os")), ty])
    called = {k: T.or_(*[e.guard for e in st1.trace if e.name == "writer" and e.args[0] == k]) for k in SAVERS}
    want = R("UnknownFormat")
    for k in SAVERS:
        is_ = T.eq(ty, C32(E("Texture::FileType::" + k))); want = T.ite(is_, T.var("result" + k, 32), want)
        ex.oblige(st1, "save: the %s writer runs exactly for that type" % k, T.iff(called[k], T.and_(tx.isconv, is_)), "post", ins)
    ex.oblige(st1, "save: the writer's result; UnknownFormat for other types; Invalid when not converted", T.eq(r, T.ite(tx.isconv, want, R("Invalid"))), "post", ins)
    ev = [e for e in st1.trace if e.name == "writer"]
    ex.oblige(st1, "save: at most one writer, on this texture and stream", T.const(len({e.args[0] for e in ev}) == len(ev) and all(loops.same_val(e.args[1], X.ptr(X.Base("tex"))) and loops.same_val(e.args[2], X.ptr(X.Base("os"))) for e in ev), 0), "post", ins)
    res.functions.append("Texture::save(stream, type)"); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)

def unit_savefile(res):
    """save(fileName, type): which container type is used, and success only if the file was written and closed"""
    ex = X.Executor(tex.modules()); s = Stream(ex, T.FALSE); tx = Tex(ex); tx.isconv = T.var("converted", 0)
    isn = T.var("nameIsNull", 0); ty = T.var("fileType", 32); auto = T.eq(ty, C32(E("Texture::FileType::Auto"))); named = T.var("typeOfName", 32)
    name = X.Ptr([(isn, None, Z64), (T.not_(isn), X.Base(NAME), Z64)])
    F = r"^std::basic_(ofstream|filebuf)<char, std::char_traits<char> ?>::"
    opened = T.var("opened", 0)
    def isname(st, p, what): ex.oblige(st, what + ": the given name", T.and_(*[T.iff(T.TRUE, T.and_(T.not_(c) if b is None or b.name != NAME else T.TRUE)) for c, b, o in tex.live(ex, st, p).cases]), "post")
    def c_type(ex, fr, st, ins, dem, v): isname(st, v[0], "fileType"); return named
    def vtab(st, p):
        for c, b, o in p.cases: ex.write(st, b, o, 8, X.ptr(X.Base("vt")))
    def ctor(ex, fr, st, ins, dem, v):
        vtab(st, v[0])
        if len(v) > 2:
            isname(st, v[1], "file"); st.trace.append(X.Event("open", (v[2],))); st.ghost["failed"] = T.or_(st.ghost["failed"], T.not_(opened))
        s.streams = getattr(s, "streams", []) + [v[0].cases[0][1].name]
    def is_open(ex, fr, st, ins, dem, v): return opened
    def close(ex, fr, st, ins, dem, v):
        s.maybe_fail(st); st.ghost["closed"] = T.TRUE
        if "filebuf" in dem.split("::close")[0]:
            f = st.ghost["failed"]; raise X.Unsupported("closing the buffer directly")
    def save(ex, fr, st, ins, dem, v):
        st.trace.append(X.Event("save", (v[2],))); r = T.var("result", 32); w = X.fresh("writefails", 0)
        # contract of save(stream, type) (see the units of the writers): Success only if no write failed so far; nothing is flushed
        st.ghost["failed"] = T.or_(st.ghost["failed"], w); st.assume = st.assume + [T.implies(T.eq(r, R("Success")), T.not_(st.ghost["failed"]))]
        s.sty = v[2]; return r
    def flush(ex, fr, st, ins, dem, v): s.maybe_fail(st); return v[0]
    ex.contracts[:0] = [(re.compile(r"^cuttlefish::Texture::fileType\("), c_type), (re.compile(F + r"basic_ofstream\("), ctor), (re.compile(F + r"(is_open)\("), is_open), (re.compile(F + r"close\("), close), (re.compile(F + r"~basic_ofstream\("), lambda *a: None),
                        (re.compile(r"^cuttlefish::Texture::save\(std::basic_ostream"), save), (re.compile(r"^std::basic_(ostream|ofstream)<char, std::char_traits<char> ?>::flush\("), flush)]
    st = s.state(); st.ghost["closed"] = T.FALSE
    st1, r = tex.call(ex, st, tex.find(r"^cuttlefish::Texture::save\(char const\*, cuttlefish::Texture::FileType\)$"), [X.ptr(X.Base("tex")), name, ty]); ins = [ty]
    ok = T.and_(tx.isconv, T.not_(isn)); sv = [e for e in st1.trace if e.name == "save"]; op = [e for e in st1.trace if e.name == "open"]
    ran = T.or_(*[e.guard for e in sv])
    ex.oblige(st1, "save(name): Invalid exactly without a converted texture or a name", T.implies(T.not_(ok), T.eq(r, R("Invalid"))), "post", ins)
    ex.oblige(st1, "save(name): nothing is opened then", T.implies(T.not_(ok), T.not_(T.or_(*[e.guard for e in op], ran))), "post", ins)
    ex.oblige(st1, "save(name): a file that cannot be opened is a write error", T.implies(T.and_(ok, T.not_(opened)), T.eq(r, R("WriteError"))), "post", ins)
    ex.oblige(st1, "save(name): saved once", T.and_(T.iff(ran, T.and_(ok, opened)), T.const(len(sv) == 1, 0)), "post", ins)
    want = T.ite(auto, named, ty)
    for e in sv: ex.oblige(st1, "save(name): the container is the given type, or for Auto the one of the name", T.implies(e.guard, T.eq(e.args[0], want)), "post", ins)
    for e in op: ex.oblige(st1, "save(name): opened as a binary file", T.implies(e.guard, T.eq(T.bvand(e.args[0], C32(4)), C32(4))), "post", ins)
    fail = st1.ghost["failed"]
    ex.oblige(st1, "save(name): success only if writing and closing the file succeeded", T.implies(T.eq(r, R("Success")), T.and_(T.not_(fail), st1.ghost["closed"], ran)), "post", ins)
    ex.oblige(st1, "save(name): any other result of the writer is passed on", T.implies(T.and_(ok, opened, T.ne(T.var("result", 32), R("Success"))), T.eq(r, T.var("result", 32))), "post", ins)
    ex.oblige(st1, "save(name): otherwise success, or write error when closing failed", T.implies(T.and_(ok, opened, T.eq(T.var("result", 32), R("Success"))), T.eq(r, T.ite(fail, R("WriteError"), R("Success")))), "post", ins)
    res.functions.append("Texture::save(fileName, type)"); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)

# ---------------------------------------------------------------- the writers
from . import formats
def table(tx, fn, w):
    """value of a format table as a term (fn(format, type, srgb) -> number or None); second result: the table has an entry"""
    val = T.const(0, w); has = T.FALSE
    for f in tex.STANDARD:
        for t in tex.std_types(f):
            is_ = T.and_(T.eq(tx.f, C32(fmt(f))), T.eq(tx.t, C32(E("Texture::Type::" + t))))
            a, b = fn(f, t, False), fn(f, t, True)
            if a is None: continue
            has = T.or_(has, is_)
            val = T.ite(is_, T.const(a, w) if a == b else T.ite(tx.srgb, T.const(b, w), T.const(a, w)), val)
    return val, has
CASES = [(d, a) for d in tex.DIMS for a in ((False, True) if d != "Dim3D" else (False,))]

class Shape(Exception): pass
def normal(ex, st, evs, m, ks=()):
    """the events that happen under the path condition of st, loops with a single iteration inlined.  m: substitution"""
    out = []
    if ks: st = st.fork(); st.assume = st.assume + loops.instances(ex, [[k] for k in ks])
    for e in evs:
        e = loops.sub_ev(e, m) if m else e
        d = ex.decide(st, e.guard)
        if d is False: continue
        if d is None: raise X.Unsupported("an output operation whose condition is not decided")
        if isinstance(e, X.LoopEv):
            one = ex.decide(st, T.eq(e.n, T.const(1, e.n.w)))
            if one: out += normal(ex, st, e.body, (m or {}) | {e.k: T.const(0, e.k.w)}, ks + (T.const(0, e.k.w),)); continue
            if ex.decide(st, T.eq(e.n, T.const(0, e.n.w))): continue
            if T.isc(e.n) and e.n.x <= 64:
                for i in range(e.n.x): out += normal(ex, st, e.body, (m or {}) | {e.k: T.const(i, e.k.w)}, ks + (T.const(i, e.k.w),))
                continue
            q = st.fork(); q.pc = T.and_(st.pc, T.ult(e.k, e.n)); body = normal(ex, q, e.body, m, ks + (e.k,))
            if body: out.append(X.LoopEv(e.k, e.n, body))
        elif e.name == "bytes":
            if out and isinstance(out[-1], X.Event) and out[-1].name == "bytes": out[-1] = X.Event("bytes", out[-1].args + e.args)
            else: out.append(e)
        elif e.name == "data": out.append(e)
        else: raise X.Unsupported("event " + e.name)
    return out
class Fields:
    """expected bytes: (name, term)"""
    def __init__(self, *fs): self.fs = [(n, t if isinstance(t, T.T) else C32(t)) for n, t in fs]
class Loop:
    def __init__(self, n, body): self.n = n; self.body = body     # body: counter (32 bit) -> list of expected items
class Data:
    def __init__(self, m, d, f, off=None, size=None): self.at = (m, d, f); self.off = off; self.size = size
def match(ex, st, tx, evs, want, what, ins):
    """obligations: the events are exactly the expected items, in order"""
    # expected: drop/inline trivial loops, join fields
    w = []
    def add(items):
        for x in items:
            if isinstance(x, Loop):
                if ex.decide(st, T.eq(x.n, C32(1))): add(x.body(C32(0))); continue
                if ex.decide(st, T.eq(x.n, C32(0))): continue
            if isinstance(x, Fields) and w and isinstance(w[-1], Fields): w[-1] = Fields(*(w[-1].fs + x.fs))
            else: w.append(x)
    add(want)
    if len(w) != len(evs): raise X.Unsupported("%s: written in another form (%d / %d items)" % (what, len(evs), len(w)))
    for x, e in zip(w, evs):
        if isinstance(x, Fields):
            if not (isinstance(e, X.Event) and e.name == "bytes"): raise X.Unsupported(what + ": written in another form")
            n = sum(t.w // 8 for _, t in x.fs)
            if n != len(e.args): raise X.Unsupported("%s: %d header bytes, expected %d" % (what, len(e.args), n))
            i = 0
            for nm, t in x.fs:
                g = T.and_(*[T.eq(e.args[i + j], T.extract(t, 8*j + 7, 8*j)) for j in range(t.w // 8)]) if t.w > 8 else T.eq(e.args[i], t)
                v = e.args[i]
                for j in range(1, t.w // 8): v = T.concat(e.args[i + j], v)
                ex.oblige(st, "%s: %s" % (what, nm), T.eq(v, t), "post", ins); i += t.w // 8
        elif isinstance(x, Data):
            if not (isinstance(e, X.Event) and e.name == "data"): raise X.Unsupported(what + ": written in another form")
            p, n = e.args; p = tex.live(ex, st, p); g = T.TRUE
            off = x.off if x.off is not None else Z64; size = x.size if x.size is not None else tx.bytes(*x.at)
            for c, b, o in p.cases:
                g = T.and_(g, T.implies(c, T.and_(T.eq(o, off), *[T.eq(a, t) for a, t in zip(b.idx, x.at)]) if b is not None and b.name == "TD" else T.FALSE))
            ex.oblige(st, what + ": the data of this place", g, "post", ins)
            ex.oblige(st, what + ": all of its bytes", T.eq(n, size), "post", ins)
        else:
            if not isinstance(e, X.LoopEv): raise X.Unsupported(what + ": written in another form")
            en = e.n if e.n.w == 32 else None
            n = T.zext(x.n, e.n.w) if e.n.w > 32 else x.n
            ex.oblige(st, what + ": number of repetitions", T.eq(e.n, n), "post", ins)
            q = st.fork(); q.pc = T.and_(st.pc, T.ult(e.k, e.n), T.eq(e.n, n))
            match(ex, q, tx, e.body, x.body(loops.fit(e.k, 32)), what, ins)

def writer_unit(kind, dim, arr, want, contents=True, status=True):
    """the writer of one container, for textures of one dimension, array or not"""
    def unit(res):
        ex = X.Executor(tex.modules()); s = Stream(ex); tx = Tex(ex); ins = tx.args
        ex.assumptions += tx.facts
        st = s.state(); st.pc = T.and_(T.not_(s.initial), tx.D_[dim], T.ne(tx.d, C32(0)) if arr or dim == "Dim3D" else T.eq(tx.d, C32(0)))
        # sizes of the data and of a row fit 32 bits (assumption), the data of a level has the size of the level (C02)
        supported, wanted, hook = want(ex, tx)
        if hook: hook(st)
        st1, r = tex.call(ex, st, tex.find(SAVERS[kind]), [X.ptr(X.Base("tex")), X.ptr(X.Base("os"))])
        S = lambda n: T.eq(r, R(n)); nm = "%s %s%s" % (kind, dim, " array" if arr else "")
        fail = st1.ghost["failed"]
        if contents:
            q = st1.fork(); q.pc = T.and_(st1.pc, S("Success"), supported)
            match(ex, q, tx, normal(ex, q, st1.trace, None), wanted, nm, ins)
            if not status: res.functions.append("save" + kind.capitalize()); run.discharge_into(res, ex.obs, ins); run.collect(res, ex); return
        ex.oblige(st1, nm + ": unsupported exactly for the pairs the container has no format for", T.iff(S("Unsupported"), T.not_(supported)), "post", ins)
        any_ = T.or_(*[e.guard for e in st1.trace])
        ex.oblige(st1, nm + ": nothing is written for an unsupported texture", T.implies(T.not_(supported), T.not_(any_)), "post", ins)
        ex.oblige(st1, nm + ": success only if no write failed", T.implies(S("Success"), T.not_(fail)), "post", ins)
        ex.oblige(st1, nm + ": a failed write is a write error", T.implies(T.and_(supported, fail), S("WriteError")), "post", ins)
        ex.oblige(st1, nm + ": success when no write failed", T.implies(T.and_(supported, T.not_(fail)), S("Success")), "post", ins)
        res.functions.append("save" + kind.capitalize()); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
    return unit
def fourcc(s): return sum(ord(c) << 8*i for i, c in enumerate(s))
def sel(c, a, b): return T.ite(c, C32(a) if isinstance(a, int) else a, C32(b) if isinstance(b, int) else b)
def per_texture(tx):
    return sel(tx.array, tx.d, 1)
def want_dds(ex, tx):
    f, has = table(tx, formats.dds, 32); mips = T.ult(C32(1), tx.L)
    flags = sel(tx.is3d, 0x82100F, 0x2100F)
    pitch = T.mul(tx.w, tx.bs)
    alpha = T.ite(hasalpha(tx), T.ite(T.eq(tx.alpha, C32(E("Texture::Alpha::Standard"))), C32(1), T.ite(T.eq(tx.alpha, C32(E("Texture::Alpha::PreMultiplied"))), C32(2), T.ite(T.eq(tx.alpha, C32(E("Texture::Alpha::Encoded"))), C32(4), C32(3)))), C32(3))
    caps = T.bvor(T.bvor(C32(0x1000), sel(mips, 0x400000, 0)), sel(T.or_(mips, tx.is3d, tx.cube, tx.array), 8, 0))
    h = Fields(("magic number", fourcc("DDS ")), ("header size", 124), ("flags", flags), ("height", tx.h), ("width", tx.w), ("pitch", pitch), ("depth", sel(tx.is3d, tx.d, 0)), ("mip count", tx.L),
               *[("reserved", 0)]*11, ("pixel format size", 32), ("pixel format flags", 4), ("pixel format code", fourcc("DX10")), *[("pixel format masks", 0)]*5,
               ("caps", caps), ("caps2", sel(tx.cube, 0xFE00, sel(tx.is3d, 0x200000, 0))), ("caps3", 0), ("caps4", 0), ("reserved2", 0),
               ("DXGI format", f), ("resource dimension", T.ite(tx.D_["Dim1D"], C32(2), sel(tx.is3d, 4, 3))), ("misc flag", sel(tx.cube, 4, 0)), ("array size", per_texture(tx)), ("alpha mode", alpha))
    data = Loop(per_texture(tx), lambda e: [Loop(tx.F, lambda fc: [Loop(tx.L, lambda m: [Loop(sel(tx.is3d, tx.Dp(m), 1), lambda v: [Data(m, T.add(v, e), fc)])])])])
    return has, [h, data], None
def blocksize(tx):
    r = C32(0)
    for n in tex.STANDARD: r = T.ite(T.eq(tx.f, C32(fmt(n))), C32(tex.std_bytes(n)), r)
    return r
def hasalpha(tx): return T.or_(*[T.eq(tx.f, C32(fmt(n))) for n in tex.STANDARD if "A" in n])
def want_pvr(ex, tx):
    f, has = table(tx, lambda f, t, s: formats.pvr(f), 64); ct, _ = table(tx, lambda f, t, s: formats.pvr_type(f, t), 32)
    meta = T.add(sel(tx.array, 16, 0), sel(tx.D_["Dim1D"], 16, 0))
    h = [Fields(("version", fourcc("PVR\x03")), ("flags", sel(T.eq(tx.alpha, C32(E("Texture::Alpha::PreMultiplied"))), 2, 0)), ("pixel format", f), ("colour space", sel(tx.srgb, 1, 0)), ("channel type", ct),
                ("height", tx.h), ("width", tx.w), ("depth", sel(tx.is3d, tx.d, 1)), ("surfaces", per_texture(tx)), ("faces", tx.F), ("mip count", tx.L), ("metadata size", meta))]
    blk = lambda c: Fields(("metadata owner", fourcc("CTFS")), ("metadata key", fourcc(c)), ("metadata data size", 4), ("metadata data", 0))
    data = Loop(tx.L, lambda m: [Loop(tx.Dp(m), lambda d: [Loop(tx.F, lambda fc: [Data(m, d, fc)])])])
    return has, h, (blk, data)
def pvr_for(dim, arr):
    def want(ex, tx):
        has, h, (blk, data) = want_pvr(ex, tx)
        return has, h + ([blk("ARRY")] if arr else []) + ([blk("DIM1")] if dim == "Dim1D" else []) + [data], None
    return want
def want_ktx(ex, tx):
    cols = [table(tx, lambda f, t, s, i=i: (formats.ktx(f, t, s) or [None]*5)[i], 32) for i in range(5)]; has = cols[0][1]; v = [c[0] for c in cols]
    bs = tx.bs
    ident = bytes([0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A])
    h = Fields(*[("identifier", T.const(c, 8)) for c in ident], ("endianness", 0x04030201), ("glType", v[0]), ("glTypeSize", v[1]), ("glFormat", v[2]), ("glInternalFormat", v[3]), ("glBaseInternalFormat", v[4]),
               ("width", tx.w), ("height", sel(tx.D_["Dim1D"], 0, tx.h)), ("depth", sel(tx.is3d, tx.d, 0)), ("array elements", sel(tx.array, tx.d, 0)), ("faces", tx.F), ("mip count", tx.L), ("key/value bytes", 0))
    def level(m):
        row = T.mul(tx.W(m), bs); padded = T.bvand(T.add(row, C32(3)), C32(0xfffffffc))
        size = T.mul(T.mul(tx.Dp(m), T.mul(padded, tx.H(m))), sel(tx.array, tx.F, 1))
        pad = T.sub(padded, row)
        return [Fields(("image size", size)), Loop(tx.Dp(m), lambda d: [Loop(tx.F, lambda fc: [Loop(tx.H(m), lambda y: [Data(m, d, fc, T.mul(T.zext(row, 64), T.zext(y, 64)), T.zext(row, 64)), Loop(pad, lambda i: [Fields(("padding", T.const(0, 8)))])])])])]
    return has, [h, Loop(tx.L, level)], None
def add_writer(ctx, kind, contents=True):
    for dim, arr in CASES:
        w = {"DDS": lambda d, a: want_dds, "KTX": lambda d, a: want_ktx, "PVR": pvr_for}[kind](dim, arr)
        ctx.unit("%s %s%s" % (kind, dim, " array" if arr else ""), writer_unit(kind, dim, arr, w, contents, not contents))
