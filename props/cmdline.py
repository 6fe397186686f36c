"""Contracts of the command line tool: numbers on the command line and the sizes they resolve to (C18)."""
import re
from vc import term as T, smt, build, execu as X, run
from .tex import C32, C64, Z64, find as _find, call, live

OPTS = ["OriginalSize", "NextPO2", "NearestPO2", "Width", "WidthNextPO2", "WidthNearestPO2", "Height", "HeightNextPO2", "HeightNearestPO2", "Min", "MinNextPO2", "MinNearestPO2", "Max", "MaxNextPO2", "MaxNearestPO2"]
NAMES = {"nextpo2": "NextPO2", "nearestpo2": "NearestPO2"}
for b in ("width", "height", "min", "max"):
    NAMES[b] = b.capitalize(); NAMES[b + "-nextpo2"] = b.capitalize() + "NextPO2"; NAMES[b + "-nearestpo2"] = b.capitalize() + "NearestPO2"
FIELDS = ["jobs", "imageType", "images", "width", "height", "resizeFilter", "mipLevels", "mipFilter", "customMipImages", "rotate", "rotateAngle", "normalMap", "normalOptions", "normalHeight", "log", "dimension"]
NOIN = [r"std::unordered_map<.*::emplace<", r"\(anonymous namespace\)::(nextPO2|nearestPO2|getDimension|loadAndProcessImage|isSigned|readIndex|readSize|readFilter|readCubeFace|readMipReplace|validate|printHelp|programName|faceName|matches)\(", r"^CommandLine::",
        r"^std::operator<< ?<", r"^std::basic_ostream<", r"^(?!.*(_M_|__detail|::pair))std::(__cxx11::)?(basic_string|vector|unordered_map)<", r"^CommandLine::CustomMipImage", r"^cuttlefish::"]
_m = {}
def modules():
    if "P" not in _m:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as p:
            ms = list(p.map(lambda s: build.ir(s, NOIN), ["tool/main.cpp", "tool/CommandLine.cpp"]))
        _m["P"] = X.Program(ms)
        _m["e"] = build.enum_values(["CommandLine.h", "cstddef"], ["CommandLine::" + o for o in OPTS] + ["offsetof(CommandLine, %s)" % f for f in FIELDS] + ["sizeof(CommandLine)", "Texture::allMipLevels", "Texture::allCores", "ColorSpace::Linear", "Image::Format::RGBAF"] +
                                    ["Image::RotateAngle::" + a for a in ("CW90", "CW180", "CW270", "CCW90", "CCW180", "CCW270")])
    return _m["P"]
def E(n): return _m["e"][n] & 0xffffffff
def OFF(f): return _m["e"]["offsetof(CommandLine, %s)" % f]
def find(rx): return _find(rx, modules())

# ---------------------------------------------------------------- powers of two
def next_po2(x):
    r = T.const(1 << 31, 32)
    for b in range(30, -1, -1): r = T.ite(T.ule(x, C32(1 << b)), C32(1 << b), r)
    return r
def ispo2(x): return T.and_(T.ne(x, C32(0)), T.eq(T.bvand(x, T.sub(x, C32(1))), C32(0)))
def absdiff(a, b): return T.ite(T.ult(a, b), T.sub(b, a), T.sub(a, b))
def is_next(r, x): return T.eq(r, next_po2(x))
def is_nearest(r, x):
    """r is a power of two and no other one is nearer (of two equally near ones either)"""
    n = next_po2(x); p = T.ite(T.eq(n, C32(1)), n, T.lshr(n, C32(1)))
    return T.and_(T.or_(T.eq(r, n), T.eq(r, p)), T.ule(absdiff(r, x), absdiff(n, x)), T.ule(absdiff(r, x), absdiff(p, x)))
def is_dimension(r, cur, w, h, size):
    mn, mx = T.ite(T.ult(w, h), w, h), T.ite(T.ult(w, h), h, w); g = []
    for o in OPTS:
        if o == "OriginalSize": f = T.eq(r, cur)
        else:
            b = next((v for k, v in (("Width", w), ("Height", h), ("Min", mn), ("Max", mx)) if o.startswith(k)), cur)
            f = is_next(r, b) if o.endswith("NextPO2") else is_nearest(r, b) if o.endswith("NearestPO2") else T.eq(r, b)
        g.append(T.implies(T.eq(size, C32(E("CommandLine::" + o))), f))
    g.append(T.implies(T.slt(C32(0), size), T.eq(r, size)))
    return g
def dim(n): return T.var(n, 32)
def unit_po2(res):
    for fn, spec in (("nextPO2", is_next), ("nearestPO2", is_nearest)):
        ex = X.Executor(modules()); x = dim("size"); ex.assumptions += [T.ule(C32(1), x), T.ule(x, C32(1 << 31))]
        st, r = call(ex, X.State(), find(r"::%s\(unsigned int\)$" % fn), [x])
        ex.oblige(st, fn + ": the documented power of two for every size", spec(r, x), "post", [x])
        res.functions.append(fn); run.discharge_into(res, ex.obs, [x]); run.collect(res, ex)
def unit_dimension(res):
    ex = X.Executor(modules()); cur, w, h, s = dim("current"), dim("width"), dim("height"), dim("size"); ins = [cur, w, h, s]
    ex.assumptions += [T.and_(T.ule(C32(1), x), T.ule(x, C32(1 << 31))) for x in (cur, w, h)]
    st, r = call(ex, X.State(), find(r"::getDimension\("), ins)
    for o, g in zip(OPTS + ["a number"], is_dimension(r, cur, w, h, s)): ex.oblige(st, "getDimension: %s" % o, g, "post", ins)
    res.functions.append("getDimension"); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)

# ---------------------------------------------------------------- the arguments
BIG = 80       # width of the mathematical value (saturated far above 64 bits)
def lower(c): return T.ite(T.and_(T.ule(T.const(65, 8), c), T.ule(c, T.const(90, 8))), T.add(c, T.const(32, 8)), c)
class Dead(Exception): pass
class Args:
    """argv: entries are given constant strings, or arbitrary strings; numbers in them by the contracts of strtol/strtoul/strtod"""
    def __init__(self, ex, argv):
        self.ex = ex; self.argv = argv; self.seen = {}; self.notoption = False
        for i, a in enumerate(argv):
            n = "arg%d" % i
            if a is None:
                self.init(n)
                ex.init_hooks[n] = lambda ex, b, off, size, ty, n=n: self.bytes(n, off, size)
                ex.sizes[n] = lambda b, n=n: T.add(self.len(n), C64(1))
            else:
                bs = a.encode() + b"\0"
                def hk(ex, b, off, size, ty, bs=bs):
                    if size != 1 or not T.isc(off): raise X.Unsupported("read of a constant argument")
                    return T.const(bs[off.x], 8)
                ex.init_hooks[n] = hk; ex.sizes[n] = lambda b, l=len(bs): C64(l)
        def argv_hook(ex, b, off, size, ty):
            if size != 8: raise X.Unsupported("read of argv")
            if T.isc(off):
                if off.x % 8 or off.x // 8 > len(argv): raise X.Unsupported("read beyond argv")
                return X.NULL if off.x // 8 == len(argv) else X.ptr(X.Base("arg%d" % (off.x // 8)))
            return X.Ptr([(T.eq(off, C64(8 * i)), X.Base("arg%d" % i), Z64) for i in range(len(argv))])
        ex.init_hooks["argv"] = argv_hook; ex.sizes["argv"] = lambda b: C64(8 * (len(argv) + 1))
        R = re.compile
        ex.contracts += [(R(r"^strlen$"), self.strlen), (R(r"^str(case)?cmp$"), self.strcmp), (R(r"^strn(case)?cmp$"), self.strcmp), (R(r"^(__isoc23_)?strto(ul|l|ull|ll)$"), self.strto), (R(r"^strtod$"), self.strtod), (R(r"^strchr$|^std::strchr\(|^strpbrk$"), self.strchr), (R(r"^__errno_location$"), self.errno)]
        ex.sizes["errno"] = lambda b: C64(4)
    # the ghost description of an arbitrary string
    def len(self, n): return T.var(n + ".len", 64)
    def conv(self, n): return T.var(n + ".isnumber", 0)          # a prefix is a number (after white space)
    def end(self, n): return T.var(n + ".end", 64)               # where that prefix ends
    def neg(self, n): return T.var(n + ".negative", 0)           # it has a minus sign
    def mag(self, n): return T.var(n + ".magnitude", BIG)        # its magnitude
    def dconv(self, n): return T.var(n + ".isreal", 0)
    def dend(self, n): return T.var(n + ".realend", 64)
    def dval(self, n): return T.var(n + ".real", 64)
    def char(self, n, i):
        c = T.uf(n + ".char", [i], 8); s = self.seen.setdefault(n, [])
        if not any(i is x for x in s):
            s.append(i); A = self.ex.assumptions
            A += [T.implies(T.eq(i, self.len(n)), T.eq(c, T.const(0, 8))), T.implies(T.ult(i, self.len(n)), T.ne(c, T.const(0, 8)))]
        return c
    def isdigit(self, c): return T.and_(T.ule(T.const(48, 8), c), T.ule(c, T.const(57, 8)))
    def init(self, n):
        A = self.ex.assumptions; L = self.len(n); c0 = self.char(n, Z64)
        A += [T.ult(L, C64(1 << 40)), T.implies(self.conv(n), T.and_(T.ule(C64(1), self.end(n)), T.ule(self.end(n), L))), T.implies(self.dconv(n), T.and_(T.ule(C64(1), self.dend(n)), T.ule(self.dend(n), L))),
              T.ult(self.mag(n), T.const(1 << 72, BIG)),
              # a number that starts with a digit has no sign; one that starts with a minus sign is negative
              T.implies(self.isdigit(c0), T.and_(self.conv(n), T.not_(self.neg(n)))), T.implies(T.and_(self.conv(n), T.eq(c0, T.const(45, 8))), self.neg(n)),
              T.implies(T.and_(self.conv(n), T.not_(self.isdigit(c0))), T.or_(T.eq(c0, T.const(45, 8)), T.eq(c0, T.const(43, 8)), T.eq(c0, T.const(32, 8)), T.and_(T.ule(T.const(9, 8), c0), T.ule(c0, T.const(13, 8)))))]
        for i in range(3): self.char(n, C64(i))
    def whole(self, n): return T.and_(self.conv(n), T.eq(self.end(n), self.len(n)))
    def plain(self, n): return T.and_(self.whole(n), self.isdigit(self.char(n, Z64)))        # digits only
    def plain_neg(self, n): return T.and_(self.whole(n), T.eq(self.char(n, Z64), T.const(45, 8)))
    def bytes(self, n, off, size):
        if size != 1: raise X.Unsupported("wide read of an argument")
        c = self.char(n, off)
        return c
    def kind(self, st, p):
        r = []
        for c, b, o in p.cases:
            if b is None: raise X.Unsupported("null string")
            m = re.match(r"arg(\d+)$", b.name)
            if m and self.argv[int(m.group(1))] is None: r.append((c, b.name, o))
            elif (m or b.name.startswith("ro:")) and T.isc(o):
                if m: r.append((c, None, self.argv[int(m.group(1))].encode()[o.x:]))
                else:
                    out = []
                    while True:
                        ch = self.ex.read(st, b, T.add(o, C64(len(out))), 1, ("int", 8))
                        if not T.isc(ch): raise X.Unsupported("string contents")
                        if ch.x == 0: break
                        out.append(ch.x)
                    r.append((c, None, bytes(out)))
            else: raise X.Unsupported("string " + b.name)
        return r
    def one(self, st, p):
        if len(p.cases) > 1:
            p = live(self.ex, st, p)
            if not p.cases: raise Dead()         # the solver shows that this path is not taken
        k = self.kind(st, p)
        if len(k) != 1: raise X.Unsupported("ambiguous string")
        return k[0][1:]
    def strlen(self, ex, fr, st, ins, dem, v):
        r = None
        for c, n, o in self.kind(st, v[0]):
            if n is not None: ex.oblige(st, "strlen: within the string", T.implies(c, T.ule(o, self.len(n))), "bounds")
            x = C64(len(o)) if n is None else T.sub(self.len(n), o); r = x if r is None else T.ite(c, x, r)
        return r
    def strcmp(self, ex, fr, st, ins, dem, v):
        if dem.startswith("strn"): raise X.Unsupported(dem)
        ci = "case" in dem; r = None
        ps = [live(ex, st, p) if len(p.cases) > 1 else p for p in v[:2]]
        if not all(p.cases for p in ps): return C32(1)       # the solver shows that this path is not taken
        for c1, n1, a in self.kind(st, ps[0]):
            for c2, n2, b in self.kind(st, ps[1]):
                x = self.cmp1(n1, a, n2, b, ci); r = x if r is None else T.ite(T.and_(c1, c2), x, r)
        return r
    def cmp1(self, n1, a, n2, b, ci):
        if n1 is None and n2 is None:
            if ci: a, b = a.lower(), b.lower()
            return C32(0 if a == b else (1 if a > b else 0xffffffff))
        if n1 is None: n1, a, n2, b = n2, b, n1, a
        if n2 is not None or not (T.isc(a) and a.x == 0): raise X.Unsupported("comparison of two arguments")
        if b[:1] == b"-" and self.notoption and not ci: return C32(1)        # the argument is none of the options' names
        eq = T.TRUE
        for i, ch in enumerate(list(b) + [0]):
            x = self.char(n1, C64(i)); eq = T.and_(eq, T.eq(lower(x) if ci else x, T.const(ord(chr(ch).lower()) if ci else ch, 8)))
        # (the sign of an inequality is not used by the contract)
        return T.ite(eq, C32(0), C32(1))
    def put_end(self, ex, st, p, n, off):
        for c, b, o in p.cases:
            if b is not None: ex.write(st, b, o, 8, X.Ptr([(T.TRUE, X.Base(n), off)]))
    def errno(self, ex, fr, st, ins, dem, v): return X.ptr(X.Base("errno"))
    def toul(self, n):
        m = self.mag(n); over = T.ult(T.const((1 << 64) - 1, BIG), m); lo = T.extract(m, 63, 0)
        return T.ite(over, C64((1 << 64) - 1), T.ite(self.neg(n), T.sub(Z64, lo), lo)), over
    def tol(self, n):
        m = self.mag(n); B = lambda x: T.const(x, BIG); lo = T.extract(m, 63, 0)
        return T.ite(self.neg(n), T.ite(T.ult(B(1 << 63), m), C64(1 << 63), T.sub(Z64, lo)), T.ite(T.ult(B((1 << 63) - 1), m), C64((1 << 63) - 1), lo)), T.ite(self.neg(n), T.ult(B(1 << 63), m), T.ult(B((1 << 63) - 1), m))
    def strto(self, ex, fr, st, ins, dem, v):
        try: n, o = self.one(st, v[0]); base = v[2]
        except Dead: self.put_end(ex, st, v[1], "arg0", Z64); return Z64
        if not (T.isc(base) and base.x == 10): 
            ex.oblige(st, "numbers are read in base 10", T.FALSE, "post"); raise X.Unsupported("base of a number")
        if n is None:
            m = re.match(rb"[ \t\n\v\f\r]*([+-]?\d+)", o); (b0, o0), = [(b, oo) for c, b, oo in v[0].cases if b is not None][:1]
            if m and not 0 <= int(m.group(1)) < 1 << 63: raise X.Unsupported("number in a constant")
            self.put_end(ex, st, v[1], b0.name, T.add(o0, C64(m.end() if m else 0))); return C64(int(m.group(1)) if m else 0)
        if not (T.isc(o) and o.x == 0): raise X.Unsupported("number within an argument")
        self.put_end(ex, st, v[1], n, T.ite(self.conv(n), self.end(n), Z64))
        r, over = self.toul(n) if "ul" in dem else self.tol(n)
        e = ex.read(st, X.Base("errno"), Z64, 4, ("int", 32))
        ex.write(st, X.Base("errno"), Z64, 4, T.ite(T.and_(self.conv(n), over), C32(34), e))
        return T.ite(self.conv(n), r, Z64)
    def strtod(self, ex, fr, st, ins, dem, v):
        try: n, o = self.one(st, v[0])
        except Dead: self.put_end(ex, st, v[1], "arg0", Z64); return Z64
        if n is None or not (T.isc(o) and o.x == 0): raise X.Unsupported("number in a constant")
        self.put_end(ex, st, v[1], n, T.ite(self.dconv(n), self.dend(n), Z64))
        return T.ite(self.dconv(n), self.dval(n), Z64)
    def strchr(self, ex, fr, st, ins, dem, v):
        try: n, o = self.one(st, v[0])
        except Dead: return X.NULL
        if n is None or not (T.isc(o) and o.x == 0) or not T.isc(v[1]) or "pbrk" in dem: raise X.Unsupported("search in an argument")
        ch = T.const(v[1].x & 255, 8); j = X.fresh("found", 64); f = T.var("%s.has%d" % (n, v[1].x & 255), 0)
        A = self.ex.assumptions
        st.assume = st.assume + [T.implies(f, T.and_(T.ule(j, self.len(n)), T.eq(self.char(n, j), ch)))]
        for i in list(self.seen.get(n, [])): A.append(T.implies(T.and_(T.ule(i, self.len(n)), T.eq(self.char(n, i), ch)), f))
        if v[1].x == 45: A.append(T.implies(self.whole(n), T.iff(f, self.neg(n))))      # a number has no other minus sign
        elif not (48 <= v[1].x <= 57): A.append(T.implies(self.plain(n), T.not_(f)))
        return X.Ptr([(f, X.Base(n), j), (T.not_(f), None, Z64)])
    def eqs(self, n, s, ci=True):
        r = T.TRUE
        for i, ch in enumerate(s + "\0"): x = self.char(n, C64(i)); r = T.and_(r, T.eq(lower(x) if ci else x, T.const(ord(ch), 8)))
        return r
    def finish(self):
        for o in self.ex.obs: o.hyps = self.ex.assumptions + o.hyps

def ostream(ex):
    """output on the console has no effect on the state"""
    R = re.compile; ret = lambda ex, fr, st, ins, dem, v: v[0]
    ex.contracts += [(R(r"^std::operator<< ?<|^std::(basic_ostream|ostream)<.*>::operator<<|^std::ostream::operator<<|^std::basic_ostream<.*>& std::(operator<<|endl)|^std::(endl|__ostream_insert)|std::basic_ostream<char, std::char_traits<char> ?>& std::"), ret),
                     (R(r"\(anonymous namespace\)::(programName|faceName|fileTypeName|typeName|formatName)\("), lambda ex, fr, st, ins, dem, v: X.ptr(X.Base("text"))), (R(r"\(anonymous namespace\)::printHelp\("), lambda *a: None)]
CHKI, CHKS = (1, (1 << 32) - 2), (1, (1 << 31) - 1)
def num_in(A, n, lo, hi): return T.and_(T.ule(T.const(lo, BIG), A.mag(n)), T.ule(A.mag(n), T.const(hi, BIG)))
def rd(ex, st, base, off, size): return ex.read(st, X.Base(base), C64(off), size, ("int", 8 * size))
def local(ex, name, size): ex.sizes[name] = lambda b: C64(size)

def unit_readindex(res):
    for present in (False, True):
        ex = X.Executor(modules()); A = Args(ex, ["cuttlefish", "-m"] + ([None] if present else [])); ostream(ex); n = "arg2"
        local(ex, "index", 8); local(ex, "i", 4); st = X.State(); old = T.var("old", 64)
        ex.write(st, X.Base("index"), Z64, 8, old); ex.write(st, X.Base("i"), Z64, 4, C32(1))
        st, r = call(ex, st, find(r"::readIndex\("), [X.ptr(X.Base("index")), X.ptr(X.Base("i")), C32(3 if present else 2), X.ptr(X.Base("argv"))]); r = boolean(r)
        val, i = rd(ex, st, "index", 0, 8), rd(ex, st, "i", 0, 4)
        if not present: ex.oblige(st, "readIndex: nothing to read", T.and_(T.not_(r), T.eq(i, C32(1))), "post")
        else:
            ins = [A.mag(n)]
            ex.oblige(st, "readIndex: accepted only if the whole argument is a number that fits", T.implies(r, T.and_(A.whole(n), num_in(A, n, 0, (1 << 32) - 1), T.or_(T.not_(A.neg(n)), T.eq(A.mag(n), T.const(0, BIG))))), "post", ins)
            ex.oblige(st, "readIndex: the value is the number", T.implies(r, T.eq(val, T.extract(A.mag(n), 63, 0))), "post", ins)
            ex.oblige(st, "readIndex: every number that fits is accepted", T.implies(T.and_(A.plain(n), num_in(A, n, 0, (1 << 32) - 2)), r), "post", ins)
            ex.oblige(st, "readIndex: an accepted argument is consumed, another one is not", T.eq(i, T.ite(r, C32(2), C32(1))), "post", ins)
        A.finish(); res.functions.append("readIndex"); run.discharge_into(res, ex.obs, []); run.collect(res, ex)
def boolean(r): return r if r.w == 0 else T.ne(r, T.const(0, r.w))
def size_spec(ex, st, A, n, ok, val, what, ins):
    named = T.or_(*[A.eqs(n, k) for k in NAMES])
    for k, o in NAMES.items(): ex.oblige(st, "%s: %s" % (what, k), T.implies(A.eqs(n, k), T.and_(ok, T.eq(val, C32(E("CommandLine::" + o))))), "post", ins)
    ex.oblige(st, what + ": otherwise accepted only if the whole argument is a positive number that fits", T.implies(T.and_(ok, T.not_(named)), T.and_(A.whole(n), T.not_(A.neg(n)), num_in(A, n, *CHKS))), "post", ins)
    ex.oblige(st, what + ": the size is the number", T.implies(T.and_(ok, T.not_(named)), T.eq(val, T.extract(A.mag(n), 31, 0))), "post", ins)
    ex.oblige(st, what + ": every number that fits is accepted", T.implies(T.and_(A.plain(n), num_in(A, n, *CHKS)), ok), "post", ins)
def unit_readsize(res):
    for present in (False, True):
        ex = X.Executor(modules()); A = Args(ex, ["cuttlefish", "-r"] + ([None] if present else [])); ostream(ex); n = "arg2"
        local(ex, "size", 4); local(ex, "i", 4); st = X.State()
        ex.write(st, X.Base("size"), Z64, 4, T.var("old", 32)); ex.write(st, X.Base("i"), Z64, 4, C32(1))
        st, r = call(ex, st, find(r"::readSize\("), [X.ptr(X.Base("size")), X.ptr(X.Base("i")), C32(3 if present else 2), X.ptr(X.Base("argv"))]); r = boolean(r)
        val, i = rd(ex, st, "size", 0, 4), rd(ex, st, "i", 0, 4); ins = [A.mag(n)]
        if not present: ex.oblige(st, "readSize: nothing to read", T.not_(r), "post")
        else:
            size_spec(ex, st, A, n, r, val, "readSize", ins)
            ex.oblige(st, "readSize: the argument is consumed", T.implies(r, T.eq(i, C32(2))), "post", ins)
        A.finish(); res.functions.append("readSize"); run.discharge_into(res, ex.obs, []); run.collect(res, ex)

# ---------------------------------------------------------------- whole command lines
def parse(argv, setup=None):
    """CommandLine::parse on given options with arbitrary (non-option) strings as arguments"""
    ex = X.Executor(modules(), opts={"unroll_bounded": 6}); A = Args(ex, argv); A.notoption = True; ostream(ex)
    sz = _m["e"]["sizeof(CommandLine)"]; ex.sizes["cl"] = lambda b: C64(sz)
    def hook(ex, b, off, size, ty):
        if not T.isc(off): raise X.Unsupported("field")
        return T.var("old.%d.%d" % (off.x, size), 8 * size)
    ex.init_hooks["cl"] = hook; valid = T.var("valid", 0)
    def validate(ex, fr, st, ins, dem, v): st.trace.append(X.Event("validate", ())); return valid
    if setup: setup(ex)
    ex.contracts += [(re.compile(r"::validate\("), validate)]
    st = X.State()
    st, r = call(ex, st, find(r"^CommandLine::parse\("), [X.ptr(X.Base("cl")), C32(len(argv)), X.ptr(X.Base("argv"))])
    return ex, st, boolean(r), A, T.or_(*[e.guard for e in st.trace if e.name == "validate"])
def field(ex, st, f, size): return rd(ex, st, "cl", OFF(f), size)
def old(f, size): return T.var("old.%d.%d" % (OFF(f), size), 8 * size)
def done(res, ex, A, what): A.finish(); res.functions.append("CommandLine::parse[%s]" % what); run.discharge_into(res, ex.obs, []); run.collect(res, ex)
def unit_parse_count(res, opt, f, default):
    """-j [n], -m [levels]"""
    ex, st, r, A, ran = parse(["cuttlefish", opt, None]); n = "arg2"; ins = [A.mag(n)]; v = field(ex, st, f, 4)
    flt = T.or_(*[A.eqs(n, k) for k in ("box", "linear", "cubic", "b-spline", "catmull-rom")]) if opt in ("-m", "--mipmap") else T.FALSE
    ok = T.var("valid", 0)
    ex.oblige(st, opt + ": accepted only with a whole number that fits", T.implies(T.and_(ran, T.not_(flt)), T.and_(A.whole(n), num_in(A, n, 0, (1 << 32) - 1), T.or_(T.not_(A.neg(n)), T.eq(A.mag(n), T.const(0, BIG))))), "post", ins)
    ex.oblige(st, opt + ": exactly that number is used", T.implies(T.and_(ran, T.not_(flt)), T.eq(v, T.extract(A.mag(n), 31, 0))), "post", ins)
    ex.oblige(st, opt + ": every number that fits is accepted", T.implies(T.and_(A.plain(n), num_in(A, n, 0, (1 << 32) - 2)), ran), "post", ins)
    ex.oblige(st, opt + ": rejected arguments fail, accepted ones are validated", T.iff(r, T.and_(ran, ok)), "post", ins)
    ex.oblige(st, opt + ": without a number the default is used", T.implies(flt, T.and_(ran, T.eq(v, C32(E("Texture::" + default))))), "post", ins)
    done(res, ex, A, opt)
    ex, st, r, A, ran = parse(["cuttlefish", opt])
    ex.oblige(st, opt + ": the last argument gives the default", T.and_(ran, T.eq(field(ex, st, f, 4), C32(E("Texture::" + default)))), "post")
    done(res, ex, A, opt)
def unit_parse_rotate(res):
    ex, st, r, A, ran = parse(["cuttlefish", "--rotate", None]); n = "arg2"; ins = [A.mag(n)]
    v, over = A.tol(n); fits = T.not_(over); mult = T.eq(T.srem(v, C64(90)), Z64); quarter = T.srem(v, C64(360))
    ex.oblige(st, "--rotate: accepted only with a whole number", T.implies(ran, A.whole(n)), "post", ins)
    ex.oblige(st, "--rotate: accepted only with a multiple of 90", T.implies(ran, mult), "post", ins)
    for g, w in ((A.neg(n), "negative "), (T.not_(A.neg(n)), "")): ex.oblige(st, "--rotate: %snumbers that do not fit are rejected" % w, T.implies(T.and_(g, over), T.not_(ran)), "post", ins)
    ex.oblige(st, "--rotate: every multiple of 90 is accepted", T.implies(T.and_(T.or_(A.plain(n), A.plain_neg(n)), fits, mult), ran), "post", ins)
    rot, ang = T.ne(field(ex, st, "rotate", 1), T.const(0, 8)), field(ex, st, "rotateAngle", 4); R = lambda *k: T.or_(*[T.eq(ang, C32(E("Image::RotateAngle::" + x))) for x in k])
    for q, (names, deg) in {0: ((), 0), 90: (("CW90", "CCW270"), 90), 180: (("CW180", "CCW180"), 180), 270: (("CW270", "CCW90"), 270)}.items():
        isq = T.or_(T.eq(quarter, C64(q)), T.eq(quarter, T.const((q - 360) % (1 << 64), 64)))
        ex.oblige(st, "--rotate: %d degrees clockwise" % deg, T.implies(T.and_(ran, isq), T.not_(rot) if not q else T.and_(rot, R(*names))), "post", ins)
    ex.oblige(st, "--rotate: rejected arguments fail, accepted ones are validated", T.iff(r, T.and_(ran, T.var("valid", 0))), "post", ins)
    done(res, ex, A, "--rotate")
    ex, st, r, A, ran = parse(["cuttlefish", "--rotate"]); ex.oblige(st, "--rotate: an argument is required", T.not_(T.or_(r, ran)), "post"); done(res, ex, A, "--rotate")
def unit_parse_resize(res):
    ex, st, r, A, ran = parse(["cuttlefish", "-r", None, None])
    for n, f in (("arg2", "width"), ("arg3", "height")): size_spec(ex, st, A, n, ran if 0 else T.and_(ran), field(ex, st, f, 4), "-r %s" % f, [A.mag(n)]) if 0 else None
    good = {}
    for n in ("arg2", "arg3"):
        named = T.or_(*[A.eqs(n, k) for k in NAMES]); good[n] = T.or_(named, T.and_(A.plain(n), num_in(A, n, *CHKS)))
    for n, f in (("arg2", "width"), ("arg3", "height")):
        v = field(ex, st, f, 4); ins = [A.mag(n)]; named = T.or_(*[A.eqs(n, k) for k in NAMES])
        for k, o in NAMES.items(): ex.oblige(st, "-r: %s %s" % (f, k), T.implies(T.and_(ran, A.eqs(n, k)), T.eq(v, C32(E("CommandLine::" + o)))), "post", ins)
        ex.oblige(st, "-r: %s accepted only if it is a whole positive number that fits" % f, T.implies(T.and_(ran, T.not_(named)), T.and_(A.whole(n), T.not_(A.neg(n)), num_in(A, n, *CHKS))), "post", ins)
        ex.oblige(st, "-r: the %s is the number" % f, T.implies(T.and_(ran, T.not_(named)), T.eq(v, T.extract(A.mag(n), 31, 0))), "post", ins)
    ex.oblige(st, "-r: sizes that fit are accepted", T.implies(T.and_(*good.values()), ran), "post")
    ex.oblige(st, "-r: rejected arguments fail, accepted ones are validated", T.iff(r, T.and_(ran, T.var("valid", 0))), "post")
    done(res, ex, A, "-r")
    ex, st, r, A, ran = parse(["cuttlefish", "-r", None]); ex.oblige(st, "-r: two arguments are required", T.not_(T.or_(r, ran)), "post"); done(res, ex, A, "-r")
def unit_parse_normal(res, wrap=None):
    ex, st, r, A, ran = parse(["cuttlefish", "-n"] + ([wrap] if wrap else []) + [None]); n = "arg3" if wrap else "arg2"
    wraps = T.FALSE if wrap else T.or_(*[A.eqs(n, k) for k in ("wrap", "wrapx", "wrapy")]); whole = T.and_(A.dconv(n), T.eq(A.dend(n), A.len(n)))
    h = field(ex, st, "normalHeight", 8)
    ex.oblige(st, "-n: accepted only with a whole number", T.implies(T.and_(ran, T.not_(wraps)), T.and_(whole, T.eq(h, A.dval(n)))), "post")
    ex.oblige(st, "-n: every whole number is accepted", T.implies(T.and_(whole, T.not_(wraps)), ran), "post")
    ex.oblige(st, "-n: rejected arguments fail, accepted ones are validated", T.iff(r, T.and_(ran, T.var("valid", 0))), "post")
    done(res, ex, A, "-n")
def images(ex, argv):
    """the list of image names: a vector of strings by contract; `count` names so far, empty or not"""
    N = T.var("count", 64); R = re.compile; VS = r"std::vector<std::__cxx11::basic_string<.*> ?>::"
    ex.assumptions.append(T.ult(N, C64(1 << 32))); ex.sizes["name"] = lambda b: C64(32)
    isimg = lambda v: len(v.cases) == 1 and v.cases[0][1] is not None and v.cases[0][1].name == "cl" and T.isc(v.cases[0][2]) and v.cases[0][2].x == OFF("images")
    def chk(v):
        if not isimg(v): raise X.Unsupported("another list")
    def cur(st): return st.ghost.get("count", N)
    def empty(ex, fr, st, ins, dem, v): chk(v[0]); return T.eq(cur(st), Z64)
    def size(ex, fr, st, ins, dem, v): chk(v[0]); return cur(st)
    def resize(ex, fr, st, ins, dem, v): chk(v[0]); st.ghost["count"] = v[1]
    def index(ex, fr, st, ins, dem, v):
        chk(v[0]); ex.oblige(st, "image list: the index is within the list", T.ult(v[1], cur(st)), "pre"); return X.Ptr([(T.TRUE, X.Base("name", (v[1],)), Z64)])
    def sempty(ex, fr, st, ins, dem, v):
        (b, o) = v[0].single()
        if b.name != "name": raise X.Unsupported("string")
        return T.or_(T.not_(T.ult(b.idx[0], N)), T.var("free", 0))
    def assign(ex, fr, st, ins, dem, v):
        (b, o) = v[0].single()
        if b.name != "name": raise X.Unsupported("string")
        st.trace.append(X.Event("image", (b.idx[0], v[1]))); return v[0]
    ex.contracts[:0] = [(R("^" + VS + r"empty\("), empty), (R("^" + VS + r"size\("), size), (R("^" + VS + r"resize\(unsigned long\)"), resize), (R("^" + VS + r"operator\[\]\("), index),
                        (R(r"^std::__cxx11::basic_string<.*>::empty\("), sempty), (R(r"^std::__cxx11::basic_string<.*>::operator=\(char const\*\)"), assign)]
    return N
FACES = ["+x", "-x", "+y", "-y", "+z", "-z"]
def isarg(st, ex, p, n):
    return T.and_(*[T.TRUE if b is not None and b.name == n else T.not_(c) for c, b, o in p.cases])
def unit_parse_array(res, face=None):
    """-a [n] file, -C n face file"""
    hold = {}
    argv = ["cuttlefish", "-C", None, face, "file.png"] if face else ["cuttlefish", "-a", None, "file.png"]
    def setup(ex): hold["N"] = images(ex, argv)
    ex, st, r, A, ran = parse(argv, setup); n = "arg2"; ins = [A.mag(n)]; what = argv[1]
    num = T.extract(A.mag(n), 63, 0); want = T.add(T.mul(num, C64(6)), C64(FACES.index(face))) if face else num
    ev = [e for e in st.trace if e.name == "image"]; some = T.or_(*[e.guard for e in ev])
    ex.oblige(st, what + ": accepted only with a whole number that fits", T.implies(ran, T.and_(A.whole(n), num_in(A, n, 0, (1 << 32) - 1), T.or_(T.not_(A.neg(n)), T.eq(A.mag(n), T.const(0, BIG))))), "post", ins)
    ex.oblige(st, what + ": an image is set when accepted", T.implies(ran, some), "post", ins)
    for e in ev: ex.oblige(st, what + ": the image is set at exactly that index", T.implies(T.and_(e.guard, ran), T.and_(T.eq(e.args[0], want), isarg(st, ex, e.args[1], "arg%d" % (len(argv) - 1)))), "post", ins)
    typ = T.eq(T.var("old.%d.4" % OFF("imageType"), 32), C32(3 if face else 1))
    ex.oblige(st, what + ": every number that fits is accepted", T.implies(T.and_(A.plain(n), num_in(A, n, 0, (1 << 32) - 2), T.or_(T.eq(hold["N"], Z64), typ), T.not_(T.and_(T.ult(want, hold["N"]), T.not_(T.var("free", 0))))), ran), "post", ins)
    done(res, ex, A, what)
def unit_parse_mip(res, depth=False, face=None):
    """-M level [depth] [face] file: which level, depth and face the image is given for"""
    argv = ["cuttlefish", "-M", None] + ([None] if depth else []) + ([face] if face else []) + ["file.png"]; fresh = T.var("fresh", 0); S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
    def setup(ex):
        R = re.compile
        def string(ex, fr, st, ins, dem, v):
            b, o = v[0].single(); ex.write(st, b, o, 8, v[1])
        def custom(ex, fr, st, ins, dem, v):
            b, o = v[0].single(); b2, o2 = v[1].single(); ex.write(st, b, o, 8, ex.read(st, b2, o2, 8, ("ptr",))); ex.write(st, b, T.add(o, C64(32)), 4, v[2])
        def emplace(ex, fr, st, ins, dem, v):
            (b, o), (b2, o2) = v[-2].single(), v[-1].single()
            st.trace.append(X.Event("mip", tuple(ex.read(st, b, T.add(o, C64(4 * i)), 4, ("int", 32)) for i in range(3)) + (ex.read(st, b2, o2, 8, ("ptr",)), ex.read(st, b2, T.add(o2, C64(32)), 4, ("int", 32)))))
            return (X.ptr(X.Base("node")), T.ite(fresh, T.const(1, 8), T.const(0, 8)))
        ex.contracts[:0] = [(R(r"std::unordered_map<cuttlefish::Texture::ImageIndex.*::emplace<"), emplace), (R("^" + S + r"::basic_string\(char const\*"), string), (R("^" + S + r"::~basic_string\("), lambda *a: None),
                            (R(r"^CommandLine::CustomMipImage::CustomMipImage\(" + S), custom), (R(r"^CommandLine::CustomMipImage::~CustomMipImage\("), lambda *a: None)]
    ex, st, r, A, ran = parse(argv, setup); n, d = "arg2", "arg3"; ins = [A.mag(n)] + ([A.mag(d)] if depth else [])
    ev = [e for e in st.trace if e.name == "mip"]; some = T.or_(*[e.guard for e in ev]); face_i = C32(FACES.index(face) if face else 0)
    fits = lambda n: T.and_(A.whole(n), num_in(A, n, 0, (1 << 32) - 1), T.or_(T.not_(A.neg(n)), T.eq(A.mag(n), T.const(0, BIG)))); low = lambda n: T.extract(A.mag(n), 31, 0)
    # (another argument there is a face, replacement mode or the file itself)
    other = T.FALSE if not depth else T.or_(*[A.eqs(d, k) for k in FACES + ["once", "continue"]])
    ex.oblige(st, "-M: accepted only with a whole number that fits as level", T.implies(ran, fits(n)), "post", ins)
    ex.oblige(st, "-M: an image is added when accepted", T.implies(ran, some), "post", ins)
    for e in ev:
        g = T.and_(e.guard, ran); file = isarg(st, ex, e.args[3], "arg%d" % (len(argv) - 1))
        ex.oblige(st, "-M: the level is the number", T.implies(g, T.eq(e.args[1], low(n))), "post", ins)
        if depth:
            ex.oblige(st, "-M: the depth is the number", T.implies(T.and_(g, T.not_(other)), T.and_(fits(d), T.eq(e.args[2], low(d)))), "post", ins)
            g = T.and_(g, T.not_(other))
        else: ex.oblige(st, "-M: the depth is 0 unless given", T.implies(g, T.eq(e.args[2], C32(0))), "post", ins)
        ex.oblige(st, "-M: the face is the given one, or the first", T.implies(g, T.eq(e.args[0], face_i)), "post", ins)
        ex.oblige(st, "-M: the image is the given file", T.implies(g, file), "post", ins)
    plain = [T.and_(A.plain(x), num_in(A, x, 0, (1 << 32) - 2)) for x in ([n, d] if depth else [n])]
    ex.oblige(st, "-M: numbers that fit are accepted", T.implies(T.and_(fresh, *plain), ran), "post", ins)
    ex.oblige(st, "-M: rejected arguments fail, accepted ones are validated", T.iff(r, T.and_(ran, T.var("valid", 0))), "post", ins)
    done(res, ex, A, "-M")

# ---------------------------------------------------------------- the sizes of the images
def unit_load(res):
    """loadAndProcessImage: what the image is resized to"""
    ex = X.Executor(modules()); R = re.compile; sz = _m["e"]["sizeof(CommandLine)"]; ex.sizes["cl"] = lambda b: C64(sz); A = Args(ex, []); ostream(ex)
    fields = {}
    def hook(ex, b, off, size, ty):
        if not T.isc(off): raise X.Unsupported("field")
        return T.var("old.%d.%d" % (off.x, size), 8 * size)
    ex.init_hooks["cl"] = hook
    for f in ("width", "height"): fields[f] = T.var("old.%d.4" % OFF(f), 32)
    iw, ih = dim("image.width"), dim("image.height"); loaded = T.var("loaded", 0)
    ex.assumptions += [T.and_(T.ule(C32(1), x), T.ule(x, C32(1 << 31))) for x in (iw, ih)]
    for n in ("w", "h"): ex.sizes[n] = lambda b: C64(4)
    IM = r"^cuttlefish::Image::"
    def dims(st, p):
        b, o = p.single(); return st.ghost.get("img:" + b.name)
    def load(ex, fr, st, ins, dem, v): st.ghost["img:image"] = (iw, ih); st.trace.append(X.Event("load", ())); return loaded
    def width(ex, fr, st, ins, dem, v): return dims(st, v[0])[0]
    def height(ex, fr, st, ins, dem, v): return dims(st, v[0])[1]
    def new(swap=False):
        def f(ex, fr, st, ins, dem, v): 
            b, o = v[0].single(); st.ghost["img:" + b.name] = dims(st, v[1])
        return f
    def resize(ex, fr, st, ins, dem, v):
        b, o = v[0].single(); st.ghost["img:" + b.name] = (v[2], v[3]); st.trace.append(X.Event("resize", (v[2], v[3], dims(st, v[1]), v[4])))
    def move(ex, fr, st, ins, dem, v):
        b, o = v[0].single(); st.ghost["img:" + b.name] = dims(st, v[1]); return v[0]
    void = lambda *a: None; one = lambda ex, fr, st, ins, dem, v: T.var("done!", 0)
    ex.contracts[:0] = [(R(IM + r"load\("), load), (R(IM + r"width\("), width), (R(IM + r"height\("), height), (R(IM + r"format\("), lambda ex, fr, st, ins, dem, v: X.fresh("format", 32)), (R(IM + r"resize\("), resize),
                        (R(IM + r"(convert|rotate|createNormalMap)\("), new()), (R(IM + r"operator=\("), move), (R(IM + r"~Image\("), void), (R(IM + r"(changeColorSpace|flip\w+|swizzle|grayscale|preMultiplyAlpha)\("), one),
                        (R(r"^cuttlefish::Texture::adjustImageValueRange\("), void), (R(r"std::__cxx11::basic_string<.*::c_str\("), lambda *a: X.ptr(X.Base("pathchars"))), (R(r"::isSigned\("), lambda *a: T.var("signed", 0)),
                        (R(r"::getDimension\("), lambda ex, fr, st, ins, dem, v: getdim(ex, st, v))]
    def getdim(ex, st, v):
        # by its contract (unit getDimension); the result is a function of the arguments
        ok = T.or_(T.slt(C32(0), v[3]), *[T.eq(v[3], C32(E("CommandLine::" + o))) for o in OPTS])
        ex.oblige(st, "getDimension: called with sizes of images", T.and_(*[T.and_(T.ule(C32(1), x), T.ule(x, C32(1 << 31))) for x in v[:3]]), "pre")
        r = T.uf("dimension", list(v), 32); return r
    w0, h0, lev = dim("width"), dim("height"), dim("level"); ex.assumptions.append(T.ult(lev, C32(32)))
    st = X.State(); ex.write(st, X.Base("w"), Z64, 4, w0); ex.write(st, X.Base("h"), Z64, 4, h0)
    st, r = call(ex, st, find(r"::loadAndProcessImage\("), [X.ptr(X.Base("image")), X.ptr(X.Base("cl")), X.ptr(X.Base("path")), X.ptr(X.Base("w")), X.ptr(X.Base("h")), lev]); r = boolean(r)
    W, H = rd(ex, st, "w", 0, 4), rd(ex, st, "h", 0, 4); un = T.and_(T.eq(w0, C32(0xffffffff)), T.eq(h0, C32(0xffffffff))); ins = [w0, h0, lev, iw, ih]
    ex.oblige(st, "image: failing to load is reported", T.iff(r, loaded), "post", ins)
    D = lambda c, f: T.uf("dimension", [c, iw, ih, fields[f]], 32)
    ex.oblige(st, "image: the texture's width is the requested one for the first image", T.implies(r, T.eq(W, T.ite(un, D(iw, "width"), w0))), "post", ins)
    ex.oblige(st, "image: the texture's height is the requested one for the first image", T.implies(r, T.eq(H, T.ite(un, D(ih, "height"), h0))), "post", ins)
    nm = T.ne(T.var("old.%d.1" % OFF("normalMap"), 8), T.const(0, 8)); mx = lambda x: T.ite(T.eq(T.lshr(x, lev), C32(0)), C32(1), T.lshr(x, lev))
    fin = st.ghost["img:image"]; tw, th = mx(W), mx(H)
    rot = T.ne(T.var("old.%d.1" % OFF("rotate"), 8), T.const(0, 8))
    nw = T.and_(T.eq(W, tw), T.eq(H, th))
    ex.oblige(st, "image: the processed image has the level's width", T.implies(r, T.eq(fin[0], tw)), "post", ins)
    ex.oblige(st, "image: the processed image has the level's height", T.implies(r, T.eq(fin[1], th)), "post", ins)
    ev = [e for e in st.trace if e.name == "resize"]
    for e in ev:
        ex.oblige(st, "image: resized only when the size differs, to the texture's or the level's size", T.implies(e.guard, T.and_(T.or_(T.ne(e.args[2][0], e.args[0]), T.ne(e.args[2][1], e.args[1])), T.or_(T.and_(T.eq(e.args[0], tw), T.eq(e.args[1], th)), T.and_(nm, T.eq(e.args[0], W), T.eq(e.args[1], H))))), "post", ins)
        ex.oblige(st, "image: resized with the given filter", T.implies(e.guard, T.eq(e.args[3], T.var("old.%d.4" % OFF("resizeFilter"), 32))), "post", ins)
    res.functions.append("loadAndProcessImage"); run.discharge_into(res, ex.obs, ins); run.collect(res, ex)
